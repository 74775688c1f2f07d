package protocol

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

// nvHashNS answers every request with values that depend on its arguments
// only, and records the calls of one connection.
type nvHashNS struct {
	id    int
	mu    sync.Mutex
	calls []string
}

func (n *nvHashNS) h(op string, as ...interface{}) (uint64, error) {
	s := op + fmt.Sprintf("%v", as)
	n.mu.Lock()
	n.calls = append(n.calls, s)
	n.mu.Unlock()
	f := fnv.New64a()
	f.Write([]byte(s))
	u := f.Sum64()
	if u%5 == 0 {
		return u, errors.New("e" + fmt.Sprint(u%1000))
	}
	return u, nil
}
func (n *nvHashNS) q(u uint64) QID {
	return QID{Type: uint8(u), Version: uint32(u >> 3), Path: u}
}
func (n *nvHashNS) Rversion(m MaxSize, v string) (MaxSize, string, error) {
	_, err := n.h("version", m, v)
	return m, v, err
}
func (n *nvHashNS) Rattach(a, b FID, c, d string) (QID, error) {
	u, err := n.h("attach", a, b, c, d)
	return n.q(u), err
}
func (n *nvHashNS) Rwalk(a, b FID, p []string) ([]QID, error) {
	u, err := n.h("walk", a, b, p)
	var qs []QID
	for i := range p {
		qs = append(qs, n.q(u+uint64(i)))
	}
	return qs, err
}
func (n *nvHashNS) Ropen(a FID, m Mode) (QID, MaxSize, error) {
	u, err := n.h("open", a, m)
	return n.q(u), MaxSize(u), err
}
func (n *nvHashNS) Rcreate(a FID, s string, p Perm, m Mode) (QID, MaxSize, error) {
	u, err := n.h("create", a, s, p, m)
	return n.q(u), MaxSize(u), err
}
func (n *nvHashNS) Rstat(a FID) ([]byte, error) {
	u, err := n.h("stat", a)
	return bytes.Repeat([]byte{byte(u)}, int(u%200)), err
}
func (n *nvHashNS) Rwstat(a FID, b []byte) error { _, err := n.h("wstat", a, b); return err }
func (n *nvHashNS) Rclunk(a FID) error           { _, err := n.h("clunk", a); return err }
func (n *nvHashNS) Rremove(a FID) error          { _, err := n.h("remove", a); return err }
func (n *nvHashNS) Rread(a FID, o Offset, c Count) ([]byte, error) {
	u, err := n.h("read", a, o, c)
	return bytes.Repeat([]byte{byte(u)}, int(u%3000)), err
}
func (n *nvHashNS) Rwrite(a FID, o Offset, d []byte) (Count, error) {
	u, err := n.h("write", a, o, d)
	return Count(u), err
}
func (n *nvHashNS) Rflush(t Tag) error { _, err := n.h("flush", t); return err }

// nvConn delivers in as prepared chunks and collects what is written.
type nvConn struct {
	mu     sync.Mutex
	in     []byte
	chunks []int
	eof    error // given at the end
	mixed  bool  // the last bytes come with the error
	out    bytes.Buffer
	writes [][]byte
	wlimit int // number of writes that succeed, -1: all
	closed chan bool
	nclose int
	after  bool  // written or read after close
	readAt []int // how much had been read at each write
	pos    int
}

func (c *nvConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nclose > 0 {
		c.after = true
		return 0, errors.New("closed")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.pos == len(c.in) {
		return 0, c.eof
	}
	n := 1 << 30
	if len(c.chunks) > 0 {
		n = c.chunks[0]
		c.chunks = c.chunks[1:]
	}
	if n > len(c.in)-c.pos {
		n = len(c.in) - c.pos
	}
	n = copy(b, c.in[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.in) && c.mixed {
		return n, c.eof
	}
	return n, nil
}
func (c *nvConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nclose > 0 {
		c.after = true
	}
	if c.wlimit == 0 {
		return 0, errors.New("write failed")
	}
	if c.wlimit > 0 {
		c.wlimit--
	}
	c.out.Write(b)
	c.writes = append(c.writes, append([]byte{}, b...))
	return len(b), nil
}
func (c *nvConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nclose++
	if c.nclose == 1 {
		close(c.closed)
	}
	return nil
}

type nvAddr string

func (a nvAddr) Network() string                     { return "nv" }
func (a nvAddr) String() string                      { return string(a) }
func (c *nvConn) LocalAddr() net.Addr                { return nvAddr("here") }
func (c *nvConn) RemoteAddr() net.Addr               { return nvAddr("there") }
func (c *nvConn) SetDeadline(t time.Time) error      { return nil }
func (c *nvConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *nvConn) SetWriteDeadline(t time.Time) error { return nil }

func nvChunks(n int) (cs []int) {
	mode := nvRand.Intn(4)
	for n > 0 && len(cs) < 5000 {
		k := 1
		switch mode {
		case 0:
			k = 1 << 30
		case 1:
			k = 1
		case 2:
			k = 1 + nvRand.Intn(9)
		case 3:
			k = 1 + nvRand.Intn(300)
		}
		cs = append(cs, k)
		n -= k
	}
	return
}

// nvStream: what one client sends; the messages that must be acted on
func nvStream(version bool) (in []byte, msgs [][]byte) {
	n := nvRand.Intn(6)
	ts := []byte{104, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 99, 106, 0, 255}
	for i := 0; i < n; i++ {
		ty := ts[nvRand.Intn(len(ts))]
		var m []byte
		switch {
		case i == 0 && version:
			m = nvEncode("Tversion", 0xffff, []interface{}{uint64(8192), "9P2000"})
		case nvOps[ty] != "":
			m = nvEncode(nvKindOf(ty), uint16(nvInt(2)), nvVals(nvKindOf(ty)))
			if nvRand.Intn(8) == 0 {
				b := nvMangle(m[5:])
				if len(b) < 2 {
					b = []byte{1, 2}
				}
				m = append(leN(nil, uint64(len(b)+5), 4), append([]byte{ty}, b...)...)
			}
		default:
			b := append([]byte{ty, byte(nvRand.Intn(256)), 7}, nvData(50)...)
			m = append(leN(nil, uint64(len(b)+4), 4), b...)
		}
		if len(m) > 1<<20 {
			continue
		}
		in = append(in, m...)
		msgs = append(msgs, m)
	}
	switch nvRand.Intn(4) {
	case 0: // cut short
		m := nvEncode("Tclunk", 5, []interface{}{uint64(9)})
		if nvRand.Intn(2) == 0 {
			m = nvEncode("Twrite", 5, []interface{}{uint64(9), uint64(0), make([]byte, 100+nvRand.Intn(5000))})
		}
		in = append(in, m[:nvRand.Intn(len(m))]...)
	case 1: // bad size
		in = append(in, leN(nil, uint64(nvRand.Intn(7)), 4)...)
		in = append(in, 120, 1, 2, 3, 4, 5, 6, 11, 0, 0, 0, 120, 1, 0, 9, 0, 0, 0)
	}
	return
}

func nvExpect(msgs [][]byte) (out [][]byte, calls []string) {
	ns := &nvHashNS{}
	s := &Server{NS: ns}
	for _, m := range msgs {
		b := bytes.NewBuffer(append([]byte{}, m[5:]...))
		Dispatch(s, b, MType(m[4]))
		out = append(out, append([]byte{}, b.Bytes()...))
	}
	return out, ns.calls
}

func nvSession(t *testing.T, id string, many bool) {
	nvInit()
	nvAlso(func() {
		for nvCase() {
			var made []*nvHashNS
			var mu sync.Mutex
			l, err := NewListener(func() NineServer {
				mu.Lock()
				defer mu.Unlock()
				n := &nvHashNS{id: len(made)}
				made = append(made, n)
				return n
			})
			if err != nil {
				nvFail(t, id, "NewListener: %v", err)
			}
			n := 1
			if many {
				n = 1 + nvRand.Intn(5)
			}
			var cs []*nvConn
			var ms [][][]byte
			for i := 0; i < n; i++ {
				in, msgs := nvStream(nvRand.Intn(3) > 0)
				c := &nvConn{in: in, chunks: nvChunks(len(in)), eof: io.EOF, mixed: nvRand.Intn(3) == 0, wlimit: -1, closed: make(chan bool)}
				if nvRand.Intn(4) == 0 {
					c.eof = errors.New("transport error")
				}
				if nvRand.Intn(6) == 0 {
					c.wlimit = nvRand.Intn(3)
				}
				cs, ms = append(cs, c), append(ms, msgs)
			}
			for i, c := range cs {
				if err := l.Accept(c); err != nil {
					nvFail(t, id, "connection %d: Accept returns %v", i, err)
				}
			}
			for i, c := range cs {
				select {
				case <-c.closed:
				case <-time.After(10 * time.Second):
					nvFail(t, id, "connection %d is not closed; input %s", i, showB(c.in))
				}
			}
			for i, c := range cs {
				c.mu.Lock()
				want, _ := nvExpect(ms[i])
				lim := len(want)
				if len(c.writes) < lim && c.wlimit == 0 {
					lim = len(c.writes)
				}
				var w []byte
				for j := 0; j < lim; j++ {
					w = append(w, want[j]...)
				}
				if !bytes.Equal(w, c.out.Bytes()) {
					nvFail(t, id, "connection %d: input %s of %d messages, answered with %s, want %s", i, showB(c.in), len(ms[i]), showB(c.out.Bytes()), showB(w))
				}
				if id == "C09" && c.nclose < 1 {
					nvFail(t, id, "connection %d is not closed", i)
				}
				if c.after {
					nvFail(t, id, "connection %d is used after it was closed", i)
				}
				c.mu.Unlock()
			}
			if many {
				mu.Lock()
				if len(made) != n {
					nvFail(t, id, "%d connections, %d file servers", n, len(made))
				}
				used := map[int]bool{}
				for i := range cs {
					k := len(ms[i])
					if cs[i].wlimit == 0 && len(cs[i].writes)+1 < k {
						k = len(cs[i].writes) + 1
					}
					_, calls := nvExpect(ms[i][:k])
					ok := false
					for j, m := range made {
						m.mu.Lock()
						if !used[j] && fmt.Sprint(m.calls) == fmt.Sprint(calls) {
							used[j], ok = true, true
							m.mu.Unlock()
							break
						}
						m.mu.Unlock()
					}
					if !ok {
						nvFail(t, id, "no file server got exactly the calls of connection %d: %.300q", i, calls)
					}
				}
				mu.Unlock()
			}
		}
	})
}

func TestNVC08(t *testing.T) { nvSession(t, "C08", false) }
func TestNVC09(t *testing.T) { nvSession(t, "C09", true) }

// ---- C10 ----

type nvTempErr struct{ temp, timeout bool }

func (e nvTempErr) Error() string   { return "accept error" }
func (e nvTempErr) Temporary() bool { return e.temp }
func (e nvTempErr) Timeout() bool   { return e.timeout }

type nvListener struct {
	mu     sync.Mutex
	script []interface{} // net.Conn or error
	times  []time.Time
	nclose int
	cerr   error
	hang   chan bool
	at     int
}

func (l *nvListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	l.times = append(l.times, time.Now())
	i := l.at
	l.at++
	l.mu.Unlock()
	if i >= len(l.script) {
		<-l.hang
		return nil, errors.New("closed")
	}
	if c, ok := l.script[i].(net.Conn); ok {
		return c, nil
	}
	return nil, l.script[i].(error)
}
func (l *nvListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.nclose++
	if l.nclose == 1 {
		close(l.hang)
	}
	return l.cerr
}
func (l *nvListener) Addr() net.Addr { return nvAddr("l") }

func nvNewListener() *nvListener { return &nvListener{hang: make(chan bool)} }

func TestNVC10(t *testing.T) {
	nvInit()
	mk := func() *Listener {
		l, _ := NewListener(func() NineServer { return &nvHashNS{} })
		return l
	}
	nvBusy.Store("C10")
	// temporary errors: several patterns at the same time
	var wg sync.WaitGroup
	var fmu sync.Mutex
	fails := map[string]bool{}
	fail := func(f string, a ...interface{}) {
		fmu.Lock()
		fails[fmt.Sprintf(f, a...)] = true
		fmu.Unlock()
	}
	patterns := []string{"ttttttttttp", "ttctttp", "ctctctp", "ccccp", "p", "tTtTp", "tttcttttcttp", "q", "tq"}
	run := func(p string) (late string) {
		ln := nvNewListener()
		perm := error(errors.New("permanent"))
		var conns []*nvConn
		var want []time.Duration // before each Accept
		d := time.Duration(0)
		want = append(want, 0)
		for _, c := range p {
			switch c {
			case 't', 'T':
				ln.script = append(ln.script, nvTempErr{true, c == 'T'})
				if d == 0 {
					d = 5 * time.Millisecond
				} else {
					d *= 2
				}
				if d > time.Second {
					d = time.Second
				}
				want = append(want, d)
			case 'c':
				nc := &nvConn{in: nvEncode("Tversion", 0xffff, []interface{}{uint64(8192), "9P2000"}), eof: io.EOF, wlimit: -1, closed: make(chan bool)}
				conns = append(conns, nc)
				ln.script = append(ln.script, nc)
				d = 0
				want = append(want, 0)
			case 'p':
				ln.script = append(ln.script, perm)
			case 'q':
				perm = nvTempErr{false, true}
				ln.script = append(ln.script, perm)
			}
		}
		l := mk()
		done := make(chan error, 1)
		go func() { done <- l.Serve(ln) }()
		select {
		case err := <-done:
			if err != perm {
				fail("accept results %s: Serve returns %v", p, err)
			}
		case <-time.After(20 * time.Second):
			fail("accept results %s: Serve does not end", p)
			return ""
		}
		ln.mu.Lock()
		if ln.nclose == 0 {
			fail("accept results %s: the listener is not closed", p)
		}
		if ln.at != len(p) {
			fail("accept results %s: %d calls of Accept", p, ln.at)
		}
		for i := 1; i < len(ln.times) && i < len(want); i++ {
			got := ln.times[i].Sub(ln.times[i-1])
			if s := fmt.Sprintf("accept results %s: delay %d is %v, want %v", p, i, got, want[i]); got < want[i] {
				fail("%s", s)
			} else if got > want[i]+want[i]/8+100*time.Millisecond {
				late = s
			}
		}
		n := ln.nclose
		ln.mu.Unlock()
		for i, c := range conns {
			select {
			case <-c.closed:
				c.mu.Lock()
				if len(c.writes) != 1 {
					fail("accept results %s: connection %d got %d replies", p, i, len(c.writes))
				}
				c.mu.Unlock()
			case <-time.After(5 * time.Second):
				fail("accept results %s: connection %d is not served", p, i)
			}
		}
		l.Shutdown()
		if ln.nclose != n {
			fail("accept results %s: still tracked after Serve ended", p)
		}
		return
	}
	for _, p := range patterns {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			late := ""
			for i := 0; i < 4; i++ { // the machine may be busy
				if late = run(p); late == "" {
					return
				}
			}
			fail("%s", late)
		}()
	}
	wg.Wait()
	for s := range fails {
		nvFail(t, "C10", "%s", s)
	}
	for nvCase() {
		l := mk()
		n := nvRand.Intn(5)
		var lns []*nvListener
		var errs []error
		done := make(chan error, n)
		for i := 0; i < n; i++ {
			ln := nvNewListener()
			if nvRand.Intn(2) == 0 {
				ln.cerr = fmt.Errorf("close error %d", i)
				errs = append(errs, ln.cerr)
			}
			lns = append(lns, ln)
			go func() { done <- l.Serve(ln) }()
		}
		for _, ln := range lns {
			for k := 0; k < 5000; k++ {
				ln.mu.Lock()
				a := ln.at
				ln.mu.Unlock()
				if a > 0 {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		err := l.Shutdown()
		ok := err == nil && len(errs) == 0
		for _, e := range errs {
			ok = ok || e == err
		}
		if !ok {
			nvFail(t, "C10", "Shutdown with close errors %v returns %v", errs, err)
		}
		for i, ln := range lns {
			ln.mu.Lock()
			if ln.nclose == 0 {
				nvFail(t, "C10", "Shutdown of %d listeners: listener %d (close error %v) is not closed", n, i, ln.cerr)
			}
			ln.mu.Unlock()
		}
		for i := 0; i < n; i++ {
			select {
			case e := <-done:
				if e == nil {
					nvFail(t, "C10", "Serve returns no error after Shutdown")
				}
			case <-time.After(10 * time.Second):
				nvFail(t, "C10", "Serve does not end after Shutdown")
			}
		}
		var before []int
		for _, ln := range lns {
			before = append(before, ln.nclose)
		}
		if err := l.Shutdown(); err != nil {
			nvFail(t, "C10", "a second Shutdown returns %v", err)
		}
		for i, ln := range lns {
			if ln.nclose != before[i] {
				nvFail(t, "C10", "listener %d is not forgotten by Shutdown", i)
			}
		}
	}
}
