package protocol

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// nvNet is the client's side of the network: what it writes goes to req, what
// it reads comes from data given to it, in chunks.
type nvNet struct {
	mu     sync.Mutex
	cond   *sync.Cond
	data   []byte
	chunks []int
	end    error
	mixed  bool
	nclose int
	req    chan []byte
	hook   func([]byte) // runs within Write
}

func nvNewNet() *nvNet {
	n := &nvNet{req: make(chan []byte, 100000)}
	n.cond = sync.NewCond(&n.mu)
	return n
}
func (n *nvNet) Read(b []byte) (int, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(n.data) == 0 && n.end == nil {
		n.cond.Wait()
	}
	if len(n.data) == 0 {
		return 0, n.end
	}
	k := 1 << 30
	if len(n.chunks) > 0 {
		k = n.chunks[0]
		n.chunks = n.chunks[1:]
	}
	if k > len(n.data) {
		k = len(n.data)
	}
	k = copy(b, n.data[:k])
	n.data = n.data[k:]
	if len(n.data) == 0 && n.mixed && n.end != nil {
		return k, n.end
	}
	return k, nil
}
func (n *nvNet) give(b []byte) {
	n.mu.Lock()
	n.data = append(n.data[:len(n.data):len(n.data)], b...)
	n.cond.Broadcast()
	n.mu.Unlock()
}
func (n *nvNet) finish(e error) {
	n.mu.Lock()
	n.end = e
	n.cond.Broadcast()
	n.mu.Unlock()
}
func (n *nvNet) Write(b []byte) (int, error) {
	n.mu.Lock()
	h := n.hook
	n.mu.Unlock()
	if h != nil {
		h(append([]byte{}, b...))
		return len(b), nil
	}
	n.req <- append([]byte{}, b...)
	return len(b), nil
}
func (n *nvNet) Close() error {
	n.mu.Lock()
	n.nclose++
	n.mu.Unlock()
	return nil
}

func nvClient(t *testing.T, id string, n *nvNet) *Client {
	c, err := NewClient(func(c *Client) error {
		c.ToNet, c.FromNet = n, n
		return nil
	})
	if err != nil {
		nvFail(t, id, "NewClient: %v", err)
	}
	return c
}

var nvCallNames = []string{"version", "attach", "flush", "walk", "open", "create", "read", "write", "clunk", "remove", "stat", "wstat"}

type nvRes struct {
	vs  []interface{}
	err error
	p   interface{}
}

func nvCall(c *Client, op string, vs []interface{}) (r nvRes) {
	m := reflect.ValueOf(c).MethodByName("CallT" + op)
	var in []reflect.Value
	for i, v := range vs {
		in = append(in, toType(v, m.Type().In(i)))
	}
	r.p = guarded(func() {
		out := m.Call(in)
		for _, o := range out[:len(out)-1] {
			r.vs = append(r.vs, fromVal(o))
		}
		r.err, _ = out[len(out)-1].Interface().(error)
	})
	return
}

func nvDeadline() <-chan time.Time { return time.After(10 * time.Second) }

// C12: one call, one arbitrary reply
func TestNVC12(t *testing.T) {
	nvInit()
	nvBusyClient(t, "C12")
	nvAlso(func() {
		n := nvNewNet()
		c := nvClient(t, "C12", n)
		for nvCase() {
			op := nvCallNames[nvRand.Intn(12)]
			vs := nvVals("T" + op)
			want := nvEncode("T"+op, 0, vs)
			if len(want) > 1<<20 {
				continue
			}
			done := make(chan nvRes, 1)
			go func() { done <- nvCall(c, op, vs) }()
			var req []byte
			select {
			case req = <-n.req:
			case <-nvDeadline():
				nvFail(t, "C12", "CallT%s(%s) sends no request", op, show(vs))
			case r := <-done:
				nvFail(t, "C12", "CallT%s(%s) returns without having sent a request: %v %v %v", op, show(vs), r.vs, r.err, r.p)
			}
			if len(req) < 7 || !bytes.Equal(req[:5], want[:5]) || !bytes.Equal(req[7:], want[7:]) {
				nvFail(t, "C12", "CallT%s(%s) sends %s, want %s (any tag)", op, show(vs), showB(req), showB(want))
			}
			rk := "R" + op
			switch nvRand.Intn(6) {
			case 0:
				rk = "Rerror"
			case 1:
				ks := nvNames()
				rk = ks[nvRand.Intn(len(ks))]
			}
			rep := nvEncode(rk, 0, nvVals(rk))
			if len(rep) > 1<<20 {
				rep = nvEncode("Rerror", 0, []interface{}{"x"})
				rk = "Rerror"
			}
			if nvRand.Intn(4) == 0 {
				b := nvMangle(append([]byte{}, rep[5:]...))
				for len(b) < 2 {
					b = append(b, 0)
				}
				rep = append(leN(nil, uint64(len(b)+5), 4), append([]byte{rep[4]}, b...)...)
			}
			if nvRand.Intn(10) == 0 {
				rep[4] = byte(nvRand.Intn(256))
			}
			rep[5], rep[6] = req[5], req[6]
			n.mu.Lock()
			n.chunks = nvChunks(len(rep))
			n.mu.Unlock()
			n.give(append([]byte{}, rep...))
			var r nvRes
			select {
			case r = <-done:
			case <-nvDeadline():
				nvFail(t, "C12", "CallT%s(%s) does not return after the reply %s", op, show(vs), showB(rep))
			}
			if r.p != nil {
				nvFail(t, "C12", "CallT%s(%s) panics after the reply %s: %v", op, show(vs), showB(rep), r.p)
			}
			wv, _, ok := nvDecode("R"+op, rep[5:])
			ok = ok && rep[4] == nvKinds["R"+op].num
			ev, _, eok := nvDecode("Rerror", rep[5:])
			eok = eok && rep[4] == 107
			switch {
			case ok:
				if r.err != nil || fmt.Sprintf("%#v", r.vs) != fmt.Sprintf("%#v", wv) {
					nvFail(t, "C12", "CallT%s after the reply %s returns %s, error %v; want %s", op, showB(rep), show(r.vs), r.err, show(wv))
				}
			case eok:
				if r.err == nil || r.err.Error() != ev[0].(string) {
					nvFail(t, "C12", "CallT%s after the reply %s fails with %.200v, want the text %.200q", op, showB(rep), r.err, ev[0])
				}
			default:
				if r.err == nil {
					nvFail(t, "C12", "CallT%s returns no error after the reply %s", op, showB(rep))
				}
			}
		}
	})
}

func nvReadData(f FID) []byte {
	b := []byte(fmt.Sprint(f))
	if f%97 == 3 {
		b = append(b, make([]byte, f%70001)...)
	}
	return b
}

// C11: many calls at once; replies out of order, bogus replies in between
func TestNVC11(t *testing.T) {
	nvInit()
	nvBusyClient(t, "C11")
	nvBusy.Store("C11")
	nvAlso(func() {
		n := nvNewNet()
		c := nvClient(t, "C11", n)
		total := 0
		for nvCase() {
			if nvRand.Intn(8) == 0 { // the reply is there before the write has returned
				ln := []int{0, 1, 100, 977, 978, 2000, 4096, 8168, 8169, 9000, 65535, 65536, 70000}[nvRand.Intn(13)]
				var sent []byte
				n.mu.Lock()
				n.hook = func(req []byte) {
					if sent = req; len(req) > 7 {
						n.give(nvEncode("Rwrite", uint16(le(req[5:], 2)), []interface{}{uint64(ln)}))
					}
					time.Sleep(2 * time.Millisecond)
				}
				n.mu.Unlock()
				r := make(chan nvRes, 1)
				go func() { r <- nvCall(c, "write", []interface{}{uint64(5), uint64(0), make([]byte, ln)}) }()
				select {
				case x := <-r:
					if x.p != nil || x.err != nil {
						nvFail(t, "C11", "write of %d bytes, answered before the transport's Write returns: error %v, panic %v", ln, x.err, x.p)
					}
				case <-nvDeadline():
					nvFail(t, "C11", "write of %d bytes, answered before the transport's Write returns, gets no reply; request %s", ln, showB(sent))
				}
				time.Sleep(3 * time.Millisecond)
				n.mu.Lock()
				n.hook = nil
				n.mu.Unlock()
				total++
				continue
			}
			k := 1 + nvRand.Intn(60)
			big := total%200000 < 66000 && nvRand.Intn(3) == 0
			if big {
				k = 1500
			}
			total += k
			type one struct {
				f FID
				r chan nvRes
			}
			var cs []one
			for i := 0; i < k; i++ {
				o := one{FID(total*2000 + i), make(chan nvRes, 1)}
				cs = append(cs, o)
				go func() { o.r <- nvCall(c, "read", []interface{}{uint64(o.f), uint64(7), uint64(9)}) }()
			}
			tags := map[uint16]FID{}
			reply := func(tag uint16, f FID) []byte {
				return nvEncode("Rread", tag, []interface{}{nvReadData(f)})
			}
			var pend []uint16
			got := 0
			var out []byte
			settle := func(max int) {
				for len(pend) > max {
					i := nvRand.Intn(len(pend))
					tag := pend[i]
					pend = append(pend[:i], pend[i+1:]...)
					if nvRand.Intn(10) == 0 { // nobody waits for these
						bt := []uint16{0, 0xffff, 0xfffe, uint16(nvInt(2))}[nvRand.Intn(4)]
						if _, used := tags[bt]; bt == 0 || bt == 0xffff || got == k && !used && bt != tag {
							out = append(out, reply(bt, 1)...)
						}
					}
					out = append(out, reply(tag, tags[tag])...)
					if nvRand.Intn(20) == 0 { // a second reply to the same request
						out = append(out, reply(0, 2)...)
					}
					delete(tags, tag)
				}
				n.give(out)
				out = nil
			}
			for got < k {
				select {
				case req := <-n.req:
					vs, tag, ok := nvDecode("Tread", req[5:])
					if !ok || req[4] != 116 || vs[1].(uint64) != 7 || vs[2].(uint64) != 9 || int(le(req, 4)) != len(req) {
						nvFail(t, "C11", "a request is changed on its way: %s", showB(req))
					}
					if tag == 0 || tag == 0xffff {
						nvFail(t, "C11", "request with tag %d", tag)
					}
					if _, used := tags[tag]; used {
						nvFail(t, "C11", "two outstanding requests with tag %d", tag)
					}
					tags[tag] = FID(vs[0].(uint64))
					pend = append(pend, tag)
					got++
					if nvRand.Intn(30) == 0 {
						settle(nvRand.Intn(len(pend) + 1))
					}
				case <-nvDeadline():
					nvFail(t, "C11", "%d of %d calls sent a request, after %d calls", got, k, total)
				}
			}
			settle(0)
			for _, o := range cs {
				select {
				case r := <-o.r:
					if r.p != nil || r.err != nil || !bytes.Equal(r.vs[0].([]byte), nvReadData(o.f)) {
						nvFail(t, "C11", "the read of fid %d gets %s, error %v, panic %v", o.f, show(r.vs), r.err, r.p)
					}
				case <-nvDeadline():
					nvFail(t, "C11", "the read of fid %d gets no reply", o.f)
				}
			}
		}
	})
}

func le(b []byte, n int) (u uint64) {
	for i := n - 1; i >= 0; i-- {
		u = u<<8 | uint64(b[i])
	}
	return
}

func TestNVC13(t *testing.T) {
	nvInit()
	nvAlso(func() {
		for nvCase() {
			n := nvNewNet()
			c := nvClient(t, "C13", n)
			if nvRand.Intn(3) > 0 {
				for i := nvRand.Intn(400); i > 0; i-- {
					c.GetFID()
				}
			}
			const g, each = 8, 3000
			var wg sync.WaitGroup
			out := make([][]FID, g)
			for i := 0; i < g; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < each; j++ {
						out[i] = append(out[i], c.GetFID())
					}
				}()
			}
			wg.Wait()
			seen := map[FID]bool{}
			for _, fs := range out {
				for _, f := range fs {
					if f == NOFID {
						nvFail(t, "C13", "NOFID handed out")
					}
					if seen[f] {
						nvFail(t, "C13", "fid %d handed out twice", f)
					}
					seen[f] = true
				}
			}
			n.finish(io.EOF)
			if nvRand.Intn(20) == 0 {
				m := map[FID]bool{}
				for i := 0; i < 200000; i++ {
					f := c.GetFID()
					if m[f] || seen[f] || f == NOFID {
						nvFail(t, "C13", "fid %d handed out again after %d requests", f, i+g*each)
					}
					m[f] = true
				}
			}
		}
	})
}

// C14: outstanding calls, then a stream of replies in arbitrary chunks
func TestNVC14(t *testing.T) {
	nvInit()
	nvBusy.Store("C14")
	nvAlso(func() {
		for nvCase() {
			n := nvNewNet()
			c := nvClient(t, "C14", n)
			k := nvRand.Intn(5)
			short := nvRand.Intn(3) == 0
			if short {
				k = 60
			}
			var rs []chan nvRes
			var data [][]byte
			var msgs [][]byte
			for i := 0; i < k; i++ {
				r := make(chan nvRes, 1)
				op := "read"
				if short || nvRand.Intn(3) == 0 {
					op = []string{"clunk", "remove", "flush", "wstat"}[nvRand.Intn(4)] // a 7-byte reply
				}
				vs := []interface{}{uint64(1), uint64(7), uint64(9)}
				switch op {
				case "clunk", "remove", "flush":
					vs = vs[:1]
				case "wstat":
					vs = []interface{}{uint64(1), []byte("abc")}
				}
				go func() { r <- nvCall(c, op, vs) }()
				var req []byte
				select {
				case req = <-n.req:
				case <-nvDeadline():
					nvFail(t, "C14", "no request")
				}
				d := nvData(8000)
				if nvRand.Intn(100) == 0 && !short {
					d = make([]byte, []int{0x7ffff0, 0x800000, 0x8000ff, 0x1000000}[nvRand.Intn(4)])
					d[0], d[len(d)-1] = 1, 2
				}
				if op != "read" {
					d = nil
					msgs = append(msgs, nvEncode("R"+op, uint16(le(req[5:], 2)), nil))
				} else {
					msgs = append(msgs, nvEncode("Rread", uint16(le(req[5:], 2)), []interface{}{d}))
				}
				rs, data = append(rs, r), append(data, d)
			}
			last, lastLen := k, 0
			var in []byte
			for i, m := range msgs {
				if i == k-1 {
					switch nvRand.Intn(4) {
					case 0: // cut short
						m = m[:nvRand.Intn(len(m))]
						last = i
					case 1: // bad size
						m = append(leN(nil, uint64(nvRand.Intn(7)), 4), m[4:]...)
						last = i
					}
				}
				in = append(in, m...)
				lastLen = len(m)
			}
			end := error(io.EOF)
			if nvRand.Intn(3) == 0 {
				end = errors.New("transport error")
			}
			n.mu.Lock()
			n.data, n.chunks, n.end, n.mixed = in, nvChunks(len(in)), end, nvRand.Intn(3) == 0
			n.cond.Broadcast()
			n.mu.Unlock()
			for i := 0; i < last; i++ {
				select {
				case r := <-rs[i]:
					if r.p != nil || r.err != nil || len(r.vs) > 0 && !bytes.Equal(r.vs[0].([]byte), data[i]) {
						nvFail(t, "C14", "stream %s: reply %d of %d arrives as %s, error %v, panic %v", showB(in), i, k, show(r.vs), r.err, r.p)
					}
				case <-nvDeadline():
					nvFail(t, "C14", "stream %s: reply %d of %d is not passed on", showB(in), i, k)
				}
			}
			ok := false
			for i := 0; i < 10000 && !ok; i++ {
				n.mu.Lock()
				ok = n.nclose > 0
				n.mu.Unlock()
				if !ok {
					time.Sleep(time.Millisecond)
				}
			}
			if !ok {
				nvFail(t, "C14", "stream %s: the connection is not closed at the end", showB(in))
			}
			for i := 0; i < 1000 && !c.Dead; i++ {
				time.Sleep(time.Millisecond)
			}
			if !c.Dead {
				nvFail(t, "C14", "stream %s: the client is not marked dead", showB(in))
			}
			if last < k {
				select {
				case r := <-rs[last]:
					_, _, cut := UnmarshalRreadPkt(bytes.NewBuffer(append([]byte{}, msgs[last][5:]...)))
					if n := len(in); lastLen >= 7 {
						_, _, cut = UnmarshalRreadPkt(bytes.NewBuffer(append([]byte{}, in[n-lastLen+5:]...)))
					}
					if r.err == nil || cut != nil && r.err.Error() == cut.Error() {
						nvFail(t, "C14", "stream %s: message %d, which is cut short or has a bad size, is passed on", showB(in), last)
					}
				case <-time.After(3 * time.Millisecond):
				}
			}
			atomic.AddInt64(&nvCases, 1)
		}
	})
}
