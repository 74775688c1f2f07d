package ufs

// Several connections at once, each in a directory of its own: what one client
// does must not show in what another is told.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

type parC struct {
	c    net.Conn
	r    *rand.Rand
	i    int
	dir  string // its directory
	hist []string
	mine map[string]string // its files
	stop *bool
}

func (c *parC) fail(props, f string, a ...interface{}) {
	if !strings.Contains(" "+props+" ", " "+nvID+" ") {
		panic(nvStop{})
	}
	h := c.hist
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	s := fmt.Sprintf("several connections at once, connection %d in directory c%d: ", c.i, c.i) + fmt.Sprintf(f, a...) + "; requests: " + strings.Join(h, " | ")
	fmt.Printf("FAILING %s: %s\n", nvID, strings.Replace(s, "\n", "\\n", -1))
	os.Exit(1)
}

func (c *parC) rpc(what string, m func(b *bytes.Buffer)) (*bytes.Buffer, bool) {
	c.hist = append(c.hist, what)
	var b bytes.Buffer
	m(&b)
	c.c.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := c.c.Write(b.Bytes()); err != nil {
		c.fail(nvID, "the connection ends: %v", err)
	}
	var h [4]byte
	if _, err := io.ReadFull(c.c, h[:]); err != nil {
		c.fail(nvID, "no reply: %v", err)
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n < 7 || n > 1<<24 {
		c.fail(nvID, "reply of size %d", n)
	}
	d := make([]byte, n-4)
	if _, err := io.ReadFull(c.c, d); err != nil {
		c.fail(nvID, "short reply: %v", err)
	}
	if d[0] == byte(protocol.Rerror) {
		e, _, _ := protocol.UnmarshalRerrorPkt(bytes.NewBuffer(d[1:]))
		c.hist[len(c.hist)-1] += " = error " + e
		return nil, false
	}
	if d[0] != b.Bytes()[4]+1 || !bytes.Equal(d[1:3], b.Bytes()[5:7]) {
		c.fail(nvID, "reply of type %d, tag %x", d[0], d[1:3])
	}
	return bytes.NewBuffer(d[1:]), true
}

func (c *parC) steps(n int, end time.Time) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(nvStop); !ok {
				panic(p)
			}
		}
	}()
	t := protocol.Tag(c.i + 1)
	if _, ok := c.rpc("version", func(b *bytes.Buffer) { protocol.MarshalTversionPkt(b, t, 8192, "9P2000") }); !ok {
		c.fail("C16", "version fails")
	}
	if _, ok := c.rpc("attach 1", func(b *bytes.Buffer) { protocol.MarshalTattachPkt(b, t, 1, protocol.NOFID, "u", "") }); !ok {
		c.fail("C16 C17", "attach fails")
	}
	walk := func(fid protocol.FID, names ...string) {
		b, ok := c.rpc(fmt.Sprintf("walk 1 %d %q", fid, names), func(b *bytes.Buffer) { protocol.MarshalTwalkPkt(b, t, 1, fid, names) })
		if !ok {
			c.fail("C17 C16", "walk fails")
		}
		qs, _, err := protocol.UnmarshalRwalkPkt(b)
		if err != nil || len(qs) != len(names) {
			c.fail("C17", "walk gives %v, %v", qs, err)
		}
		p := filepath.Dir(c.dir)
		for k, n := range names {
			p = filepath.Join(p, n)
			fi, err := os.Lstat(p)
			if err != nil {
				c.fail("C17", "walk goes to %s: %v", p, err)
			}
			if fi.IsDir() { // its time may change meanwhile
				if qs[k].Path != ino(p) {
					c.fail("C17 C21", "walk to %s gives qid path %#x, inode %#x", p, qs[k].Path, ino(p))
				}
			} else if bad := qidBad(qs[k], fi); bad != "" {
				c.fail("C17 C21", "walk to %s gives %s", p, bad)
			}
		}
	}
	clunk := func(fid protocol.FID) {
		if _, ok := c.rpc(fmt.Sprintf("clunk %d", fid), func(b *bytes.Buffer) { protocol.MarshalTclunkPkt(b, t, fid) }); !ok {
			c.fail("C16", "clunk fails")
		}
	}
	own := fmt.Sprintf("c%d", c.i)
	for ; n > 0 && time.Now().Before(end); n-- {
		var names []string
		for f := range c.mine {
			names = append(names, f)
		}
		sort.Strings(names)
		f := names[c.r.Intn(len(names))]
		p := filepath.Join(c.dir, f)
		switch c.r.Intn(6) {
		case 0: // stat
			walk(2, own, f)
			b, ok := c.rpc("stat 2", func(b *bytes.Buffer) { protocol.MarshalTstatPkt(b, t, 2) })
			if !ok {
				c.fail("C16 C21", "stat fails")
			}
			raw, _, err := protocol.UnmarshalRstatPkt(b)
			d, rest, ok := parseDir(raw)
			if err != nil || !ok || len(rest) > 0 {
				c.fail("C21", "stat gives %x, %v", raw, err)
			}
			fi, _ := os.Lstat(p)
			if bad := entBad(d, fi); bad != "" {
				c.fail("C21", "stat of %s gives %s", f, bad)
			}
			clunk(2)
		case 1, 2: // read and write
			walk(2, own, f)
			if _, ok := c.rpc("open 2 mode 2", func(b *bytes.Buffer) { protocol.MarshalTopenPkt(b, t, 2, 2) }); !ok {
				c.fail("C16 C18", "open fails")
			}
			for k := 0; k < 4; k++ {
				off, cnt := c.r.Intn(400), c.r.Intn(700)
				if c.r.Intn(2) == 0 {
					d := []byte(strings.Repeat(string(rune('a'+c.i)), cnt))
					b, ok := c.rpc(fmt.Sprintf("write 2 offset %d %d bytes", off, cnt), func(b *bytes.Buffer) { protocol.MarshalTwritePkt(b, t, 2, protocol.Offset(off), d) })
					if !ok {
						c.fail("C16 C18", "write fails")
					}
					if m, _, err := protocol.UnmarshalRwritePkt(b); err != nil || int(m) != cnt {
						c.fail("C18", "writes %d of %d, %v", m, cnt, err)
					}
					x := []byte(c.mine[f])
					for cnt > 0 && len(x) < off+cnt {
						x = append(x, 0)
					}
					copy(x[min(off, len(x)):], d)
					c.mine[f] = string(x)
					if x, _ := ioutil.ReadFile(p); string(x) != c.mine[f] {
						c.fail("C18", "%s holds %.80q, want %.80q", f, x, c.mine[f])
					}
					continue
				}
				b, ok := c.rpc(fmt.Sprintf("read 2 offset %d count %d", off, cnt), func(b *bytes.Buffer) { protocol.MarshalTreadPkt(b, t, 2, protocol.Offset(off), protocol.Count(cnt)) })
				if !ok {
					c.fail("C16 C18", "read fails")
				}
				d, _, err := protocol.UnmarshalRreadPkt(b)
				w := c.mine[f]
				w = w[min(off, len(w)):]
				w = w[:min(cnt, len(w))]
				if err != nil || string(d) != w {
					c.fail("C18", "reads %.80q, %v, want %.80q", d, err, w)
				}
			}
			clunk(2)
		case 3: // list
			walk(2, own)
			if _, ok := c.rpc("open 2 mode 0", func(b *bytes.Buffer) { protocol.MarshalTopenPkt(b, t, 2, 0) }); !ok {
				c.fail("C16 C20", "open fails")
			}
			var got []string
			for off := 0; ; {
				b, ok := c.rpc(fmt.Sprintf("read 2 offset %d count 300", off), func(b *bytes.Buffer) { protocol.MarshalTreadPkt(b, t, 2, protocol.Offset(off), 300) })
				if !ok {
					c.fail("C16 C20", "read of the directory fails")
				}
				raw, _, err := protocol.UnmarshalRreadPkt(b)
				if err != nil {
					c.fail("C20", "bad Rread: %v", err)
				}
				if len(raw) == 0 {
					break
				}
				off += len(raw)
				for len(raw) > 0 {
					d, rest, ok := parseDir(raw)
					if !ok {
						c.fail("C20", "bad entry in %x", raw)
					}
					fi, err := os.Lstat(filepath.Join(c.dir, d.Name))
					if err != nil {
						c.fail("C20", "entry %q: %v", d.Name, err)
					}
					if bad := entBad(d, fi); bad != "" {
						c.fail("C20 C21", "entry %s has %s", d.Name, bad)
					}
					got, raw = append(got, d.Name), rest
				}
			}
			sort.Strings(got)
			if strings.Join(got, " ") != strings.Join(names, " ") {
				c.fail("C20", "lists %q, want %q", got, names)
			}
			clunk(2)
		case 4: // create, remove
			walk(2, own)
			nm := fmt.Sprintf("n%d", c.r.Intn(1000))
			if _, ok := c.mine[nm]; ok {
				clunk(2)
				continue
			}
			if _, ok := c.rpc("create 2 "+nm, func(b *bytes.Buffer) { protocol.MarshalTcreatePkt(b, t, 2, nm, 0644, 2) }); !ok {
				c.fail("C16 C18", "create fails")
			}
			if _, err := os.Lstat(filepath.Join(c.dir, nm)); err != nil {
				c.fail("C15 C16", "create of %s: %v", nm, err)
			}
			if len(names) < 8 {
				c.mine[nm] = ""
				clunk(2)
				continue
			}
			if _, ok := c.rpc("remove 2", func(b *bytes.Buffer) { protocol.MarshalTremovePkt(b, t, 2) }); !ok {
				c.fail("C16", "remove fails")
			}
			if _, err := os.Lstat(filepath.Join(c.dir, nm)); err == nil {
				c.fail("C16", "%s is not removed", nm)
			}
		case 5: // permissions
			walk(2, own, f)
			d := protocol.Dir{Type: 0xffff, Dev: ^uint32(0), Atime: ^uint32(0), Mtime: ^uint32(0), Length: ^uint64(0), Mode: uint32(0600 | c.r.Intn(2)*044)}
			d.QID = protocol.QID{Type: 0xff, Version: ^uint32(0), Path: ^uint64(0)}
			var w bytes.Buffer
			protocol.Marshaldir(&w, d)
			if _, ok := c.rpc(fmt.Sprintf("wstat 2 mode %o", d.Mode), func(b *bytes.Buffer) { protocol.MarshalTwstatPkt(b, t, 2, w.Bytes()) }); !ok {
				c.fail("C19 C16", "wstat fails")
			}
			if fi, err := os.Lstat(p); err != nil || uint32(fi.Mode().Perm()) != d.Mode {
				c.fail("C19", "the mode of %s is %v, %v", f, fi.Mode(), err)
			}
			clunk(2)
		}
		nvAllPar.Lock()
		nvAll++
		nvAllPar.Unlock()
	}
}

var nvAllPar sync.Mutex

func nvTogether(n int) {
	base, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	*root = filepath.Join(base, fmt.Sprintf("p%d", n))
	*debug = 0
	defer os.RemoveAll(*root)
	l, err := NewUFS()
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	var cs []*parC
	for i := 0; i < 8; i++ {
		c := &parC{r: rand.New(rand.NewSource(int64(n*100 + i))), i: i, dir: filepath.Join(*root, fmt.Sprintf("c%d", i)), mine: map[string]string{}}
		if err := os.MkdirAll(c.dir, 0755); err != nil {
			panic(err)
		}
		for k := 0; k < 3; k++ {
			f := fmt.Sprintf("f%d", k)
			c.mine[f] = strings.Repeat(string(rune('A'+i)), 50*(k+i))
			if err := ioutil.WriteFile(filepath.Join(c.dir, f), []byte(c.mine[f]), 0644); err != nil {
				panic(err)
			}
		}
		a, b := net.Pipe()
		if err := l.Accept(b); err != nil {
			panic(err)
		}
		c.c = a
		cs = append(cs, c)
	}
	for _, c := range cs {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.steps(300, nvEnd)
			c.c.Close()
		}()
	}
	wg.Wait()
}
