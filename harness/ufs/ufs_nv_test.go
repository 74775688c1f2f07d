package ufs

// Searches the file server for request sequences that break a property: a
// client on an in-memory connection, a scratch tree, and an oracle that keeps
// its own idea of what every fid stands for and looks at the tree directly.
// Run only when the verifier rejects an obligation (to confirm the violation)
// and in the thorough tier; always as an unprivileged user.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"go/scanner"
	"go/token"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

var (
	nvRand *rand.Rand
	nvID   string
	nvEnd  time.Time
	nvInts []uint64
	nvStrs []string
	nvN    int
	nvAll  int
	nvHist []string
)

type nvStop struct{}

func nvInit(id string) {
	nvID = id
	n, _ := strconv.ParseInt(os.Getenv("NV_SEED"), 10, 64)
	nvRand = rand.New(rand.NewSource(n + 1))
	secs, _ := strconv.Atoi(os.Getenv("NV_SECS"))
	if secs == 0 {
		secs = 20
	}
	nvEnd = time.Now().Add(time.Duration(secs) * time.Second)
	syscall.Umask(0)
	log.SetOutput(ioutil.Discard)
	seen := map[uint64]bool{}
	add := func(u uint64) {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			if !seen[u+d] {
				seen[u+d] = true
				nvInts = append(nvInts, u+d)
			}
		}
	}
	for _, u := range []uint64{0, 1, 2, 3, 7, 8, 0x10, 0x40, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 62, 1 << 63} {
		add(u)
	}
	nvStrs = []string{"a", "b", "c", "d", "e", "f1", "f2", "ln", "..", "..", ".", "", "/", "//a", "a/b", "../out/a", "../../x", "/../out", "..//..", "a/..", "./a", "../root",
		"/a", "/a/b", "/b/../a", "a/../../out", "...", "..a", "a..", "new", "/new", "a/new", "../new", "nonexistent", strings.Repeat("n", 255), strings.Repeat("n", 256), "a\\b", "\x00", "h\u00e9", "%2e%2e/out", "..%2fout", "%2e%2e", "a%2fb"}
	ss := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("NV_SRC"), "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := ioutil.ReadFile(f)
		var s scanner.Scanner
		fset := token.NewFileSet()
		s.Init(fset.AddFile(f, -1, len(b)), b, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT:
				if u, err := strconv.ParseUint(lit, 0, 64); err == nil {
					add(u)
				}
			case token.STRING:
				if u, err := strconv.Unquote(lit); err == nil && len(u) < 30 && !strings.Contains(u, "%") {
					ss[u] = true
				}
			}
		}
	}
	for s := range ss {
		nvStrs = append(nvStrs, s)
	}
	sort.Strings(nvStrs)
	if b, err := ioutil.ReadFile(os.Getenv("NV_MODELS")); err == nil {
		for _, m := range regexp.MustCompile(`#x[0-9a-f]+`).FindAllString(string(b), 2000) {
			if len(m) <= 18 {
				if u, err := strconv.ParseUint(m[2:], 16, 64); err == nil {
					add(u)
				}
			}
		}
	}
}

func nvFail(props, f string, a ...interface{}) {
	if !strings.Contains(" "+props+" ", " "+nvID+" ") {
		panic(nvStop{})
	}
	h := nvHist
	if len(h) > 40 {
		h = h[len(h)-40:]
	}
	s := fmt.Sprintf(f, a...) + "; requests: " + strings.Join(h, " | ")
	s = strings.Replace(s, "\n", "\\n", -1)
	if len(s) > 2500 {
		s = s[:300] + " ... " + s[len(s)-2100:]
	}
	fmt.Printf("FAILING %s: %s\n", nvID, s)
	os.Exit(1)
}

// ---- client ----

type nvConn struct {
	c   net.Conn
	tag protocol.Tag
}

func (c *nvConn) rpc(what string, m func(b *bytes.Buffer, t protocol.Tag)) (byte, *bytes.Buffer, string) {
	nvAll++
	c.tag++
	nvHist = append(nvHist, what)
	var b bytes.Buffer
	m(&b, c.tag)
	c.c.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err := c.c.Write(b.Bytes()); err != nil {
		nvFail(nvID, "the connection ends: %v", err)
	}
	var h [4]byte
	if _, err := io.ReadFull(c.c, h[:]); err != nil {
		nvFail(nvID, "no reply: %v", err)
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n < 7 || n > 1<<26 {
		nvFail(nvID, "reply of size %d", n)
	}
	d := make([]byte, n-4)
	if _, err := io.ReadFull(c.c, d); err != nil {
		nvFail(nvID, "short reply: %v", err)
	}
	r := bytes.NewBuffer(d[1:])
	if d[0] == byte(protocol.Rerror) {
		e, _, err := protocol.UnmarshalRerrorPkt(r)
		if err != nil {
			nvFail(nvID, "bad Rerror: %v", err)
		}
		if e == "" {
			e = "error"
		}
		nvHist[len(nvHist)-1] += " = error " + strconv.Quote(e)
		return d[0], r, e
	}
	return d[0], r, ""
}

// ---- the tree ----

type nvEnt struct {
	mode    os.FileMode
	ino     uint64
	size    int64
	mtime   int64
	content string
}

type nvFid struct {
	comps []string
	q     protocol.QID
	open  bool
	mode  int
	h     *os.File // the harness's own handle on the same file
}

type nvRun struct {
	c     *nvConn
	dir   string // scratch directory with root and out
	root  string
	given string // the root as given to the server
	out   map[string]nvEnt
	rootI uint64
	outI  map[uint64]string
	fids  map[protocol.FID]*nvFid
	pool  []protocol.FID

	dropped int // open files of fids that were walked away from
}

// fifo: opening it would block.
func fifo(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.Mode()&os.ModeNamedPipe != 0
}

func snap(dir string) map[string]nvEnt {
	out := map[string]nvEnt{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if fi == nil {
			return nil
		}
		e := nvEnt{mode: fi.Mode(), ino: fi.Sys().(*syscall.Stat_t).Ino, mtime: fi.ModTime().UnixNano()}
		if fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			e.content, e.size = string(b), fi.Size()
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			e.content, _ = os.Readlink(p)
		}
		out[p] = e
		return nil
	})
	return out
}

func diffs(a, b map[string]nvEnt) []string {
	var out []string
	for p, e := range a {
		if b[p] != e {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func ino(p string) uint64 {
	fi, err := os.Lstat(p)
	if err != nil {
		return 0
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

func newRun(n int) *nvRun {
	base, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	r := &nvRun{dir: filepath.Join(base, fmt.Sprintf("t%d", n)), fids: map[protocol.FID]*nvFid{}, outI: map[uint64]string{}}
	r.root = filepath.Join(r.dir, "root")
	for _, d := range []string{"root/a/b/c", "root/a/d", "root/b", "root/e", "out/a", "out/b"} {
		if err := os.MkdirAll(filepath.Join(r.dir, d), 0755); err != nil {
			panic(err)
		}
	}
	w := func(p string, n int) {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('A' + (i*7+len(p))%50)
		}
		if err := ioutil.WriteFile(filepath.Join(r.dir, p), b, 0644); err != nil {
			panic(err)
		}
	}
	w("root/f1", 10)
	w("root/f2", 9000)
	w("root/a/f1", 0)
	w("root/a/b/f2", 300)
	w("root/a/b/c/d", 5)
	w("root/d", 1)
	w("out/f1", 20)
	w("out/a/f1", 20)
	w("out/x", 3)
	w("f1", 7)
	os.Symlink("f1", filepath.Join(r.root, "ln"))
	os.Symlink("b", filepath.Join(r.root, "a/ln"))
	os.Symlink("nowhere", filepath.Join(r.root, "b/ln"))
	old := time.Unix(1000000000+int64(n), 123456789)
	os.Chtimes(filepath.Join(r.root, "f1"), old, old)
	os.Chmod(filepath.Join(r.root, "f2"), 0600)
	old = time.Unix(-100-int64(n), 500000000)
	os.Chtimes(filepath.Join(r.root, "a/b/f2"), old, old)
	syscall.Mkfifo(filepath.Join(r.root, "e"+"/f1"), 0600)
	syscall.Mkfifo(filepath.Join(r.root, "b/f2"), 0644)
	os.Chmod(filepath.Join(r.root, "e"), 0755|os.ModeSticky)
	r.rootI = ino(r.root)
	r.out = r.outside()
	for p := range r.out {
		r.outI[ino(p)] = p
	}
	r.outI[ino(base)] = base
	r.outI[ino("/")] = "/"
	switch nvRand.Intn(6) {
	case 0:
		r.given = fmt.Sprintf("t%d/root", n)
	case 1:
		r.given = r.root + "/"
	case 2:
		r.given = filepath.Dir(r.root) + "/./out//../root"
	default:
		r.given = r.root
	}
	*root = r.given
	*debug = 0
	l, err := NewUFS()
	if err != nil {
		panic(err)
	}
	a, b := net.Pipe()
	if err := l.Accept(b); err != nil {
		panic(err)
	}
	r.c = &nvConn{c: a}
	for i := 0; i < 5; i++ {
		u := uint64(i + 1)
		if nvRand.Intn(3) == 0 {
			u = nvInts[nvRand.Intn(len(nvInts))]
		}
		r.pool = append(r.pool, protocol.FID(u))
	}
	nvHist = []string{"root " + r.given}
	return r
}

// outside: everything in the scratch directory but the exported tree.
func (r *nvRun) outside() map[string]nvEnt {
	o := snap(r.dir)
	for p := range o {
		if p == r.dir {
			e := o[p]
			e.mtime = 0
			o[p] = e
		}
		if p == r.root || strings.HasPrefix(p, r.root+"/") {
			delete(o, p)
		}
	}
	return o
}

func (r *nvRun) end() {
	for _, f := range r.fids {
		if f.h != nil {
			f.h.Close()
		}
	}
	r.c.c.Close()
	filepath.Walk(r.dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			os.Chmod(p, 0700)
		}
		return nil
	})
	os.RemoveAll(r.dir)
}

func (r *nvRun) path(comps []string) string {
	return filepath.Join(append([]string{r.root}, comps...)...)
}

// clean: the components of a name taken relative to the root.
func clean(name string) []string {
	var out []string
	for _, s := range strings.Split(name, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func cat(a, b []string) []string { return append(append([]string{}, a...), b...) }

func qidBad(q protocol.QID, fi os.FileInfo) string {
	st := fi.Sys().(*syscall.Stat_t)
	switch {
	case q.Path != st.Ino:
		return fmt.Sprintf("qid path %#x, inode %#x", q.Path, st.Ino)
	case q.Version != uint32(fi.ModTime().UnixNano()/1000000):
		return fmt.Sprintf("qid version %#x, modification time %v", q.Version, fi.ModTime())
	case (q.Type&0x80 != 0) != fi.IsDir():
		return fmt.Sprintf("qid type %#x, directory %v", q.Type, fi.IsDir())
	case (q.Type&2 != 0) != (fi.Mode()&os.ModeSymlink != 0):
		return fmt.Sprintf("qid type %#x, mode %v", q.Type, fi.Mode())
	case q.Type&0x7d != 0:
		return fmt.Sprintf("qid type %#x, mode %v", q.Type, fi.Mode())
	}
	return ""
}

func entBad(d protocol.Dir, fi os.FileInfo) string {
	if s := qidBad(d.QID, fi); s != "" {
		return s
	}
	m := uint32(fi.Mode() & 0777)
	if fi.IsDir() {
		m |= 0x80000000
	}
	switch {
	case d.Mode != m:
		return fmt.Sprintf("mode %#x, want %#x", d.Mode, m)
	case d.Mtime != uint32(fi.ModTime().Unix()):
		return fmt.Sprintf("mtime %d, want %d", d.Mtime, fi.ModTime().Unix())
	case d.Length != uint64(fi.Size()):
		return fmt.Sprintf("length %d, want %d", d.Length, fi.Size())
	case d.Name != fi.Name():
		return fmt.Sprintf("name %q, want %q", d.Name, fi.Name())
	}
	return ""
}

// parseDir: an independent decoder; what is left of b.
func parseDir(b []byte) (d protocol.Dir, rest []byte, ok bool) {
	if len(b) < 2 {
		return d, nil, false
	}
	n := int(binary.LittleEndian.Uint16(b))
	if len(b) < 2+n || n < 47 {
		return d, nil, false
	}
	e, rest := b[2:2+n], b[2+n:]
	d.Type = binary.LittleEndian.Uint16(e)
	d.Dev = binary.LittleEndian.Uint32(e[2:])
	d.QID = protocol.QID{Type: e[6], Version: binary.LittleEndian.Uint32(e[7:]), Path: binary.LittleEndian.Uint64(e[11:])}
	d.Mode = binary.LittleEndian.Uint32(e[19:])
	d.Atime = binary.LittleEndian.Uint32(e[23:])
	d.Mtime = binary.LittleEndian.Uint32(e[27:])
	d.Length = binary.LittleEndian.Uint64(e[31:])
	e = e[39:]
	for _, s := range []*string{&d.Name, &d.User, &d.Group, &d.ModUser} {
		if len(e) < 2 {
			return d, nil, false
		}
		k := int(binary.LittleEndian.Uint16(e))
		if len(e) < 2+k {
			return d, nil, false
		}
		*s = string(e[2 : 2+k])
		e = e[2+k:]
	}
	return d, rest, len(e) == 0
}

func str() string { return nvStrs[nvRand.Intn(len(nvStrs))] }
func num() uint64 { return nvInts[nvRand.Intn(len(nvInts))] }
func rel(ss []string) bool {
	return strings.Contains(strings.Join(ss, "/"), "..") || strings.HasPrefix(strings.Join(ss, "/"), "/")
}

func (r *nvRun) anyFid() protocol.FID { return r.pool[nvRand.Intn(len(r.pool))] }
func (r *nvRun) usedFid() protocol.FID {
	if nvRand.Intn(12) == 0 || len(r.fids) == 0 {
		return r.anyFid()
	}
	var fs []int
	for f := range r.fids {
		fs = append(fs, int(f))
	}
	sort.Ints(fs)
	return protocol.FID(fs[nvRand.Intn(len(fs))])
}

func withNames(props string, ss ...string) string {
	if rel(ss) {
		return props + " C15"
	}
	return props
}

// ---- operations ----

func (r *nvRun) stat(fid protocol.FID) ([]byte, string) {
	_, b, e := r.c.rpc(fmt.Sprintf("stat %d", fid), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTstatPkt(b, t, fid) })
	if e != "" {
		return nil, e
	}
	d, _, err := protocol.UnmarshalRstatPkt(b)
	if err != nil {
		nvFail("C21", "bad Rstat: %v", err)
	}
	return d, ""
}

func (r *nvRun) read(fid protocol.FID, off uint64, n uint32) ([]byte, string) {
	_, b, e := r.c.rpc(fmt.Sprintf("read %d offset %d count %d", fid, off, int32(n)), func(b *bytes.Buffer, t protocol.Tag) {
		protocol.MarshalTreadPkt(b, t, fid, protocol.Offset(off), protocol.Count(n))
	})
	if e != "" {
		return nil, e
	}
	d, _, err := protocol.UnmarshalRreadPkt(b)
	if err != nil {
		nvFail("C18", "bad Rread: %v", err)
	}
	return d, ""
}

func (r *nvRun) write(fid protocol.FID, off uint64, d []byte) (int32, string) {
	_, b, e := r.c.rpc(fmt.Sprintf("write %d offset %d %d bytes", fid, off, len(d)), func(b *bytes.Buffer, t protocol.Tag) {
		protocol.MarshalTwritePkt(b, t, fid, protocol.Offset(off), d)
	})
	if e != "" {
		return 0, e
	}
	n, _, err := protocol.UnmarshalRwritePkt(b)
	if err != nil {
		nvFail("C18", "bad Rwrite: %v", err)
	}
	return int32(n), ""
}

// check: everything but what the last operation was about is as it should be.
// subj are the fids the operation was about.
func (r *nvRun) check(prop string, subj ...protocol.FID) {
	if r.rootI != ino(r.root) {
		nvFail("C15", "the exported root has been moved or replaced")
	}
	if d := diffs(r.out, r.outside()); len(d) > 0 {
		nvFail("C15", "outside the exported root %v changed", d)
	}
	if nvRand.Intn(3) > 0 {
		return
	}
	nh := len(nvHist)
	for _, fid := range r.pool {
		props := "C16"
		for _, s := range subj {
			if s == fid {
				props = "C16 " + prop
			}
		}
		f := r.fids[fid]
		d, e := r.stat(fid)
		if f == nil {
			if e == "" {
				nvFail(props, "fid %d is in use", fid)
			}
			continue
		}
		fi, err := os.Lstat(r.path(f.comps))
		if (err == nil) != (e == "") {
			if e == "" {
				if dd, _, ok := parseDir(d); ok {
					if p, out := r.outI[dd.QID.Path]; out {
						nvFail("C15", "fid %d stands for %s", fid, p)
					}
				}
			}
			nvFail(props+" C21", "stat of fid %d, which stands for %s: %q, looking at it: %v", fid, r.path(f.comps), e, err)
		}
		if err != nil {
			continue
		}
		dd, rest, ok := parseDir(d)
		if !ok || len(rest) > 0 {
			nvFail("C21", "stat of fid %d returns %x", fid, d)
		}
		if p, out := r.outI[dd.QID.Path]; out {
			nvFail("C15", "fid %d stands for %s", fid, p)
		}
		if dd.QID.Path != ino(r.path(f.comps)) {
			nvFail(props+" C21", "fid %d does not stand for %s any more", fid, r.path(f.comps))
		}
		if s := entBad(dd, fi); s != "" {
			nvFail("C21", "stat of fid %d, %s: %s", fid, r.path(f.comps), s)
		}
		if !f.open && nvRand.Intn(3) == 0 {
			if _, e := r.read(fid, 0, 1); e == "" {
				nvFail(props+" C18", "fid %d is open", fid)
			}
			if _, e := r.write(fid, 0, nil); e == "" {
				nvFail(props+" C18", "fid %d is open", fid)
			}
		}
		if f.open && f.h != nil && f.mode&3 != 1 {
			if hi, err := f.h.Stat(); err == nil && hi.Mode().IsRegular() {
				want := make([]byte, 40)
				n, _ := f.h.ReadAt(want, 2)
				got, e := r.read(fid, 2, 40)
				if e != "" || !bytes.Equal(got, want[:n]) {
					nvFail(props+" C18", "the open file of fid %d is not what it was: read %q %s, want %q", fid, got, e, want[:n])
				}
			}
		}
	}
	want := 0
	for _, f := range r.fids {
		if f.open {
			want++
		}
		if f.h != nil {
			want++
		}
	}
	if got := handles(r.root); got >= 0 && (got < want || got > want+r.dropped) {
		nvFail("C16 "+prop, "%d files of the tree are open, want %d", got, want)
	}
	nvHist = nvHist[:nh]
}

func handles(root string) int {
	es, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range es {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (s == root || strings.HasPrefix(s, root+"/") || strings.HasPrefix(s, root+" (deleted)")) {
			n++
		}
	}
	return n
}

func (r *nvRun) attach() {
	fid, aname, afid := r.anyFid(), str(), protocol.NOFID
	if nvRand.Intn(3) > 0 {
		aname = "/"
	}
	if nvRand.Intn(15) == 0 {
		afid = protocol.FID(num())
	}
	_, b, e := r.c.rpc(fmt.Sprintf("attach %d afid %d %q", fid, afid, aname), func(b *bytes.Buffer, t protocol.Tag) {
		protocol.MarshalTattachPkt(b, t, fid, afid, "user", aname)
	})
	comps := clean(aname)
	fi, err := os.Stat(r.path(comps))
	used := r.fids[fid] != nil
	if e == "" {
		q, _, _ := protocol.UnmarshalRattachPkt(b)
		if p, out := r.outI[q.Path]; out {
			nvFail("C15 C17", "attach of %q reaches %s", aname, p)
		}
		if used {
			nvFail("C16", "attach takes over fid %d", fid)
		}
		if err != nil || afid != protocol.NOFID {
			nvFail(withNames("C17", aname), "attach of %q succeeds", aname)
		}
		if s := qidBad(q, fi); s != "" {
			nvFail(withNames("C17 C21", aname), "attach of %q: %s", aname, s)
		}
		r.fids[fid] = &nvFid{comps: comps, q: q}
	} else if !used && err == nil && afid == protocol.NOFID {
		nvFail("C17", "attach of %q fails: %s", aname, e)
	}
	r.check("C17", fid)
}

func (r *nvRun) walk() {
	fid, newfid := r.usedFid(), r.anyFid()
	f := r.fids[fid]
	if f != nil && f.open && fid == newfid && nvRand.Intn(4) > 0 {
		return
	}
	var names []string
	for i, k := 0, nvRand.Intn(5); i < k; i++ {
		names = append(names, str())
	}
	if nvRand.Intn(8) == 0 {
		for i := 0; i < 20; i++ {
			names = append(names, []string{"a", "b", "..", "..", "a"}[nvRand.Intn(5)])
		}
	}
	if nvRand.Intn(20) == 0 {
		for i := 0; i < 40; i++ {
			names = append(names, "..")
		}
		names = append(names, str())
	}
	_, b, e := r.c.rpc(fmt.Sprintf("walk %d %d %q", fid, newfid, names), func(b *bytes.Buffer, t protocol.Tag) {
		protocol.MarshalTwalkPkt(b, t, fid, newfid, names)
	})
	used := r.fids[newfid] != nil && (newfid != fid || len(names) == 0)
	if f == nil {
		if e == "" {
			nvFail("C16", "walk of unused fid %d succeeds", fid)
		}
		r.check("C17", fid, newfid)
		return
	}
	comps := cat(nil, f.comps)
	var fis []os.FileInfo
	for _, n := range names {
		if n == ".." {
			if len(comps) > 0 {
				comps = comps[:len(comps)-1]
			}
		} else {
			comps = cat(comps, clean(n))
		}
		fi, err := os.Lstat(r.path(comps))
		if err != nil {
			break
		}
		fis = append(fis, fi)
	}
	wantErr := len(fis) == 0 && len(names) > 0 || len(fis) == len(names) && used
	props := withNames("C17", names...)
	if wantErr != (e != "") {
		if used && len(fis) == len(names) {
			props = "C16"
		}
		nvFail(props, "walk %d %d %q: %q, %d elements can be reached", fid, newfid, names, e, len(fis))
	}
	if e == "" {
		qs, _, _ := protocol.UnmarshalRwalkPkt(b)
		for _, q := range qs {
			if p, out := r.outI[q.Path]; out {
				nvFail("C15 C17", "walk %q reaches %s", names, p)
			}
		}
		if len(qs) != len(fis) {
			nvFail(props, "walk %d %d %q returns %d qids, %d elements can be reached", fid, newfid, names, len(qs), len(fis))
		}
		for i, q := range qs {
			if s := qidBad(q, fis[i]); s != "" {
				nvFail(props+" C21", "walk %d %d %q, element %d: %s", fid, newfid, names, i, s)
			}
		}
		if len(fis) == len(names) {
			q := f.q
			if len(qs) > 0 {
				q = qs[len(qs)-1]
			}
			if o := r.fids[newfid]; o != nil && o.open {
				r.dropped++
				if o.h != nil {
					o.h.Close()
				}
			}
			r.fids[newfid] = &nvFid{comps: comps, q: q}
		}
	}
	r.check("C17", fid, newfid)
}

func (r *nvRun) traversable(comps []string) bool {
	for i := 0; i <= len(comps); i++ {
		fi, err := os.Lstat(r.path(comps[:i]))
		if err != nil || !fi.IsDir() || fi.Mode()&0700 != 0700 {
			return false
		}
	}
	return true
}

func (r *nvRun) open() {
	fid := r.usedFid()
	f := r.fids[fid]
	mode := protocol.Mode([]int{0, 0, 1, 2, 2, 3, 0x10, 0x11, 0x12}[nvRand.Intn(9)])
	if nvRand.Intn(8) == 0 {
		mode = protocol.Mode(num())
	}
	if f != nil && fifo(r.path(f.comps)) {
		return
	}
	before := snap(r.root)
	var trial error
	var p string
	var fi os.FileInfo
	if f != nil {
		p = r.path(f.comps)
		fi, _ = os.Stat(p)
		h, err := os.OpenFile(p, map[int]int{0: os.O_RDONLY, 1: os.O_WRONLY, 2: os.O_RDWR, 3: os.O_RDONLY}[int(mode)&3], 0)
		trial = err
		if err == nil {
			h.Close()
		}
	}
	_, b, e := r.c.rpc(fmt.Sprintf("open %d mode %#x", fid, mode), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTopenPkt(b, t, fid, mode) })
	after := snap(r.root)
	if f == nil || f.open {
		if e == "" {
			nvFail("C16 C20", "open of fid %d, which is not in use or open, succeeds", fid)
		}
		if d := diffs(before, after); len(d) > 0 {
			nvFail("C16 C20", "a refused open changes %v", d)
		}
		r.check("C20", fid)
		return
	}
	trunc := mode&0x10 != 0
	if trial != nil && e == "" {
		nvFail("C20", "open of %s mode %#x succeeds: %v", p, mode, trial)
	}
	if trial == nil && e != "" && !(trunc && (fi == nil || fi.IsDir() || fi.Mode()&0200 == 0)) {
		nvFail("C20", "open of %s mode %#x fails: %s", p, mode, e)
	}
	if e == "" {
		q, _, _, err := protocol.UnmarshalRopenPkt(b)
		if err != nil || q.Path != f.q.Path || q.Type != f.q.Type || q.Version != f.q.Version {
			nvFail("C20", "open of fid %d returns qid %v, want %v", fid, q, f.q)
		}
		f.open, f.mode = true, int(mode)
		f.h, _ = os.Open(p)
	}
	tp, _ := filepath.EvalSymlinks(p)
	for _, d := range diffs(before, after) {
		if e == "" && trunc && d == tp && after[d].size == 0 && after[d].mode == before[d].mode && after[d].ino == before[d].ino {
			continue
		}
		nvFail("C20", "open of %s mode %#x changes %s: %v, before %v", p, mode, d, after[d], before[d])
	}
	if e == "" && trunc && fi != nil && fi.Mode().IsRegular() && after[tp].size != 0 {
		nvFail("C20", "open of %s mode %#x does not truncate it", p, mode)
	}
	if e == "" && fi != nil && fi.Mode().IsRegular() {
		_, e := r.read(fid, 0, 1)
		if (e == "") != (mode&3 != 1) {
			nvFail("C20", "after open of %s mode %#x, read: %q", p, mode, e)
		}
		if c := after[tp].content; c != "" {
			_, e := r.write(fid, 0, []byte(c[:1]))
			if (e == "") != (mode&3 == 1 || mode&3 == 2) {
				nvFail("C20", "after open of %s mode %#x, write: %q", p, mode, e)
			}
		}
	}
	if e == "" && fi != nil && fi.IsDir() {
		r.readdir(fid)
	}
	r.check("C20", fid)
}

func (r *nvRun) create() {
	fid, name := r.usedFid(), str()
	if nvRand.Intn(2) == 0 {
		name = fmt.Sprintf("n%d", nvRand.Intn(30))
	}
	perm := protocol.Perm([]uint32{0644, 0755, 0600, 0777, 0xffffffff >> 1, 0, 0400, 0x80000000 | 0755, 0x80000000 | 0700, 0x80000000 | 0777}[nvRand.Intn(10)])
	if nvRand.Intn(6) == 0 {
		perm = protocol.Perm(num())
	}
	if perm |= 0600; perm&0x80000000 != 0 {
		perm |= 0700 // what cannot be read or searched cannot be compared
	}
	mode := protocol.Mode([]int{0, 1, 2, 3, 0x10, 0x11}[nvRand.Intn(6)])
	f := r.fids[fid]
	if f != nil && (name != "" && len(f.comps) > 12 || fifo(r.path(cat(f.comps, clean(name))))) {
		return
	}
	before := snap(r.root)
	_, b, e := r.c.rpc(fmt.Sprintf("create %d %q perm %#x mode %#x", fid, name, uint32(perm), mode), func(b *bytes.Buffer, t protocol.Tag) {
		protocol.MarshalTcreatePkt(b, t, fid, name, perm, mode)
	})
	after := snap(r.root)
	ds := diffs(before, after)
	if f == nil || f.open {
		if e == "" || len(ds) > 0 {
			nvFail("C16 C20", "create in fid %d, which is not in use or open, succeeds", fid)
		}
		r.check("C20", fid)
		return
	}
	comps := cat(f.comps, clean(name))
	p := r.path(comps)
	dir := perm&0x80000000 != 0
	rp, _ := filepath.EvalSymlinks(p)
	if e != "" {
		if len(comps) > len(f.comps) && r.traversable(comps[:len(comps)-1]) && before[p].ino == 0 && !strings.Contains(name, "\x00") && len(comps[len(comps)-1]) < 256 {
			nvFail(withNames("C20", name), "create of %s perm %#x fails: %s", p, uint32(perm), e)
		}
		if len(ds) > 0 {
			nvFail("C20", "a failed create of %s changes %v", p, ds)
		}
		r.check("C20", fid)
		return
	}
	if len(comps) == len(f.comps) {
		nvFail(withNames("C20", name), "create of %q succeeds", name)
	}
	fi, err := os.Lstat(p)
	if err != nil {
		nvFail(withNames("C20", name), "create of %s succeeds, but: %v; changed: %v", p, err, ds)
	}
	q, _, _, uerr := protocol.UnmarshalRcreatePkt(b)
	if uerr != nil {
		nvFail("C20", "bad Rcreate")
	}
	if s := qidBad(q, fi); s != "" {
		nvFail("C20 C21", "create of %s: %s", p, s)
	}
	if before[p].ino == 0 {
		if fi.IsDir() != dir || fi.Mode()&0777 != os.FileMode(perm)&0777 || !dir && (fi.Size() != 0 || !fi.Mode().IsRegular()) {
			nvFail("C20", "create perm %#x makes %v of length %d", uint32(perm), fi.Mode(), fi.Size())
		}
	} else if dir {
		nvFail("C20", "create of the directory %s, which exists, succeeds", p)
	} else if s, err := os.Stat(p); err == nil && s.Size() != 0 {
		nvFail("C20", "create of %s leaves data in it", p)
	}
	for _, d := range ds {
		if d != p && d != rp && d != filepath.Dir(p) && d != filepath.Dir(rp) {
			nvFail(withNames("C20", name), "create of %s changes %s", p, d)
		}
	}
	nf := &nvFid{comps: comps, q: q}
	r.fids[fid] = nf
	if !dir {
		nf.open, nf.mode = true, int(mode)
		nf.h, _ = os.Open(p)
		d := []byte("created")
		n, e := r.write(fid, 0, d)
		if (e == "" && n == 7) != (mode&3 == 1 || mode&3 == 2) {
			nvFail("C20", "after create of %s mode %#x, write: %d %q", p, mode, n, e)
		}
		g, e := r.read(fid, 0, 1)
		if (e == "") != (mode&3 != 1) {
			nvFail("C20", "after create of %s mode %#x, read: %q %q", p, mode, g, e)
		}
	}
	r.check("C20", fid)
}

func (r *nvRun) free(remove bool) {
	fid := r.usedFid()
	f := r.fids[fid]
	if f != nil && remove && len(f.comps) == 0 {
		return
	}
	before := snap(r.root)
	through := false // a symbolic link
	var rp string
	if f != nil && len(f.comps) > 0 {
		d := filepath.Dir(r.path(f.comps))
		rd, err := filepath.EvalSymlinks(d)
		through = err != nil || rd != d
		rp = filepath.Join(rd, f.comps[len(f.comps)-1])
	}
	var e, op string
	if remove {
		op = "remove"
		_, _, e = r.c.rpc(fmt.Sprintf("remove %d", fid), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTremovePkt(b, t, fid) })
	} else {
		op = "clunk"
		_, _, e = r.c.rpc(fmt.Sprintf("clunk %d", fid), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTclunkPkt(b, t, fid) })
	}
	after := snap(r.root)
	ds := diffs(before, after)
	if f == nil {
		if e == "" || len(ds) > 0 {
			nvFail("C16", "%s of unused fid %d: %q, changes %v", op, fid, e, ds)
		}
		r.check("C16", fid)
		return
	}
	delete(r.fids, fid)
	if f.h != nil {
		f.h.Close()
	}
	p := r.path(f.comps)
	if !remove {
		if e != "" || len(ds) > 0 {
			nvFail("C16", "clunk of fid %d: %q, changes %v", fid, e, ds)
		}
	} else {
		if through {
			p = rp
		}
		fi, ok := before[p]
		empty := true
		for q := range before {
			if strings.HasPrefix(q, p+"/") {
				empty = false
			}
		}
		can := ok && r.traversable(f.comps[:len(f.comps)-1]) && (!fi.mode.IsDir() || empty)
		if can != (e == "") && !through {
			nvFail("C20", "remove of %s: %q", p, e)
		}
		for _, d := range ds {
			if e != "" || d != p && d != filepath.Dir(p) {
				nvFail("C20", "remove of %s (%q) changes %s", p, e, d)
			}
		}
		if _, err := os.Lstat(p); e == "" && err == nil {
			nvFail("C20", "%s is still there", p)
		}
	}
	r.check("C20", fid)
}

func (r *nvRun) rdwr() {
	fid := r.usedFid()
	f := r.fids[fid]
	offs := []uint64{0, 0, 1, 2, 5, 9, 10, 11, 299, 300, 301, 4096, 8191, 8192, 8999, 9000, 9001, 1 << 31, 1 << 32, 1<<32 + 3, 1 << 40, 1<<63 - 1, 1 << 63, ^uint64(0), num()}
	off := offs[nvRand.Intn(len(offs))]
	if nvRand.Intn(2) == 0 {
		cs := []uint32{0, 1, 2, 3, 9, 10, 11, 100, 300, 301, 1000, 4095, 4096, 8191, 8192, 8193, 9000, 10000, 65535, 65536, 100000, 0xffffffff, 0x80000000, 0xffff0000}
		n := cs[nvRand.Intn(len(cs))]
		if u := num(); nvRand.Intn(4) == 0 && u < 1<<20 {
			n = uint32(u)
		}
		if f != nil && f.open && r.isdir(f) {
			if n >= 1000 && n < 1<<31 {
				r.readdir(fid)
			}
			return
		}
		got, e := r.read(fid, off, n)
		if f == nil || !f.open {
			if e == "" {
				nvFail("C16 C18", "read of fid %d, which is not open, succeeds", fid)
			}
			return
		}
		if f.mode&3 == 1 || f.h == nil {
			return
		}
		if int32(n) < 0 || off >= 1<<63 {
			if e == "" {
				nvFail("C18", "read offset %d count %d succeeds", off, int32(n))
			}
			return
		}
		want := make([]byte, n)
		k, err := f.h.ReadAt(want, int64(off))
		if err == io.EOF {
			err = nil
		}
		if (err == nil) != (e == "") {
			nvFail("C18", "read offset %d count %d: %q, want %v", off, n, e, err)
		}
		if e == "" && !bytes.Equal(got, want[:k]) {
			nvFail("C18", "read of %s offset %d count %d returns %d bytes %.60q, want %d bytes %.60q", r.path(f.comps), off, n, len(got), got, k, want[:k])
		}
		return
	}
	if off > 1<<20 && off < 1<<62 {
		off = 1<<16 + off&0xff
	}
	d := make([]byte, []int{0, 1, 2, 5, 10, 300, 4096, 8192, 9000, 70000}[nvRand.Intn(10)])
	for i := range d {
		d[i] = byte(nvRand.Intn(256))
	}
	before := snap(r.root)
	n, e := r.write(fid, off, d)
	after := snap(r.root)
	ds := diffs(before, after)
	if f == nil || !f.open {
		if e == "" || len(ds) > 0 {
			nvFail("C16 C18", "write to fid %d, which is not open: %q, changes %v", fid, e, ds)
		}
		return
	}
	if f.mode&3 != 1 && f.mode&3 != 2 || off >= 1<<62 {
		if e == "" && (len(d) > 0 || off >= 1<<63) || len(ds) > 0 {
			nvFail("C18 C20", "write offset %d to fid %d opened with mode %#x: %q", off, fid, f.mode, e)
		}
		return
	}
	if e != "" || int(n) != len(d) {
		nvFail("C18", "write offset %d of %d bytes: %d %q", off, len(d), n, e)
	}
	var oi uint64
	if f.h != nil {
		if hi, err := f.h.Stat(); err == nil {
			oi = hi.Sys().(*syscall.Stat_t).Ino
		}
	}
	for _, p := range ds {
		if oi != 0 && after[p].ino != oi {
			nvFail("C18", "write to fid %d changes %s", fid, p)
		}
		b := []byte(before[p].content)
		if len(d) > 0 {
			if n := int(off) + len(d); n > len(b) {
				b = append(b, make([]byte, n-len(b))...)
			}
			copy(b[off:], d)
		}
		if string(b) != after[p].content {
			nvFail("C18", "write to %s offset %d of %d bytes: wrong content of %d bytes, want %d", p, off, len(d), len(after[p].content), len(b))
		}
	}
	if f.h != nil && len(d) > 0 {
		g := make([]byte, len(d))
		if k, _ := f.h.ReadAt(g, int64(off)); k != len(d) || !bytes.Equal(g, d) {
			nvFail("C18", "write to fid %d offset %d of %d bytes: not in the file", fid, off, len(d))
		}
	}
	r.check("C18", fid)
}

func (r *nvRun) isdir(f *nvFid) bool { return f.q.Type&0x80 != 0 }

// readdir reads an open directory that nobody changes meanwhile.
func (r *nvRun) readdir(fid protocol.FID) {
	f := r.fids[fid]
	p := r.path(f.comps)
	if f.h == nil || f.mode&3 == 1 {
		return
	}
	hi, err := f.h.Stat()
	fi, err2 := os.Lstat(p)
	if err != nil || err2 != nil || !os.SameFile(hi, fi) || fi.Mode()&0500 != 0500 {
		return
	}
	want := map[string]bool{}
	es, err := ioutil.ReadDir(p)
	if err != nil {
		return
	}
	for _, e := range es {
		want[e.Name()] = true
	}
	for rounds := 0; rounds < 1+nvRand.Intn(3); rounds++ {
		got := map[string]bool{}
		off := uint64(0)
		full := nvRand.Intn(3) > 0
		for i := 0; i < 200; i++ {
			n := uint32(8192)
			if nvRand.Intn(3) == 0 {
				n = uint32([]int{0, 1, 10, 40, 49, 60, 62, 63, 64, 65, 66, 70, 100, 330, -1, -1 << 31}[nvRand.Intn(16)])
			}
			d, e := r.read(fid, off, n)
			if e != "" {
				if int32(n) >= 0 && n > 330 {
					nvFail("C18", "read of directory %s offset %d count %d fails: %s", p, off, n, e)
				}
				if int32(n) >= 0 && len(got) == len(want) {
					nvFail("C18", "read at the end of directory %s count %d fails: %s", p, n, e)
				}
				if int32(n) >= 0 && off == 0 && i > 0 {
					got = map[string]bool{}
				}
				if !full && nvRand.Intn(2) == 0 {
					break
				}
				continue
			}
			if len(d) > int(int32(n)) {
				nvFail("C18", "read of directory %s count %d returns %d bytes", p, int32(n), len(d))
			}
			if off == 0 {
				got = map[string]bool{}
			}
			if len(d) == 0 {
				if len(got) != len(want) {
					nvFail("C18", "reading directory %s gives %v, want %v", p, keys(got), keys(want))
				}
				break
			}
			for len(d) > 0 {
				dd, rest, ok := parseDir(d)
				if !ok {
					nvFail("C18", "reading directory %s gives part of an entry: %x", p, d)
				}
				if got[dd.Name] || !want[dd.Name] {
					nvFail("C18", "reading directory %s gives entry %q, so far %v, want %v", p, dd.Name, keys(got), keys(want))
				}
				if fi, err := os.Lstat(filepath.Join(p, dd.Name)); err == nil {
					if s := entBad(dd, fi); s != "" {
						nvFail("C18 C21", "entry of %s: %s", filepath.Join(p, dd.Name), s)
					}
				}
				got[dd.Name] = true
				off += uint64(len(d) - len(rest))
				d = rest
			}
			if !full && nvRand.Intn(4) == 0 {
				break
			}
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func times(p string) (int64, int64) {
	var st syscall.Stat_t
	if syscall.Stat(p, &st) != nil {
		return 0, 0
	}
	return st.Atim.Nano(), st.Mtim.Nano()
}

func (r *nvRun) wstat() {
	fid := r.usedFid()
	f := r.fids[fid]
	d := protocol.Dir{Type: 0xffff, Dev: 0xffffffff, QID: protocol.QID{Type: 0xff, Version: 0xffffffff, Path: ^uint64(0)}, Mode: 0xffffffff, Atime: 0xffffffff, Mtime: 0xffffffff, Length: ^uint64(0)}
	if nvRand.Intn(2) == 0 {
		d.Mode = []uint32{0644, 0600, 0755, 0700, 0x80000000 | 0755, 0777, 0xfffffff0, 0xfff}[nvRand.Intn(8)]
	}
	if d.Mode != 0xffffffff {
		if d.Mode |= 0600; f != nil && f.q.Type != 0 {
			d.Mode |= 0700
		}
	}
	if nvRand.Intn(3) == 0 {
		d.Name = str()
		if nvRand.Intn(2) == 0 {
			d.Name = fmt.Sprintf("m%d", nvRand.Intn(20))
		}
	}
	if nvRand.Intn(4) == 0 {
		d.Length = []uint64{0, 1, 5, 9000, 70000, 1 << 63, 1<<63 + 1}[nvRand.Intn(7)]
	}
	ts := []uint32{0, 1, 1000000000, 0x7fffffff, 0x80000000, 0xfffffffe}
	if nvRand.Intn(3) == 0 {
		d.Atime = ts[nvRand.Intn(len(ts))]
	}
	if nvRand.Intn(3) == 0 {
		d.Mtime = ts[nvRand.Intn(len(ts))]
	}
	if nvRand.Intn(12) == 0 {
		d.User = "someone"
	}
	if nvRand.Intn(12) == 0 {
		d.Group = "some"
	}
	if nvRand.Intn(6) == 0 {
		d.ModUser, d.Type, d.Dev = "x", 1, 2
	}
	var w bytes.Buffer
	protocol.Marshaldir(&w, d)
	raw := w.Bytes()
	malformed := nvRand.Intn(12) == 0
	if malformed {
		raw = raw[:nvRand.Intn(len(raw))]
	}
	var p string
	if f != nil {
		p = r.path(f.comps)
	}
	before := snap(r.root)
	fi, serr := os.Lstat(p)
	tp, _ := filepath.EvalSymlinks(p)
	at0, mt0 := times(p)
	_, _, e := r.c.rpc(fmt.Sprintf("wstat %d mode %#x name %q length %d atime %d mtime %d user %q group %q malformed %v", fid, d.Mode, d.Name, int64(d.Length), d.Atime, d.Mtime, d.User, d.Group, malformed),
		func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTwstatPkt(b, t, fid, raw) })
	if f == nil || malformed || d.User != "" || d.Group != "" {
		a, m := times(p)
		if ds := diffs(before, snap(r.root)); e == "" || len(ds) > 0 || f != nil && (a != at0 || m != mt0) {
			props := "C19"
			if f == nil {
				props = "C16"
			}
			nvFail(props, "a wstat to be refused: %q, changes %v", e, ds)
		}
		r.check("C19", fid)
		return
	}
	comps := f.comps
	if d.Name != "" {
		if strings.HasPrefix(d.Name, "/") {
			comps = clean(d.Name)
		} else if len(f.comps) > 0 {
			comps = cat(f.comps[:len(f.comps)-1], clean(d.Name))
		}
	}
	np := r.path(comps)
	at1, mt1 := times(np)
	after := snap(r.root)
	ds := diffs(before, after)
	nothing := d.Mode == ^uint32(0) && d.Name == "" && d.Length == ^uint64(0) && d.Atime == ^uint32(0) && d.Mtime == ^uint32(0)
	props := withNames("C19", d.Name)
	tgt, texists := os.Stat(np)
	_ = tgt
	if d.Name != "" {
		if b, ok := before[np]; ok && b.mode.IsDir() {
			if after[np].ino != b.ino {
				nvFail(props, "renaming %s to %s replaces a directory", p, np)
			}
			if e == "" {
				nvFail(props, "renaming %s to the directory %s succeeds", p, np)
			}
		}
	}
	if e == "" {
		if d.Name != "" {
			f.comps = comps
			if len(f.comps) == 0 {
				nvFail("C15 C19", "rename to the root succeeds")
			}
			if after[np].ino != before[p].ino {
				nvFail(props, "%s is not renamed to %s", p, np)
			}
			if _, ok := after[p]; ok && p != np && before[p].ino != before[np].ino {
				nvFail(props, "%s is still there after renaming it", p)
			}
		}
		if nothing {
			if len(ds) > 0 || at1 != at0 || mt1 != mt0 {
				nvFail("C19", "a wstat of nothing changes %v", ds)
			}
			r.check("C19", fid)
			return
		}
		if serr == nil && fi.Mode()&os.ModeSymlink == 0 && texists == nil {
			now, err := os.Stat(np)
			if err != nil {
				r.check("C19", fid)
				return
			}
			if d.Mode != ^uint32(0) && now.Mode()&0777 != os.FileMode(d.Mode&0777) {
				nvFail("C19", "wstat mode %#x gives %v", d.Mode, now.Mode())
			}
			if d.Mode == ^uint32(0) && now.Mode() != fi.Mode() {
				nvFail("C19", "wstat changes mode %v to %v", fi.Mode(), now.Mode())
			}
			if d.Length != ^uint64(0) && uint64(now.Size()) != d.Length {
				nvFail("C19", "wstat length %d gives %d", d.Length, now.Size())
			}
			if d.Length == ^uint64(0) && fi.Mode().IsRegular() && after[np].content != before[p].content {
				nvFail("C19", "wstat changes the content")
			}
			if d.Length != ^uint64(0) && !strings.HasPrefix(before[p].content, after[np].content) && !strings.HasPrefix(after[np].content, before[p].content) {
				nvFail("C19", "wstat of the length changes the content")
			}
			if d.Mtime != ^uint32(0) && mt1 != int64(d.Mtime)*1e9 {
				nvFail("C19", "wstat mtime %d gives %d ns", d.Mtime, mt1)
			}
			if d.Mtime == ^uint32(0) && d.Length == ^uint64(0) && mt1 != mt0 {
				nvFail("C19", "wstat changes the modification time from %d to %d ns", mt0, mt1)
			}
			if d.Atime != ^uint32(0) && at1 != int64(d.Atime)*1e9 {
				nvFail("C19", "wstat atime %d gives %d ns", d.Atime, at1)
			}
			if d.Atime == ^uint32(0) && at1 != at0 {
				nvFail("C19", "wstat changes the access time from %d to %d ns", at0, at1)
			}
		}
		link := func(p string) bool { d, err := filepath.EvalSymlinks(p); return err != nil || d != p }
		for _, x := range ds {
			if link(filepath.Dir(p)) || link(filepath.Dir(np)) {
				break
			}
			if x == p || x == np || x == tp || x == filepath.Dir(p) || x == filepath.Dir(np) || strings.HasPrefix(x, p+"/") || strings.HasPrefix(x, np+"/") {
				continue
			}
			if y, err := filepath.EvalSymlinks(np); err == nil && x == y {
				continue
			}
			nvFail(props, "wstat of %s changes %s", p, x)
		}
	} else {
		if _, ok := after[np]; ok && d.Name != "" && before[p].ino != 0 && after[np].ino == before[p].ino && before[np].ino != before[p].ino {
			f.comps = comps // renamed, then something failed
		}
		// is there a reason to fail?
		reason := serr != nil || fi.Mode()&os.ModeSymlink != 0 || d.Length>>63 != 0 && d.Length != ^uint64(0) || d.Length != ^uint64(0) && (!fi.Mode().IsRegular() || fi.Mode()&0200 == 0) ||
			!r.parentOK(f.comps)
		if d.Mode != ^uint32(0) && d.Mode&0200 == 0 {
			reason = true
		}
		if d.Name != "" {
			if len(f.comps) == 0 || len(comps) == 0 || before[np].ino != 0 && before[np].mode&(os.ModeDir|os.ModeSymlink) != 0 || !r.traversable(comps[:len(comps)-1]) || fi != nil && fi.IsDir() || strings.Contains(d.Name, "\x00") || len(comps) > 0 && len(comps[len(comps)-1]) > 255 {
				reason = true
			}
		}
		if !reason {
			nvFail(props, "wstat of %s fails: %s", p, e)
		}
	}
	r.check("C19", fid)
}

func (r *nvRun) parentOK(comps []string) bool {
	return len(comps) == 0 || r.traversable(comps[:len(comps)-1])
}

func (r *nvRun) version() {
	v := "9P2000"
	if nvRand.Intn(2) == 0 {
		v = []string{"9P2000.u", "9P2000.L", "", "9P", "9P200", "9p2000", "9P20000", "unknown", " 9P2000"}[nvRand.Intn(9)]
	}
	m := protocol.MaxSize(num())
	_, b, e := r.c.rpc(fmt.Sprintf("version %d %q", m, v), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTversionPkt(b, t, m, v) })
	if (e == "") != (v == "9P2000") {
		nvFail("C05", "Tversion %q: error %q", v, e)
	}
	if e == "" {
		m2, v2, _, err := protocol.UnmarshalRversionPkt(b)
		if err != nil || m2 != m || v2 != v {
			nvFail("C05", "Tversion %d %q is answered with %d %q", m, v, m2, v2)
		}
	}
	r.check("C05")
}

func (r *nvRun) flush() {
	o := protocol.Tag(num())
	_, _, e := r.c.rpc(fmt.Sprintf("flush %d", o), func(b *bytes.Buffer, t protocol.Tag) { protocol.MarshalTflushPkt(b, t, o) })
	if e != "" {
		nvFail("C16", "flush fails: %s", e)
	}
	r.check("C16")
}

func (r *nvRun) steps(n int) {
	defer r.end()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(nvStop); !ok {
				panic(p)
			}
		}
	}()
	r.version()
	for _, f := range r.pool {
		if _, e := r.stat(f); e == "" {
			nvFail("C16 C09", "a new connection has fid %d", f)
		}
	}
	for i := 0; i < n; i++ {
		k := nvRand.Intn(100)
		if len(r.fids) == 0 {
			k = nvRand.Intn(12)
		}
		switch {
		case k < 8:
			r.attach()
		case k < 36:
			r.walk()
		case k < 48:
			r.open()
		case k < 57:
			r.create()
		case k < 66:
			r.free(false)
		case k < 71:
			r.free(true)
		case k < 83:
			r.rdwr()
		case k < 97:
			r.wstat()
		case k < 98:
			r.version()
		default:
			r.flush()
		}
	}
}

func nvDrive(t *testing.T, id string) {
	nvInit(id)
	end := nvEnd
	nvEnd = time.Now().Add(time.Until(end) * 2 / 3)
	for n := 0; time.Now().Before(nvEnd); n++ {
		newRun(n).steps(60)
	}
	nvEnd = end
	for n := 0; time.Now().Before(nvEnd); n++ {
		nvTogether(n)
	}
	fmt.Printf("CASES %d requests\n", nvAll)
}

func TestNVC05(t *testing.T) { nvDrive(t, "C05") }
func TestNVC09(t *testing.T) { nvDrive(t, "C09") }
func TestNVC15(t *testing.T) { nvDrive(t, "C15") }
func TestNVC16(t *testing.T) { nvDrive(t, "C16") }
func TestNVC17(t *testing.T) { nvDrive(t, "C17") }
func TestNVC18(t *testing.T) { nvDrive(t, "C18") }
func TestNVC19(t *testing.T) { nvDrive(t, "C19") }
func TestNVC20(t *testing.T) { nvDrive(t, "C20") }
func TestNVC21(t *testing.T) { nvDrive(t, "C21") }

var _ = reflect.DeepEqual
