package protocol

// Searches the real code for inputs that break a property, with an oracle
// written from the protocol's documentation.  Run only when the verifier
// rejects an obligation (to confirm the violation) and in the thorough tier.

import (
	"bytes"
	"fmt"
	"go/scanner"
	"go/token"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var (
	nvRand  = rand.New(&nvLocked{s: rand.NewSource(nvSeed())})
	nvInts  []uint64
	nvStrs  []string
	nvCases int64
	nvEnd   time.Time
	nvBusy  atomic.Value
)

// nvLocked: a source that several goroutines may use
type nvLocked struct {
	mu sync.Mutex
	s  rand.Source
}

func (l *nvLocked) Int63() int64 { l.mu.Lock(); defer l.mu.Unlock(); return l.s.Int63() }
func (l *nvLocked) Seed(n int64) { l.mu.Lock(); defer l.mu.Unlock(); l.s.Seed(n) }

var nvPar bool // several goroutines are at work

// nvAlso runs f for the first two thirds of the time by itself, then in
// several goroutines at once: what one does must not affect the others.
func nvAlso(f func()) {
	end := nvEnd
	nvEnd = time.Now().Add(time.Until(end) * 2 / 3)
	f()
	nvEnd = end
	nvPar = true
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

func nvSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("NV_SEED"), 10, 64)
	return n + 1
}

func nvInit() {
	secs, _ := strconv.Atoi(os.Getenv("NV_SECS"))
	if secs == 0 {
		secs = 20
	}
	nvEnd = time.Now().Add(time.Duration(secs) * time.Second)
	nvInts = []uint64{0, 1, 2, 3, 7, 8, 15, 16, 17, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff,
		0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff}
	nvStrs = []string{"", "a", "ab", ".", "..", "/", "a/b", "9P2000", "9P2000.u", "unknown", "\x00", "\xff\xfe", "h\u00e9llo", strings.Repeat("x", 255), strings.Repeat("y", 256)}
	seen := map[uint64]bool{}
	addInt := func(u uint64) {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			if !seen[u+d] {
				seen[u+d] = true
				nvInts = append(nvInts, u+d)
			}
		}
	}
	ss := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("NV_SRC"), "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := ioutil.ReadFile(f)
		var s scanner.Scanner
		fset := token.NewFileSet()
		s.Init(fset.AddFile(f, -1, len(b)), b, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT, token.CHAR:
				if u, err := strconv.ParseUint(lit, 0, 64); err == nil {
					addInt(u)
				}
				if tok == token.CHAR {
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
						addInt(uint64(r))
						ss[string(r)] = true
					}
				}
			case token.STRING:
				if u, err := strconv.Unquote(lit); err == nil && len(u) < 60 {
					ss[u] = true
				}
			}
		}
	}
	for s := range ss {
		if len(nvStrs) < 400 {
			nvStrs = append(nvStrs, s)
		}
	}
	if b, err := ioutil.ReadFile(os.Getenv("NV_MODELS")); err == nil {
		for _, m := range regexp.MustCompile(`#x[0-9a-f]+`).FindAllString(string(b), 2000) {
			if len(m) <= 18 {
				if u, err := strconv.ParseUint(m[2:], 16, 64); err == nil {
					addInt(u)
				}
			}
		}
	}
	go func() {
		last, n := int64(-1), 0
		for {
			time.Sleep(time.Second)
			c := atomic.LoadInt64(&nvCases)
			if c == last {
				n++
			} else {
				n = 0
			}
			last = c
			if n > 20 {
				if s, ok := nvBusy.Load().(string); ok && s != "" {
					fmt.Printf("FAILING %s: does not end\n", s)
					os.Exit(1)
				}
			}
		}
	}()
}

func nvCase() bool {
	atomic.AddInt64(&nvCases, 1)
	return time.Now().Before(nvEnd)
}

func nvFail(t *testing.T, id, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	s = strings.Replace(s, "\n", "\\n", -1)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("FAILING %s: %s\n", id, s)
	t.FailNow()
}

// guarded runs f and reports a panic
func guarded(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

type nvKind struct {
	num byte
	fs  string // 1 2 4 8 integers, s string, q qid, N names, Q qids, d data16, D data32
	m   interface{}
	u   interface{}
}

var nvKinds = map[string]nvKind{
	"Tversion": {100, "4s", MarshalTversionPkt, UnmarshalTversionPkt}, "Rversion": {101, "4s", MarshalRversionPkt, UnmarshalRversionPkt},
	"Tattach": {104, "44ss", MarshalTattachPkt, UnmarshalTattachPkt}, "Rattach": {105, "q", MarshalRattachPkt, UnmarshalRattachPkt},
	"Rerror": {107, "s", MarshalRerrorPkt, UnmarshalRerrorPkt},
	"Tflush": {108, "2", MarshalTflushPkt, UnmarshalTflushPkt}, "Rflush": {109, "", MarshalRflushPkt, UnmarshalRflushPkt},
	"Twalk": {110, "44N", MarshalTwalkPkt, UnmarshalTwalkPkt}, "Rwalk": {111, "Q", MarshalRwalkPkt, UnmarshalRwalkPkt},
	"Topen": {112, "41", MarshalTopenPkt, UnmarshalTopenPkt}, "Ropen": {113, "q4", MarshalRopenPkt, UnmarshalRopenPkt},
	"Tcreate": {114, "4s41", MarshalTcreatePkt, UnmarshalTcreatePkt}, "Rcreate": {115, "q4", MarshalRcreatePkt, UnmarshalRcreatePkt},
	"Tread": {116, "484", MarshalTreadPkt, UnmarshalTreadPkt}, "Rread": {117, "D", MarshalRreadPkt, UnmarshalRreadPkt},
	"Twrite": {118, "48D", MarshalTwritePkt, UnmarshalTwritePkt}, "Rwrite": {119, "4", MarshalRwritePkt, UnmarshalRwritePkt},
	"Tclunk": {120, "4", MarshalTclunkPkt, UnmarshalTclunkPkt}, "Rclunk": {121, "", MarshalRclunkPkt, UnmarshalRclunkPkt},
	"Tremove": {122, "4", MarshalTremovePkt, UnmarshalTremovePkt}, "Rremove": {123, "", MarshalRremovePkt, UnmarshalRremovePkt},
	"Tstat": {124, "4", MarshalTstatPkt, UnmarshalTstatPkt}, "Rstat": {125, "d", MarshalRstatPkt, UnmarshalRstatPkt},
	"Twstat": {126, "4d", MarshalTwstatPkt, UnmarshalTwstatPkt}, "Rwstat": {127, "", MarshalRwstatPkt, UnmarshalRwstatPkt},
}

func nvNames() []string {
	var ns []string
	for n := byte(100); n <= 127; n++ {
		for k, d := range nvKinds {
			if d.num == n {
				ns = append(ns, k)
			}
		}
	}
	return ns
}

func leN(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>uint(8*i)))
	}
	return b
}
func nvEncField(b []byte, k byte, v interface{}) []byte {
	switch k {
	case '1':
		return leN(b, v.(uint64), 1)
	case '2':
		return leN(b, v.(uint64), 2)
	case '4':
		return leN(b, v.(uint64), 4)
	case '8':
		return leN(b, v.(uint64), 8)
	case 's':
		s := v.(string)
		return append(leN(b, uint64(len(s)), 2), s...)
	case 'd':
		s := v.([]byte)
		return append(leN(b, uint64(len(s)), 2), s...)
	case 'D':
		s := v.([]byte)
		return append(leN(b, uint64(len(s)), 4), s...)
	case 'q':
		q := v.(QID)
		return leN(leN(leN(b, uint64(q.Type), 1), uint64(q.Version), 4), q.Path, 8)
	case 'N':
		l := v.([]string)
		b = leN(b, uint64(len(l)), 2)
		for _, s := range l {
			b = nvEncField(b, 's', s)
		}
		return b
	case 'Q':
		l := v.([]QID)
		b = leN(b, uint64(len(l)), 2)
		for _, q := range l {
			b = nvEncField(b, 'q', q)
		}
		return b
	}
	panic("kind")
}

func nvEncode(kind string, tag uint16, vs []interface{}) []byte {
	d := nvKinds[kind]
	b := leN([]byte{0, 0, 0, 0, d.num}, uint64(tag), 2)
	for i, v := range vs {
		b = nvEncField(b, d.fs[i], v)
	}
	copy(b, leN(nil, uint64(len(b)), 4))
	return b
}

type nvReader struct {
	b   []byte
	bad bool
}

func (r *nvReader) n(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return make([]byte, 8)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *nvReader) u(n int) uint64 {
	var v uint64
	for i, c := range r.n(n)[:n] {
		v |= uint64(c) << uint(8*i)
	}
	return v
}
func (r *nvReader) data(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return nil
	}
	return append([]byte{}, r.n(n)...)
}
func (r *nvReader) field(k byte) interface{} {
	switch k {
	case '1':
		return r.u(1)
	case '2':
		return r.u(2)
	case '4':
		return r.u(4)
	case '8':
		return r.u(8)
	case 's':
		return string(r.data(int(r.u(2))))
	case 'd':
		return r.data(int(r.u(2)))
	case 'D':
		return r.data(int(r.u(4)))
	case 'q':
		var q QID
		q.Type, q.Version, q.Path = uint8(r.u(1)), uint32(r.u(4)), r.u(8)
		return q
	case 'N':
		var l []string
		for n := r.u(2); n > 0 && !r.bad; n-- {
			l = append(l, r.field('s').(string))
		}
		return l
	case 'Q':
		var l []QID
		for n := r.u(2); n > 0 && !r.bad; n-- {
			l = append(l, r.field('q').(QID))
		}
		return l
	}
	panic("kind")
}

// nvDecode: the body after the type byte
func nvDecode(kind string, body []byte) (vs []interface{}, tag uint16, ok bool) {
	r := &nvReader{b: body}
	tag = uint16(r.u(2))
	for i := range nvKinds[kind].fs {
		vs = append(vs, r.field(nvKinds[kind].fs[i]))
	}
	return vs, tag, !r.bad && len(r.b) == 0
}

func nvInt(n int) uint64 {
	var u uint64
	if nvRand.Intn(2) == 0 {
		u = nvInts[nvRand.Intn(len(nvInts))]
	} else {
		u = nvRand.Uint64() >> uint(nvRand.Intn(64))
	}
	if n < 8 {
		u &= 1<<uint(8*n) - 1
	}
	return u
}
func nvLen(max int) int {
	switch nvRand.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3:
		for i := 0; i < 20; i++ {
			u := nvInts[nvRand.Intn(len(nvInts))]
			if u <= uint64(max) {
				return int(u)
			}
		}
		return 2
	case 4:
		return nvRand.Intn(max + 1)
	}
	return nvRand.Intn(40)
}
func nvData(max int) []byte {
	b := make([]byte, nvLen(max))
	for i := range b {
		b[i] = byte(nvRand.Int63() >> 20)
	}
	return b
}
func nvStr(max int) string {
	if nvRand.Intn(2) == 0 {
		s := nvStrs[nvRand.Intn(len(nvStrs))]
		if len(s) <= max {
			return s
		}
	}
	return string(nvData(max))
}
func nvQid() QID { return QID{Type: uint8(nvInt(1)), Version: uint32(nvInt(4)), Path: nvInt(8)} }
func nvVal(k byte) interface{} {
	switch k {
	case '1', '2', '4', '8':
		return nvInt(int(k - '0'))
	case 's':
		return nvStr(65535)
	case 'd':
		return nvData(65535)
	case 'D':
		return nvData(100000)
	case 'q':
		return nvQid()
	case 'N':
		var l []string
		n := nvRand.Intn(20)
		if nvRand.Intn(10) == 0 {
			n = nvLen(65535)
		}
		for i := 0; i < n; i++ {
			if n > 30 {
				l = append(l, nvStr(20))
			} else {
				l = append(l, nvStr(700))
			}
		}
		return l
	case 'Q':
		var l []QID
		n := nvRand.Intn(20)
		if nvRand.Intn(10) == 0 {
			n = nvLen(65535)
		}
		for i := 0; i < n; i++ {
			l = append(l, nvQid())
		}
		return l
	}
	panic("kind")
}
func nvVals(kind string) (vs []interface{}) {
	for i := range nvKinds[kind].fs {
		vs = append(vs, nvVal(nvKinds[kind].fs[i]))
	}
	return
}

// toType converts an oracle value to the type the code wants
func toType(v interface{}, t reflect.Type) reflect.Value {
	rv := reflect.ValueOf(v)
	if u, ok := v.(uint64); ok {
		n := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			switch t.Size() {
			case 1:
				n.SetInt(int64(int8(u)))
			case 2:
				n.SetInt(int64(int16(u)))
			case 4:
				n.SetInt(int64(int32(u)))
			default:
				n.SetInt(int64(u))
			}
		default:
			n.SetUint(u)
		}
		return n
	}
	if rv.Kind() == reflect.Slice && rv.IsNil() {
		return reflect.Zero(t)
	}
	return rv.Convert(t)
}

// fromVal converts a value of the code to the oracle's form
func fromVal(rv reflect.Value) interface{} {
	switch rv.Kind() {
	case reflect.Int8:
		return uint64(uint8(rv.Int()))
	case reflect.Int16:
		return uint64(uint16(rv.Int()))
	case reflect.Int32:
		return uint64(uint32(rv.Int()))
	case reflect.Int64, reflect.Int:
		return uint64(rv.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return rv.Uint()
	case reflect.String:
		return rv.String()
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return append([]byte{}, rv.Bytes()...)
		}
		if rv.Len() == 0 {
			if rv.Type().Elem().Kind() == reflect.String {
				return []string(nil)
			}
			return []QID(nil)
		}
	}
	return rv.Interface()
}

func nvMarshal(kind string, b *bytes.Buffer, tag uint16, vs []interface{}) {
	f := reflect.ValueOf(nvKinds[kind].m)
	in := []reflect.Value{reflect.ValueOf(b), reflect.ValueOf(Tag(tag))}
	for i, v := range vs {
		in = append(in, toType(v, f.Type().In(i+2)))
	}
	f.Call(in)
}

func nvUnmarshal(kind string, b *bytes.Buffer) (vs []interface{}, tag uint16, err error) {
	f := reflect.ValueOf(nvKinds[kind].u)
	out := f.Call([]reflect.Value{reflect.ValueOf(b)})
	n := len(nvKinds[kind].fs)
	for i := 0; i < n; i++ {
		vs = append(vs, fromVal(out[i]))
	}
	tag = uint16(out[n].Uint())
	err, _ = out[n+1].Interface().(error)
	return
}

func show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("... (%d)", len(s))
	}
	return s
}
func showB(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("% x ... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("% x (%d bytes)", b, len(b))
}

func nvBuf() *bytes.Buffer {
	b := &bytes.Buffer{}
	if nvRand.Intn(2) == 0 {
		b.Write(nvData(300))
		b.Next(nvRand.Intn(b.Len() + 1))
	}
	return b
}

func TestNVC01(t *testing.T) {
	nvInit()
	nvTight(t, "C01")
	nvAlso(func() {
		for nvCase() {
			for _, k := range nvNames() {
				vs, tag, b := nvVals(k), uint16(nvInt(2)), nvBuf()
				nvBusy.Store("C01: Marshal" + k + "Pkt")
				want := nvEncode(k, tag, vs)
				p := guarded(func() { nvMarshal(k, b, tag, vs) })
				if p != nil {
					nvFail(t, "C01", "Marshal%sPkt tag %#x values %s: panic %v", k, tag, show(vs), p)
				}
				if !bytes.Equal(b.Bytes(), want) {
					nvFail(t, "C01", "Marshal%sPkt tag %#x values %s encodes %s, want %s", k, tag, show(vs), showB(b.Bytes()), showB(want))
				}
			}
		}
	})
}

func TestNVC02(t *testing.T) {
	nvInit()
	nvTight(t, "C02")
	nvAlso(func() {
		for nvCase() {
			for _, k := range nvNames() {
				vs, tag := nvVals(k), uint16(nvInt(2))
				nvBusy.Store("C02: " + k)
				for i, m := range [][]byte{nvEncode(k, tag, vs), nil} {
					if i == 1 {
						b := nvBuf()
						if guarded(func() { nvMarshal(k, b, tag, vs) }) != nil || b.Len() < 5 {
							nvFail(t, "C02", "Marshal%sPkt tag %#x values %s fails", k, tag, show(vs))
						}
						m = append([]byte{}, b.Bytes()...)
					}
					var gs []interface{}
					var gt uint16
					var err error
					b := bytes.NewBuffer(append([]byte{}, m[5:]...))
					if p := guarded(func() { gs, gt, err = nvUnmarshal(k, b) }); p != nil {
						nvFail(t, "C02", "Unmarshal%sPkt of %s: panic %v", k, showB(m), p)
					}
					if err != nil || gt != tag || !reflect.DeepEqual(gs, vs) || b.Len() != 0 {
						nvFail(t, "C02", "%s tag %#x values %s: decoding %s gives tag %#x values %s error %v, %d bytes left", k, tag, show(vs), showB(m), gt, show(gs), err, b.Len())
					}
				}
			}
		}
	})
}

func nvMangle(body []byte) []byte {
	b := append([]byte{}, body...)
	switch nvRand.Intn(6) {
	case 0:
		return b[:nvRand.Intn(len(b)+1)]
	case 1:
		return append(b, nvData(20)...)
	case 2, 3:
		for n := nvRand.Intn(3); n >= 0 && len(b) > 0; n-- {
			i := nvRand.Intn(len(b))
			if len(b) > 30 && nvRand.Intn(2) == 0 {
				i = nvRand.Intn(30)
			}
			b[i] = byte(nvInt(1))
		}
		return b
	case 4:
		return nvData(60)
	}
	return b
}

func TestNVC03(t *testing.T) {
	nvInit()
	nvTight(t, "C03")
	chk := func(k string, body []byte) {
		nvBusy.Store("C03: Unmarshal" + k + "Pkt of " + showB(body))
		back := append(append(append([]byte{}, "before"...), body...), "after the message"...)
		b := bytes.NewBuffer(back[6 : 6+len(body)])
		ws, wt, ok := nvDecode(k, body)
		var gs []interface{}
		var gt uint16
		var err error
		if p := guarded(func() { gs, gt, err = nvUnmarshal(k, b) }); p != nil {
			nvFail(t, "C03", "Unmarshal%sPkt of %s: panic %v", k, showB(body), p)
		}
		if (err == nil) != ok {
			nvFail(t, "C03", "Unmarshal%sPkt of %s: error %v, but valid is %v", k, showB(body), err, ok)
		}
		if ok && (gt != wt || !reflect.DeepEqual(ws, gs)) {
			nvFail(t, "C03", "Unmarshal%sPkt of %s: gives tag %#x values %s, want tag %#x values %s", k, showB(body), gt, show(gs), wt, show(ws))
		}
	}
	for _, k := range nvNames() {
		for i := 0; i < 20; i++ {
			m := nvEncode(k, uint16(nvInt(2)), nvVals(k))[5:]
			if len(m) < 400 {
				for j := range m {
					chk(k, m[:j])
				}
			}
		}
	}
	nvAlso(func() {
		for nvCase() {
			for _, k := range nvNames() {
				m := nvEncode(k, uint16(nvInt(2)), nvVals(k))[5:]
				chk(k, nvMangle(m))
				chk(k, nvMangle(nvMangle(m)))
			}
		}
	})
}

func nvDir() Dir {
	return Dir{Type: uint16(nvInt(2)), Dev: uint32(nvInt(4)), QID: nvQid(), Mode: uint32(nvInt(4)), Atime: uint32(nvInt(4)), Mtime: uint32(nvInt(4)),
		Length: nvInt(8), Name: nvStr(16000), User: nvStr(16000), Group: nvStr(16000), ModUser: nvStr(16000)}
}
func nvEncDir(d Dir) []byte {
	b := leN(nil, 0, 2)
	b = leN(b, uint64(d.Type), 2)
	b = leN(b, uint64(d.Dev), 4)
	b = nvEncField(b, 'q', d.QID)
	for _, u := range []uint32{d.Mode, d.Atime, d.Mtime} {
		b = leN(b, uint64(u), 4)
	}
	b = leN(b, d.Length, 8)
	for _, s := range []string{d.Name, d.User, d.Group, d.ModUser} {
		b = nvEncField(b, 's', s)
	}
	copy(b, leN(nil, uint64(len(b)-2), 2))
	return b
}

func TestNVC04(t *testing.T) {
	nvInit()
	nvTight(t, "C04")
	nvAlso(func() {
		for nvCase() {
			d := nvDir()
			want := nvEncDir(d)
			if len(want) > 65535 {
				continue
			}
			b := nvBuf()
			nvBusy.Store("C04: " + show(d))
			if p := guarded(func() { Marshaldir(b, d) }); p != nil || !bytes.Equal(b.Bytes(), want) {
				nvFail(t, "C04", "Marshaldir of %s: %s (panic %v), want %s", show(d), showB(b.Bytes()), p, showB(want))
			}
			rest := nvData(30)
			b = bytes.NewBuffer(append(append([]byte{}, want...), rest...))
			var g Dir
			var err error
			if p := guarded(func() { g, err = Unmarshaldir(b) }); p != nil || err != nil || g != d || !bytes.Equal(b.Bytes(), rest) {
				nvFail(t, "C04", "Unmarshaldir of %s followed by %d bytes: %s error %v panic %v, %d bytes left", showB(want), len(rest), show(g), err, p, b.Len())
			}
			cut := nvRand.Intn(len(want))
			if nvRand.Intn(2) == 0 {
				cut = nvRand.Intn(60) % len(want)
			}
			b = bytes.NewBuffer(append([]byte{}, want[:cut]...))
			err = nil
			if p := guarded(func() { _, err = Unmarshaldir(b) }); p != nil || err == nil {
				nvFail(t, "C04", "Unmarshaldir of the first %d bytes of %s: error %v panic %v", cut, showB(want), err, p)
			}
			m := nvMangle(want)
			b = bytes.NewBuffer(append([]byte{}, m...))
			r := &nvReader{b: m}
			r.u(2)
			for _, k := range "24q4448ssss" {
				r.field(byte(k))
			}
			if p := guarded(func() { _, err = Unmarshaldir(b) }); p != nil || (err != nil) != r.bad {
				nvFail(t, "C04", "Unmarshaldir of %s: error %v panic %v, but valid is %v", showB(m), err, p, !r.bad)
			}
		}
	})
}

func TestMain(m *testing.M) {
	log.SetOutput(ioutil.Discard)
	c := m.Run()
	fmt.Printf("CASES %d\n", atomic.LoadInt64(&nvCases))
	os.Exit(c)
}
