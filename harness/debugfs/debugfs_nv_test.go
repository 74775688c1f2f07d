package debugfs

import (
	"bytes"
	"errors"
	"fmt"
	"go/scanner"
	"go/token"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

var (
	nvRand *rand.Rand
	nvInts = []uint64{0, 1, 2, 3, 0x10, 0x40, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 40, 1 << 62, 1 << 63, ^uint64(0)}
	nvStrs = []string{"", "a", "9P2000", "/", "..", "a/b", "%s%d", "\x00", strings.Repeat("n", 300)}
)

func u() uint64 {
	if nvRand.Intn(3) == 0 {
		return nvRand.Uint64()
	}
	return nvInts[nvRand.Intn(len(nvInts))]
}
func s() string { return nvStrs[nvRand.Intn(len(nvStrs))] }
func q() protocol.QID {
	return protocol.QID{Type: uint8(u()), Version: uint32(u()), Path: u()}
}
func bs() []byte {
	switch nvRand.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		var w bytes.Buffer
		protocol.Marshaldir(&w, protocol.Dir{Type: uint16(u()), Dev: uint32(u()), QID: q(), Mode: uint32(u()), Atime: uint32(u()), Mtime: uint32(u()), Length: u(), Name: s(), User: s(), Group: s(), ModUser: s()})
		b := w.Bytes()
		if nvRand.Intn(3) == 0 {
			return append(b, make([]byte, nvRand.Intn(100))...)
		}
		if nvRand.Intn(3) == 0 {
			b = b[:nvRand.Intn(len(b))]
		}
		return b
	}
	b := make([]byte, nvRand.Intn(70), 100)
	nvRand.Read(b)
	return b
}
func er() error {
	switch nvRand.Intn(6) {
	case 0:
		return io.EOF
	case 1:
		return errors.New(s())
	case 2:
		return os.ErrNotExist
	case 3:
		return &os.PathError{Op: "open", Path: s(), Err: os.ErrPermission}
	}
	return nil
}

func val(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.String:
		v.SetString(s())
	case t.Kind() == reflect.Interface:
		if e := er(); e != nil {
			v.Set(reflect.ValueOf(e))
		}
	case t == reflect.TypeOf([]byte(nil)):
		v.Set(reflect.ValueOf(bs()))
	case t == reflect.TypeOf([]string(nil)):
		if nvRand.Intn(5) > 0 {
			x := []string{}
			for n := nvRand.Intn(18); n > 0; n-- {
				x = append(x, s())
			}
			v.Set(reflect.ValueOf(x))
		}
	case t == reflect.TypeOf([]protocol.QID(nil)):
		if nvRand.Intn(5) > 0 {
			x := []protocol.QID{}
			for n := nvRand.Intn(18); n > 0; n-- {
				x = append(x, q())
			}
			v.Set(reflect.ValueOf(x))
		}
	case t == reflect.TypeOf(protocol.QID{}):
		v.Set(reflect.ValueOf(q()))
	case t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64:
		v.SetInt(int64(u()))
	default:
		v.SetUint(u())
	}
	return v
}

func dup(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Slice || v.IsNil() {
		return v
	}
	w := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(w, v)
	return w
}
func dups(v []reflect.Value) (w []reflect.Value) {
	for _, x := range v {
		w = append(w, dup(x))
	}
	return w
}
func eq(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return a.Interface() == b.Interface()
	}
	if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
		return true // nil and empty are told apart for results only
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

type call struct {
	op   string
	args []reflect.Value
}

type fake struct {
	calls []call
	res   map[string][]reflect.Value
}

func (f *fake) do(op string, args ...interface{}) []reflect.Value {
	var vs []reflect.Value
	for _, a := range args {
		vs = append(vs, reflect.ValueOf(a))
	}
	f.calls = append(f.calls, call{op, dups(vs)})
	return f.res[op]
}

func err(v reflect.Value) error { e, _ := v.Interface().(error); return e }

func (f *fake) Rversion(a protocol.MaxSize, b string) (protocol.MaxSize, string, error) {
	r := f.do("Rversion", a, b)
	return r[0].Interface().(protocol.MaxSize), r[1].String(), err(r[2])
}
func (f *fake) Rattach(a, b protocol.FID, c, d string) (protocol.QID, error) {
	r := f.do("Rattach", a, b, c, d)
	return r[0].Interface().(protocol.QID), err(r[1])
}
func (f *fake) Rflush(o protocol.Tag) error { return err(f.do("Rflush", o)[0]) }
func (f *fake) Rwalk(a, b protocol.FID, c []string) ([]protocol.QID, error) {
	r := f.do("Rwalk", a, b, c)
	return r[0].Interface().([]protocol.QID), err(r[1])
}
func (f *fake) Ropen(a protocol.FID, b protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r := f.do("Ropen", a, b)
	return r[0].Interface().(protocol.QID), r[1].Interface().(protocol.MaxSize), err(r[2])
}
func (f *fake) Rcreate(a protocol.FID, b string, c protocol.Perm, d protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r := f.do("Rcreate", a, b, c, d)
	return r[0].Interface().(protocol.QID), r[1].Interface().(protocol.MaxSize), err(r[2])
}
func (f *fake) Rstat(a protocol.FID) ([]byte, error) {
	r := f.do("Rstat", a)
	return r[0].Interface().([]byte), err(r[1])
}
func (f *fake) Rwstat(a protocol.FID, b []byte) error { return err(f.do("Rwstat", a, b)[0]) }
func (f *fake) Rclunk(a protocol.FID) error           { return err(f.do("Rclunk", a)[0]) }
func (f *fake) Rremove(a protocol.FID) error          { return err(f.do("Rremove", a)[0]) }
func (f *fake) Rread(a protocol.FID, b protocol.Offset, c protocol.Count) ([]byte, error) {
	r := f.do("Rread", a, b, c)
	return r[0].Interface().([]byte), err(r[1])
}
func (f *fake) Rwrite(a protocol.FID, b protocol.Offset, c []byte) (protocol.Count, error) {
	r := f.do("Rwrite", a, b, c)
	return r[0].Interface().(protocol.Count), err(r[1])
}

func show(vs []reflect.Value) string {
	var o []string
	for _, v := range vs {
		o = append(o, fmt.Sprintf("%#v", v.Interface()))
	}
	r := strings.Join(o, ", ")
	if len(r) > 600 {
		r = r[:600] + "..."
	}
	return strings.Replace(r, "\n", "\\n", -1)
}

func TestNVC22(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("NV_SEED"), 10, 64)
	nvRand = rand.New(rand.NewSource(n + 1))
	secs, _ := strconv.Atoi(os.Getenv("NV_SECS"))
	if secs == 0 {
		secs = 20
	}
	log.SetOutput(ioutil.Discard)
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("NV_SRC"), "*.go"))
	for _, f := range fs {
		b, _ := ioutil.ReadFile(f)
		var sc scanner.Scanner
		sc.Init(token.NewFileSet().AddFile(f, -1, len(b)), b, nil, 0)
		for {
			_, tok, lit := sc.Scan()
			if tok == token.EOF {
				break
			}
			if tok == token.INT {
				if v, err := strconv.ParseUint(lit, 0, 64); err == nil {
					nvInts = append(nvInts, v, v+1, v-1)
				}
			}
			if tok == token.STRING {
				if v, err := strconv.Unquote(lit); err == nil {
					nvStrs = append(nvStrs, v)
				}
			}
		}
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	fail := func(f string, a ...interface{}) {
		fmt.Printf("FAILING C22: "+f+"\n", a...)
		os.Exit(1)
	}
	ops := reflect.TypeOf((*protocol.NineServer)(nil)).Elem()
	cases := 0
	in, inB := &fake{}, &fake{}
	w := &DebugFileServer{FileServer: in}
	for ; time.Now().Before(end); cases++ {
		if cases%50 == 0 { // state kept in the wrapper may matter
			w = &DebugFileServer{FileServer: in}
		}
		m := ops.Method(nvRand.Intn(ops.NumMethod()))
		in.calls, in.res = nil, map[string][]reflect.Value{}
		for i := 0; i < ops.NumMethod(); i++ {
			mm := ops.Method(i)
			for j := 0; j < mm.Type.NumOut(); j++ {
				in.res[mm.Name] = append(in.res[mm.Name], val(mm.Type.Out(j)))
			}
		}
		var args []reflect.Value
		for j := 0; j < m.Type.NumIn(); j++ {
			args = append(args, val(m.Type.In(j)))
		}
		was, want := dups(args), dups(in.res[m.Name])
		var got []reflect.Value
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%s(%s) with the results %s crashes: %v", m.Name, show(was), show(want), e)
				}
			}()
			got = reflect.ValueOf(protocol.NineServer(w)).MethodByName(m.Name).Call(args)
		}()
		at := func() string { return fmt.Sprintf("%s(%s) with the results %s", m.Name, show(was), show(want)) }
		if len(in.calls) != 1 || len(inB.calls) != 0 {
			fail("%s invokes %d operations of the wrapped server", at(), len(in.calls))
		}
		if w.FileServer != protocol.NineServer(in) {
			fail("%s changes the wrapped server", at())
		}
		c := in.calls[0]
		if c.op != m.Name {
			fail("%s invokes %s", at(), c.op)
		}
		for j := range was {
			if !eq(was[j], c.args[j]) {
				fail("%s passes the arguments %s", at(), show(c.args))
			}
			if !eq(was[j], args[j]) {
				fail("%s changes the caller's argument to %s", at(), show(args[j:j+1]))
			}
		}
		for j := range want {
			if !eq(want[j], got[j]) || want[j].Kind() == reflect.Slice && want[j].IsNil() != got[j].IsNil() {
				fail("%s gives %s", at(), show(got))
			}
		}
	}
	fmt.Printf("CASES %d\n", cases)
}
