package protocol

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// nvTight works on messages of one kind in several goroutines at once, each
// with values of its own, for a sixth of the time.
func nvTight(t *testing.T, id string) {
	secs := time.Until(nvEnd) / 4
	defer func(e time.Time) { nvEnd = e }(nvEnd)
	nvEnd = time.Now().Add(secs)
	small := func(k string) (vs []interface{}) {
		for i := 0; i < 100; i++ {
			if vs = nvVals(k); len(nvEncode(k, 0, vs)) < 300 {
				break
			}
		}
		return
	}
	for time.Now().Before(nvEnd) {
		for _, k := range nvNames() {
			var wg sync.WaitGroup
			end := time.Now().Add(20 * time.Millisecond)
			for g := 0; g < 8; g++ {
				vs, tag := small(k), uint16(nvInt(2))
				m := nvEncode(k, tag, vs)
				cut := nvRand.Intn(len(m) - 5)
				_, _, cutOK := nvDecode(k, m[5:5+cut])
				var ns *nvNS
				var wantR []byte
				if id == "C06" || id == "C07" {
					if k[0] != 'T' {
						continue
					}
					ns = &nvNS{rets: small("R" + k[1:])}
					if nvRand.Intn(2) == 0 {
						ns.err = errors.New(nvStr(50))
						wantR = nvEncode("Rerror", tag, []interface{}{ns.err.Error()})
					} else {
						wantR = nvEncode("R"+k[1:], tag, ns.rets)
					}
				}
				d := nvDir()
				for len(nvEncDir(d)) > 500 {
					d = nvDir()
				}
				wd := nvEncDir(d)
				what := fmt.Sprintf("%s tag %#x values %s, with other messages of this kind handled at the same time", k, tag, show(vs))
				wg.Add(1)
				go func() {
					defer wg.Done()
					f := reflect.ValueOf(nvKinds[k].u)
					ok := true
					for i := 0; ok && (i&63 > 0 || time.Now().Before(end)); i++ {
						atomic.AddInt64(&nvCases, 1)
						p := guarded(func() {
							switch id {
							case "C01":
								b := &bytes.Buffer{}
								nvMarshal(k, b, tag, vs)
								if ok = bytes.Equal(b.Bytes(), m); !ok {
									nvFail(t, id, "%s: encoded as %s", what, showB(b.Bytes()))
								}
							case "C02":
								out := f.Call([]reflect.Value{reflect.ValueOf(bytes.NewBuffer(append([]byte{}, m[5:]...)))})
								gs := []interface{}{}
								for _, o := range out[:len(out)-2] {
									gs = append(gs, fromVal(o))
								}
								gt := out[len(out)-2].Interface().(Tag)
								if err := out[len(out)-1].Interface(); err != nil || uint16(gt) != tag || len(vs)+len(gs) > 0 && !reflect.DeepEqual(gs, vs) {
									ok = false
									nvFail(t, id, "%s: decoded as tag %#x values %s error %v", what, gt, show(gs), err)
								}
							case "C03":
								n, valid := len(m), true
								if i&1 > 0 {
									n, valid = 5+cut, cutOK
								}
								_, gt, err := nvUnmarshal(k, bytes.NewBuffer(append([]byte{}, m[5:n]...)))
								if (err == nil) != valid || valid && gt != tag {
									ok = false
									nvFail(t, id, "%s: the first %d bytes: tag %#x error %v", what, n, gt, err)
								}
							case "C04":
								b := &bytes.Buffer{}
								Marshaldir(b, d)
								if ok = bytes.Equal(b.Bytes(), wd); !ok {
									nvFail(t, id, "%s encoded at the same time as others: %s", show(d), showB(b.Bytes()))
								}
								b = bytes.NewBuffer(append([]byte{}, wd...))
								if e, err := Unmarshaldir(b); err != nil || e != d {
									ok = false
									nvFail(t, id, "%s decoded at the same time as others: %s, %v", show(d), show(e), err)
								}
							default:
								b := bytes.NewBuffer(append([]byte{}, m[5:]...))
								s := &Server{NS: ns, D: Dispatch, Versioned: true}
								ns.calls = nil
								Dispatch(s, b, MType(m[4]))
								if ok = bytes.Equal(b.Bytes(), wantR); !ok {
									nvFail(t, id, "%s: answered with %s, want %s", what, showB(b.Bytes()), showB(wantR))
								}
							}
						})
						if p != nil {
							ok = false
							nvFail(t, id, "%s: panic %v", what, p)
						}
					}
				}()
			}
			wg.Wait()
			if t.Failed() {
				t.FailNow()
			}
		}
	}
}

// nvBusyClient: many calls of all kinds at once on one client, whose server
// answers with values that depend on the arguments only.
func nvBusyClient(t *testing.T, id string) {
	secs := time.Until(nvEnd) / 4
	defer func(e time.Time) { nvEnd = e }(nvEnd)
	nvEnd = time.Now().Add(secs)
	n := nvNewNet()
	c := nvClient(t, id, n)
	stop := make(chan bool)
	go func() {
		for {
			var req []byte
			select {
			case req = <-n.req:
			case <-stop:
				return
			}
			if len(req) < 7 || int(le(req, 4)) != len(req) {
				nvFail(t, id, "many calls at once: request %s", showB(req))
			}
			b := bytes.NewBuffer(append([]byte{}, req[5:]...))
			Dispatch(&Server{NS: &nvHashNS{}, Versioned: true}, b, MType(req[4]))
			n.give(append([]byte{}, b.Bytes()...))
			n.mu.Lock()
			if len(n.data) == 0 {
				n.data = nil
			}
			n.mu.Unlock()
		}
	}()
	defer n.finish(io.EOF)
	defer close(stop)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(nvEnd) {
				op := nvCallNames[nvRand.Intn(12)]
				vs := nvVals("T" + op)
				m := nvEncode("T"+op, 7, vs)
				if len(m) > 5000 {
					continue
				}
				atomic.AddInt64(&nvCases, 1)
				b := bytes.NewBuffer(append([]byte{}, m[5:]...))
				Dispatch(&Server{NS: &nvHashNS{}, Versioned: true}, b, MType(m[4]))
				rep := b.Bytes()
				ch := make(chan nvRes, 1)
				go func() { ch <- nvCall(c, op, vs) }()
				var r nvRes
				select {
				case r = <-ch:
				case <-nvDeadline():
					nvFail(t, id, "many calls at once: CallT%s(%s) gets no reply", op, show(vs))
				}
				if r.p != nil {
					nvFail(t, id, "many calls at once: CallT%s(%s) panics: %v", op, show(vs), r.p)
				}
				if wv, _, ok := nvDecode("R"+op, rep[5:]); ok && rep[4] == nvKinds["R"+op].num {
					if r.err != nil || fmt.Sprintf("%#v", r.vs) != fmt.Sprintf("%#v", wv) {
						nvFail(t, id, "many calls at once: CallT%s(%s) gives %s, error %v; the server answered %s", op, show(vs), show(r.vs), r.err, show(wv))
					}
				} else if ev, _, ok := nvDecode("Rerror", rep[5:]); ok && (r.err == nil || r.err.Error() != ev[0].(string)) {
					nvFail(t, id, "many calls at once: CallT%s(%s) gives %s, error %v; the server answered with the error %v", op, show(vs), show(r.vs), r.err, ev[0])
				}
			}
		}()
	}
	wg.Wait()
	runtime.GC()
}
