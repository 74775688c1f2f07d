package protocol

import (
	"bytes"
	"errors"
	"reflect"
	"strings"
	"testing"
)

// nvNS records the calls and answers with prepared results.
type nvNS struct {
	calls []string
	args  []interface{}
	rets  []interface{} // oracle form
	err   error
}

func (n *nvNS) call(op string, as ...interface{}) {
	n.calls = append(n.calls, op)
	n.args = nil
	for _, a := range as {
		n.args = append(n.args, fromVal(reflect.ValueOf(a)))
	}
}
func (n *nvNS) u(i int) uint64 {
	if n.err != nil {
		return 0
	}
	return n.rets[i].(uint64)
}
func (n *nvNS) q(i int) QID {
	if n.err != nil {
		return QID{}
	}
	return n.rets[i].(QID)
}
func (n *nvNS) Rversion(m MaxSize, v string) (MaxSize, string, error) {
	n.call("version", m, v)
	if n.err != nil {
		return 0, "", n.err
	}
	return MaxSize(n.u(0)), n.rets[1].(string), nil
}
func (n *nvNS) Rattach(a, b FID, c, d string) (QID, error) {
	n.call("attach", a, b, c, d)
	return n.q(0), n.err
}
func (n *nvNS) Rwalk(a, b FID, p []string) ([]QID, error) {
	n.call("walk", a, b, p)
	if n.err != nil {
		return nil, n.err
	}
	return n.rets[0].([]QID), nil
}
func (n *nvNS) Ropen(a FID, m Mode) (QID, MaxSize, error) {
	n.call("open", a, m)
	return n.q(0), MaxSize(n.u(1)), n.err
}
func (n *nvNS) Rcreate(a FID, s string, p Perm, m Mode) (QID, MaxSize, error) {
	n.call("create", a, s, p, m)
	return n.q(0), MaxSize(n.u(1)), n.err
}
func (n *nvNS) Rstat(a FID) ([]byte, error) {
	n.call("stat", a)
	if n.err != nil {
		return nil, n.err
	}
	return n.rets[0].([]byte), nil
}
func (n *nvNS) Rwstat(a FID, b []byte) error { n.call("wstat", a, b); return n.err }
func (n *nvNS) Rclunk(a FID) error           { n.call("clunk", a); return n.err }
func (n *nvNS) Rremove(a FID) error          { n.call("remove", a); return n.err }
func (n *nvNS) Rread(a FID, o Offset, c Count) ([]byte, error) {
	n.call("read", a, o, c)
	if n.err != nil {
		return nil, n.err
	}
	return n.rets[0].([]byte), nil
}
func (n *nvNS) Rwrite(a FID, o Offset, d []byte) (Count, error) {
	n.call("write", a, o, d)
	return Count(n.u(0)), n.err
}
func (n *nvNS) Rflush(t Tag) error { n.call("flush", t); return n.err }

var nvOps = map[byte]string{100: "version", 104: "attach", 108: "flush", 110: "walk", 112: "open", 114: "create", 116: "read", 118: "write",
	120: "clunk", 122: "remove", 124: "stat", 126: "wstat"}

func nvKindOf(n byte) string {
	for k, d := range nvKinds {
		if d.num == n {
			return k
		}
	}
	return ""
}

func nvDispatchLoop(t *testing.T, id string) {
	nvInit()
	if id != "C05" {
		nvTight(t, id)
	}
	nvAlso(func() {
		for nvCase() {
			ty := byte(nvRand.Intn(256))
			if nvRand.Intn(4) > 0 {
				ty = []byte{100, 104, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126}[nvRand.Intn(12)]
			}
			kind := nvKindOf(ty)
			versioned := nvRand.Intn(3) > 0
			body := leN(nil, nvInt(2), 2)
			if op := nvOps[ty]; op != "" {
				body = nvEncode(kind, uint16(nvInt(2)), nvVals(kind))[5:]
				if nvRand.Intn(3) == 0 {
					body = nvMangle(body)
				}
			} else {
				body = append(body, nvData(100)...)
			}
			if len(body) < 2 {
				continue
			}
			ns := &nvNS{}
			rk := "Rerror"
			if nvOps[ty] != "" {
				rk = nvKindOf(ty + 1)
				ns.rets = nvVals(rk)
			}
			if nvRand.Intn(3) == 0 {
				s := nvStr(65535)
				switch nvRand.Intn(12) {
				case 0:
					s = strings.Repeat("e", 65536+nvRand.Intn(3))
				case 1:
					s = strings.Repeat("e", 200000)
				case 2:
					s = strings.Repeat("e", 65535)
				}
				ns.err = errors.New(s)
			}
			s := &Server{NS: ns, D: Dispatch, Versioned: versioned}
			back := append(append([]byte{}, body...), "xxxxxxxxxxxx"...)
			b := bytes.NewBuffer(back[:len(body)])
			what := "type " + kind + " body " + showB(body)
			if !versioned {
				what += " before Tversion"
			}
			if ns.err != nil {
				what += " file server error of " + show(len(ns.err.Error())) + " bytes " + show(ns.err.Error())
			}
			what = "type byte " + show(ty) + " " + what
			nvBusy.Store(id + ": " + what)
			p := guarded(func() { Dispatch(s, b, MType(ty)) })
			if p != nil {
				nvFail(t, id, "%s: panic %v", what, p)
			}
			r := b.Bytes()
			tag := uint16(body[0]) | uint16(body[1])<<8
			want := "error"
			var vals []interface{}
			valid := false
			if nvOps[ty] != "" {
				vals, _, valid = nvDecode(kind, body)
			}
			if valid && (versioned || ty == 100) {
				want = "call"
			}
			// the reply as such
			rok := false
			var rvs []interface{}
			if len(r) >= 7 && int(r[0])|int(r[1])<<8|int(r[2])<<16|int(r[3])<<24 == len(r) && uint16(r[5])|uint16(r[6])<<8 == tag {
				for _, k := range []string{rk, "Rerror"} {
					if r[4] == nvKinds[k].num {
						rvs, _, rok = nvDecode(k, r[5:])
					}
				}
			}
			if id == "C06" && !rok {
				nvFail(t, id, "%s: reply %s", what, showB(r))
			}
			if id == "C05" {
				if !versioned && ty != 100 && (len(ns.calls) > 0 || !rok || r[4] != 107) {
					nvFail(t, id, "%s: calls %v, reply %s", what, ns.calls, showB(r))
				}
				if s.Versioned != (versioned || ty == 100) {
					nvFail(t, id, "%s: session versioned %v", what, s.Versioned)
				}
				if want == "call" && len(ns.calls) == 0 {
					nvFail(t, id, "%s: refused with %s", what, showB(r))
				}
			}
			if id == "C06" && nvOps[ty] == "" && r[4] != 107 {
				nvFail(t, id, "%s: unsupported type, reply %s", what, showB(r))
			}
			if id != "C07" {
				continue
			}
			if want == "error" {
				if len(ns.calls) > 0 || !rok || r[4] != 107 {
					nvFail(t, id, "%s: calls %v, reply %s", what, ns.calls, showB(r))
				}
				continue
			}
			if len(ns.calls) != 1 || ns.calls[0] != nvOps[ty] || !reflect.DeepEqual(ns.args, vals) {
				nvFail(t, id, "%s: calls %v with %s", what, ns.calls, show(ns.args))
			}
			if ns.err == nil {
				if !bytes.Equal(r, nvEncode(rk, tag, ns.rets)) {
					nvFail(t, id, "%s: results %s, reply %s", what, show(ns.rets), showB(r))
				}
			} else if e := ns.err.Error(); len(e) <= 65535 && (!rok || r[4] != 107 || rvs[0].(string) != e) {
				nvFail(t, id, "%s: error %s, reply %s", what, show(e), showB(r))
			}
		}
	})
}

func TestNVC05(t *testing.T) { nvDispatchLoop(t, "C05") }
func TestNVC06(t *testing.T) { nvDispatchLoop(t, "C06") }
func TestNVC07(t *testing.T) { nvDispatchLoop(t, "C07") }
