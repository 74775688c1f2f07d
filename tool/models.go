package main

// Models of the functions outside the repository that the code uses.  These
// are assumptions about the Go standard library and the operating system; the
// list of those used is part of the evidence.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eventful models leave an event that contracts can refer to.
var eventful = map[string]bool{"sync/atomic.AddUint64": true, "(*os.File).ReadAt": true, "(*os.File).WriteAt": true,
	"(*os.File).Readdir": true, "(*os.File).Close": true, "(*os.File).Seek": true}

var models map[string]model

// ---- bytes.Buffer ----

func (x *Exec) bufLoad(st *State, p PtrV) (ref, off, n, base *Term) {
	v := x.load(st, PtrV{ref: p.ref, base: p.base, idx: p.idx, typ: p.typ}).(StructV)
	return v.fs[0].(Sc).t, v.fs[1].(Sc).t, v.fs[2].(Sc).t, v.fs[3].(Sc).t
}
func (x *Exec) bufParts(st *State, p PtrV) (ref, off, n *Term) {
	ref, off, n, _ = x.bufLoad(st, p)
	return
}
func (x *Exec) bufStore(st *State, p PtrV, ref, off, n, base *Term) {
	x.store(st, p, StructV{p.typ, []Value{Sc{ref}, Sc{off}, Sc{n}, Sc{base}}})
}

// bufRoom: how many bytes the buffer takes before it moves to other storage,
// if that is known.  (It may also slide its data down; not if nothing has been
// consumed.)
func (x *Exec) bufRoom(st *State, p PtrV) (int64, bool) {
	ref, off, n, base := x.bufLoad(st, p)
	c, ok := st.bufCap[p.ref]
	if !ok || c.ref != ref || p.base != "bytes.Buffer" || p.idx != nil || off != base || !off.isBV() || !n.isBV() {
		return 0, false
	}
	return int64(c.end) - int64(off.val) - int64(n.val), true
}

// bufMove gives the buffer storage of its own.
func (x *Exec) bufMove(st *State, p PtrV) {
	ref, off, n, _ := x.bufLoad(st, p)
	r := x.allocBytes(st, Splice(ConstArr(S64, BV(0, 8)), I64(0), x.bytesArr(st, ref), off, n))
	x.bufStore(st, p, r, I64(0), n, I64(0))
}

// bufWrite appends n bytes.  The storage becomes a new object; what earlier
// slices of the old storage now contain is unknown from the buffer's start on
// (in-place appends, sliding down), except that unread data stays in place as
// long as nothing was consumed.
func (x *Exec) bufWrite(st *State, p PtrV, arr, so, n *Term) {
	ref, off, ln, base := x.bufLoad(st, p)
	if n == I64(0) {
		return
	}
	old := x.bytesArr(st, ref)
	if room, ok := x.bufRoom(st, p); ok && n.isBV() && int64(n.val) <= room {
		x.setBytesArr(st, ref, Splice(old, Add(off, ln), arr, so, n))
		x.bufStore(st, p, ref, off, Add(ln, n), base)
		return
	}
	na := Splice(Splice(ConstArr(S64, BV(0, 8)), I64(0), old, off, ln), ln, arr, so, n)
	st.assume(Ult(Add(ln, n), I64(maxLen)))
	x.poison(st, ref, off, ln, base)
	r := x.allocBytes(st, na)
	x.bufStore(st, p, r, I64(0), Add(ln, n), I64(0))
}

func (x *Exec) poison(st *State, ref, off, ln, base *Term) {
	if ref == Nil {
		return
	}
	old := x.bytesArr(st, ref)
	f := Fresh("stale", old.sort)
	keep := Ite(Eq(off, base), Add(off, ln), base)
	x.setBytesArr(st, ref, Splice(f, I64(0), old, I64(0), keep))
}

func (x *Exec) havocBuffer(st *State, p PtrV) {
	n := Fresh("hlen", S64)
	st.assume(Ult(n, I64(maxLen)))
	r := x.allocBytes(st, Fresh("hbytes", SArr(S64, S8)))
	x.bufStore(st, p, r, I64(0), n, I64(0))
}

func bufArg(v Value) (PtrV, bool) {
	switch v := v.(type) {
	case PtrV:
		if isBuffer(v.typ) {
			return v, true
		}
	case IfaceV:
		if v.dyn != nil {
			return bufArg(v.val)
		}
	}
	return PtrV{}, false
}

// newError makes a fresh non-nil error.
func (x *Exec) newError(st *State, text StrV) IfaceV {
	id := Fresh("err", SInt)
	refBound[id] = int64(st.next)
	st.assume(Ne(id, Nil))
	if text.arr != nil {
		st.wellFormed(text)
		st.assume(Eq(App("errtext", SStr, id), strTerm(text)))
	}
	return IfaceV{id: id}
}

var nilErr = IfaceV{id: Nil}

// decide settles a condition the model depends on, splitting the path if both
// are possible (the other case runs the call again).
func (x *Exec) decide(st *State, c *callCtx, cond *Term) bool {
	if cond.isConst() {
		return cond == True
	}
	if st.inPath[cond] {
		return true
	}
	if st.inPath[Not(cond)] {
		return false
	}
	if !x.feasible(st, cond) {
		st.assume(Not(cond))
		return false
	}
	if !x.feasible(st, Not(cond)) {
		st.assume(cond)
		return true
	}
	f := st.top()
	var in *ssa.Call
	if f.pc > 0 {
		in, _ = f.blk.Instrs[f.pc-1].(*ssa.Call)
	}
	if in == nil || &in.Call != c.call {
		unsup("%s with an undecided outcome outside a plain call", c.name)
	}
	o := st.clone()
	o.top().pc--
	o.inPath[Not(cond)] = true
	o.path = append(o.path, Not(cond))
	o.trail = append(o.trail, x.posStr(c.pos)+" other outcome")
	x.work = append(x.work, o)
	st.inPath[cond] = true
	st.path = append(st.path, cond)
	return true
}

// ---- input streams: what a connection delivers, in total ----

func (x *Exec) stream(st *State, id *Term) (arr, cur, end *Term) {
	arr = Select(st.comp("G:in.arr", SArr(SInt, SArr(S64, S8))), id)
	cur = Select(st.comp("G:in.cur", SArr(SInt, S64)), id)
	end = Select(st.comp("G:in.end", SArr(SInt, S64)), id)
	st.assume(Ule(cur, end))
	st.assume(Ult(end, I64(maxLen)))
	return
}
func (x *Exec) setCur(st *State, id, cur *Term) {
	st.heap["G:in.cur"] = Store(st.comp("G:in.cur", SArr(SInt, S64)), id, cur)
}

func (x *Exec) fillSlice(st *State, d SliceV, arr, so, n *Term) {
	old := x.bytesArr(st, d.ref)
	var na *Term
	if n.isBV() && n.val <= 16 {
		na = old
		for j := uint64(0); j < n.val; j++ {
			na = Store(na, Add(d.off, I64(int64(j))), Select(arr, Add(so, I64(int64(j)))))
		}
	} else {
		na = Splice(old, d.off, arr, so, n)
	}
	x.setBytesArr(st, d.ref, na)
}

// readEnd: reading from a connection is over, with an error or without.
func (x *Exec) readEnd(st *State, r IfaceV, failed *Term, c *callCtx) {
	if rs := x.rulesFor("readend"); len(rs) > 0 && len(st.frames) > 0 {
		x.runRules(st, rs, true, []Value{r, Sc{failed}}, nil, c.pos, nil)
		if len(st.frames) > 0 {
			x.runRules(st, rs, false, []Value{r, Sc{failed}}, nil, c.pos, nil)
		}
	}
}

func readFull(x *Exec, st *State, args []Value, c *callCtx) Value {
	d := args[1].(SliceV)
	if d.base != "E:uint8" {
		unsup("read into %s", d.base)
	}
	if p, ok := bufArg(args[0]); ok {
		x.nilCheck(st, p, c.pos)
		ref, off, n, base := x.bufLoad(st, p)
		if x.decide(st, c, Ule(d.len, n)) {
			x.fillSlice(st, d, x.bytesArr(st, ref), off, d.len)
			x.bufStore(st, p, ref, Add(off, d.len), Sub(n, d.len), base)
			return TupleV{Sc{d.len}, nilErr}
		}
		x.fillSlice(st, d, x.bytesArr(st, ref), off, n)
		x.bufStore(st, p, ref, base, I64(0), base)
		return TupleV{Sc{n}, x.newError(st, StrV{})}
	}
	iv, ok := args[0].(IfaceV)
	if !ok || iv.dyn != nil {
		unsup("io.ReadFull from %T", args[0])
	}
	x.nilCheck(st, iv, c.pos)
	arr, cur, end := x.stream(st, iv.id)
	if x.decide(st, c, Ule(d.len, Sub(end, cur))) {
		x.fillSlice(st, d, arr, cur, d.len)
		x.setCur(st, iv.id, Add(cur, d.len))
		x.readEnd(st, iv, False, c)
		return TupleV{Sc{d.len}, nilErr}
	}
	x.fillSlice(st, d, arr, cur, Sub(end, cur))
	x.setCur(st, iv.id, end)
	x.readEnd(st, iv, True, c)
	return TupleV{Sc{Sub(end, cur)}, x.newError(st, StrV{})}
}

func copyN(x *Exec, st *State, args []Value, c *callCtx) Value {
	p, ok := bufArg(args[0])
	iv, ok2 := args[1].(IfaceV)
	if !ok || !ok2 || iv.dyn != nil {
		unsup("io.CopyN between %T and %T", args[0], args[1])
	}
	n := args[2].(Sc).t
	x.nilCheck(st, iv, c.pos)
	// the data goes in by ReadFrom, which makes room for 512 bytes first
	room, known := x.bufRoom(st, p)
	if x.decide(st, c, Slt(n, I64(1))) {
		if known && room < 512 {
			x.bufMove(st, p)
		}
		return TupleV{Sc{I64(0)}, nilErr} // also for n == 0
	}
	arr, cur, end := x.stream(st, iv.id)
	if known && room >= 512 {
		m := n
		if !x.decide(st, c, Sle(n, Sub(end, cur))) {
			m = Sub(end, cur)
		}
		if x.decide(st, c, Ule(m, I64(room-512))) {
			ref, off, ln, base := x.bufLoad(st, p)
			x.setBytesArr(st, ref, Splice(x.bytesArr(st, ref), Add(off, ln), arr, cur, m))
			x.bufStore(st, p, ref, off, Add(ln, m), base)
			x.setCur(st, iv.id, Add(cur, m))
			x.readEnd(st, iv, Bool(m != n), c)
			if m == n {
				return TupleV{Sc{n}, nilErr}
			}
			return TupleV{Sc{m}, x.newError(st, StrV{})}
		}
	}
	if x.decide(st, c, Sle(n, Sub(end, cur))) {
		x.bufWrite(st, p, arr, cur, n)
		x.setCur(st, iv.id, Add(cur, n))
		x.readEnd(st, iv, False, c)
		return TupleV{Sc{n}, nilErr}
	}
	x.bufWrite(st, p, arr, cur, Sub(end, cur))
	x.setCur(st, iv.id, end)
	x.readEnd(st, iv, True, c)
	return TupleV{Sc{Sub(end, cur)}, x.newError(st, StrV{})}
}

// a single Read delivers any non-empty part of what was asked for
func readSome(x *Exec, st *State, args []Value, c *callCtx) Value {
	iv := args[0].(IfaceV)
	d := args[1].(SliceV)
	arr, cur, end := x.stream(st, iv.id)
	n := Fresh("nread", S64)
	id := Fresh("err", SInt)
	refBound[id] = int64(st.next)
	st.assume(Ule(n, d.len))
	st.assume(Ule(n, Sub(end, cur)))
	st.assume(Implies(Eq(id, Nil), Or(Ult(I64(0), n), Eq(d.len, I64(0)))))
	x.fillSlice(st, d, arr, cur, n)
	x.setCur(st, iv.id, Add(cur, n))
	x.readEnd(st, iv, Ne(id, Nil), c)
	return TupleV{Sc{n}, IfaceV{id: id}}
}

// ---- fmt ----

func (x *Exec) varargs(st *State, v Value) ([]Value, bool) {
	s, ok := v.(SliceV)
	if !ok || !s.len.isBV() || s.len.val > 64 {
		return nil, false
	}
	var out []Value
	for i := uint64(0); i < s.len.val; i++ {
		out = append(out, x.load(st, x.elemPtr(s, I64(int64(i)))))
	}
	return out, true
}

func hasMethod(t types.Type, n string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
	_, ok := o.(*types.Func)
	return ok
}

func (x *Exec) unknownStr(st *State, max int64) StrV {
	s := fromStr(Fresh("text", SStr))
	st.wellFormed(s)
	if max > 0 {
		st.assume(Ule(s.len, I64(max)))
	}
	return s
}

func (x *Exec) fmtArg(st *State, v Value, verb byte) StrV {
	iv, ok := v.(IfaceV)
	if !ok {
		return x.unknownStr(st, 0)
	}
	if iv.dyn == nil {
		if verb == 'v' || verb == 's' {
			return fromStr(App("errtext", SStr, iv.id))
		}
		return x.unknownStr(st, 0)
	}
	if s, ok := iv.val.(StrV); ok && (verb == 'v' || verb == 's') && !hasMethod(iv.dyn, "String") && !hasMethod(iv.dyn, "Error") {
		return s
	}
	if w, _ := intType(iv.dyn); w > 0 && !hasMethod(iv.dyn, "String") && !hasMethod(iv.dyn, "Error") && strings.IndexByte("vdxX", verb) >= 0 {
		return x.unknownStr(st, 24)
	}
	return x.unknownStr(st, 0)
}

func (x *Exec) format(st *State, args []Value) StrV {
	f, ok := args[0].(StrV)
	if !ok {
		return x.unknownStr(st, 0)
	}
	fs, lit := litBytes[strTerm(f)]
	as, known := x.varargs(st, args[1])
	if !lit || !known {
		return x.unknownStr(st, 0)
	}
	out := litStr("")
	cat := func(s StrV) {
		if out.len == I64(0) {
			out = s
			return
		}
		if s.len == I64(0) {
			return
		}
		out = x.concat(st, out, s).(StrV)
	}
	ai := 0
	for len(fs) > 0 {
		i := strings.IndexByte(fs, '%')
		if i < 0 {
			cat(litStr(fs))
			break
		}
		if i > 0 {
			cat(litStr(fs[:i]))
		}
		fs = fs[i+1:]
		if fs == "" {
			return x.unknownStr(st, 0)
		}
		if fs[0] == '%' {
			cat(litStr("%"))
			fs = fs[1:]
			continue
		}
		if ai >= len(as) || !(fs[0] >= 'a' && fs[0] <= 'z') {
			return x.unknownStr(st, 0)
		}
		cat(x.fmtArg(st, as[ai], fs[0]))
		ai++
		fs = fs[1:]
	}
	if ai != len(as) {
		return x.unknownStr(st, 0)
	}
	return out
}

// ---- paths ----

func pjoin(as ...*Term) *Term { return App(fmt.Sprintf("join%d", len(as)), SStr, as...) }

func (x *Exec) pathClean(s StrV) StrV {
	t := strTerm(s)
	if t.op == "app" && t.name == "strcat" && t.args[0] == strLit("/") {
		return fromStr(pjoin(strLit("/"), t.args[1])) // Clean("/"+x) = Join("/", x)
	}
	if t.op == "app" && t.name == "strcat" {
		slash := strLit("/")
		l, r := t.args[0], t.args[1]
		if r == slash {
			return fromStr(pjoin(l, slash)) // Clean(x+"/") = Join(x, "/")
		}
		if l.op == "app" && l.name == "strcat" && l.args[1] == slash {
			// Clean(x+"/"+y) = Join(x, y), or Join("/", y) if x is empty
			a := l.args[0]
			return fromStr(Ite(Eq(a, strLit("")), pjoin(slash, r), pjoin(a, r)))
		}
	}
	return fromStr(App("join1", SStr, t))
}

func withinT(r, q *Term) *Term { return App("within", SBool, r, q) }

func init() {
	axiomGens = append(axiomGens, func(apps []*Term) []*Term {
		var out []*Term
		var ws []*Term
		slash := strLit("/")
		for _, a := range apps {
			switch a.name {
			case "join2":
				p, q := a.args[0], a.args[1]
				// Join(p, Join("/", y)) lies at or below Join(p, "/")
				if q.op == "app" && q.name == "join2" && q.args[0] == slash {
					out = append(out, withinT(pjoin(p, slash), a))
				}
				if q == slash {
					out = append(out, withinT(a, a))
					if p == slash {
						out = append(out, Eq(a, slash))
					}
				}
			case "within":
				ws = append(ws, a)
				r, q := a.args[0], a.args[1]
				// paths in the tree are clean
				out = append(out, Implies(a, Eq(pjoin(q, slash), q)))
				for _, d := range apps {
					if d.op == "app" && d.name == "pathdir" {
						out = append(out, Implies(And(a, Eq(d.args[0], q), Ne(q, r)), withinT(r, d)))
					}
				}
			}
		}
		for _, w1 := range ws {
			for _, w2 := range ws {
				if w1 == w2 {
					continue
				}
				r, q, q2, s := w1.args[0], w1.args[1], w2.args[0], w2.args[1]
				if r == s || q == s {
					continue
				}
				if q == q2 || q2 == pjoin(q, slash) || q2.op == "ite" || q.op == "ite" || q.op == "select" || q2.op == "select" || q.op == "var" {
					out = append(out, Implies(And(w1, w2, Eq(q, q2)), withinT(r, s)))
				}
			}
		}
		return out
	})
	axiomGens = append(axiomGens, func(apps []*Term) []*Term { // bytes of strings made from byte ranges
		var mks, sels []*Term
		for _, a := range apps {
			if a.op == "app" && a.name == "mkstr" {
				mks = append(mks, a)
			}
			if a.op == "select" {
				sels = append(sels, a)
			}
		}
		var out []*Term
		for _, m := range mks {
			for _, s := range sels {
				t, i := s.args[0].args[0], s.args[1]
				out = append(out, Implies(And(Eq(t, m), Ult(i, m.args[2])), Eq(s, Select(m.args[0], Add(m.args[1], i)))))
			}
		}
		return out
	})
}

func hasApp(apps []*Term, t *Term) bool {
	for _, a := range apps {
		if a == t {
			return true
		}
	}
	return false
}

// ---- operating system ----

func fileInfo(method string, s Sort) model {
	return func(x *Exec, st *State, args []Value, c *callCtx) Value {
		iv := args[0].(IfaceV)
		x.nilCheck(st, iv, c.pos)
		t := App("fi."+method, s, iv.id)
		v, _ := x.fromLeaves([]*Term{t}, c.sig.Results().At(0).Type())
		mode := App("fi.Mode", S32, iv.id)
		switch method {
		case "IsDir", "Mode":
			st.assume(Iff(App("fi.IsDir", SBool, iv.id), Ne(Bin("bvand", mode, BV(0x80000000, 32)), BV(0, 32))))
			// a file is not both a directory and a symbolic link
			st.assume(Not(And(App("fi.IsDir", SBool, iv.id), Ne(Bin("bvand", mode, BV(0x08000000, 32)), BV(0, 32)))))
		case "Sys":
			st.assume(Or(Eq(t, Nil), And(App("dyn:*syscall.Stat_t", SBool, t), Ne(App("unbox:*syscall.Stat_t:0", SInt, t), Nil))))
			refBound[t] = 1
		case "Name":
			st.wellFormed(v)
			st.assume(Ule(v.(StrV).len, I64(4096))) // longest path the system can name
		}
		return v
	}
}

// osCall: arbitrary outcome; on failure the first result is nil, on success not.
func osOpen(x *Exec, st *State, args []Value, c *callCtx) Value {
	v := x.freshResult(st, c.name, c.sig).(TupleV)
	st.assume(Iff(Eq(refOf(v[0]), Nil), Ne(refOf(v[1]), Nil)))
	return v
}

func fileBytes(f *Term) *Term { return App("filebytes", SArr(S64, S8), f) }

func init() {
	nothing := func(x *Exec, st *State, args []Value, c *callCtx) Value {
		if c.sig.Results().Len() == 0 {
			return nil
		}
		return x.freshResult(st, c.name, c.sig)
	}
	bufM := func(f func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value) model {
		return func(x *Exec, st *State, args []Value, c *callCtx) Value {
			p := args[0].(PtrV)
			x.nilCheck(st, p, c.pos)
			if len(st.frames) == 0 {
				return nil
			}
			return f(x, st, p, args[1:], c)
		}
	}
	models = map[string]model{
		"bytes.NewBuffer": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			s := args[0].(SliceV)
			if s.base != "E:uint8" {
				unsup("buffer over %s", s.base)
			}
			p := x.alloc(st, c.sig.Results().At(0).Type().(*types.Pointer).Elem())
			x.bufStore(st, p, s.ref, s.off, s.len, s.off)
			if s.off.isBV() && s.cap.isBV() {
				if st.bufCap == nil {
					st.bufCap = map[*Term]bufCap{}
				}
				st.bufCap[p.ref] = bufCap{s.ref, s.off.val + s.cap.val}
			}
			return p
		},
		"bytes.NewBufferString": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			s := args[0].(StrV)
			p := x.alloc(st, c.sig.Results().At(0).Type().(*types.Pointer).Elem())
			r := x.allocBytes(st, Splice(ConstArr(S64, BV(0, 8)), I64(0), s.arr, s.off, s.len))
			x.bufStore(st, p, r, I64(0), s.len, I64(0))
			return p
		},
		"(*bytes.Buffer).Len": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			_, _, n := x.bufParts(st, p)
			return Sc{n}
		}),
		"(*bytes.Buffer).Reset": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, _, _, base := x.bufLoad(st, p)
			x.bufStore(st, p, ref, base, I64(0), base)
			return nil
		}),
		"(*bytes.Buffer).Truncate": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, off, n, base := x.bufLoad(st, p)
			k := args[0].(Sc).t
			x.guard(st, Ule(k, n), "Truncate out of range", c.pos)
			x.bufStore(st, p, ref, Ite(Eq(k, I64(0)), base, off), k, base)
			return nil
		}),
		"(*bytes.Buffer).Bytes": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, off, n := x.bufParts(st, p)
			cp := Fresh("cap", S64)
			st.assume(Ule(n, cp))
			st.assume(Ult(cp, I64(maxLen)))
			return SliceV{ref, off, n, cp, "E:uint8", types.Typ[types.Uint8]}
		}),
		"(*bytes.Buffer).String": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, off, n := x.bufParts(st, p)
			return StrV{arr: x.bytesArr(st, ref), off: off, len: n}
		}),
		"(*bytes.Buffer).Next": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, off, n, base := x.bufLoad(st, p)
			k := args[0].(Sc).t
			x.guard(st, Sle(I64(0), k), "Next with a negative count", c.pos)
			if len(st.frames) == 0 {
				return nil
			}
			if !x.decide(st, c, Ule(k, n)) {
				k = n
			}
			x.bufStore(st, p, ref, Add(off, k), Sub(n, k), base)
			cp := Fresh("cap", S64)
			st.assume(Ule(k, cp))
			st.assume(Ult(cp, I64(maxLen)))
			return SliceV{ref, off, k, cp, "E:uint8", types.Typ[types.Uint8]}
		}),
		"(*bytes.Buffer).Write": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			s := args[0].(SliceV)
			if s.base != "E:uint8" {
				unsup("write from %s", s.base)
			}
			x.bufWrite(st, p, x.bytesArr(st, s.ref), s.off, s.len)
			return TupleV{Sc{s.len}, nilErr}
		}),
		"(*bytes.Buffer).WriteString": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			s := args[0].(StrV)
			st.wellFormed(s)
			x.bufWrite(st, p, s.arr, s.off, s.len)
			return TupleV{Sc{s.len}, nilErr}
		}),
		"(*bytes.Buffer).WriteByte": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			x.bufWrite(st, p, Store(ConstArr(S64, BV(0, 8)), I64(0), args[0].(Sc).t), I64(0), I64(1))
			return nilErr
		}),
		"(*bytes.Buffer).Grow": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			k := args[0].(Sc).t
			x.guard(st, Sle(I64(0), k), "Grow with a negative count", c.pos)
			if len(st.frames) == 0 {
				return nil
			}
			ref, off, n, base := x.bufLoad(st, p)
			old := x.bytesArr(st, ref)
			x.poison(st, ref, off, n, base)
			r := x.allocBytes(st, Splice(ConstArr(S64, BV(0, 8)), I64(0), old, off, n))
			x.bufStore(st, p, r, I64(0), n, I64(0))
			return nil
		}),
		"(*bytes.Buffer).ReadByte": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			ref, off, n, base := x.bufLoad(st, p)
			if x.decide(st, c, Ult(I64(0), n)) {
				x.bufStore(st, p, ref, Add(off, I64(1)), Sub(n, I64(1)), base)
				return TupleV{Sc{Select(x.bytesArr(st, ref), off)}, nilErr}
			}
			x.bufStore(st, p, ref, base, I64(0), base)
			return TupleV{Sc{BV(0, 8)}, x.newError(st, StrV{})}
		}),
		"(*bytes.Buffer).Read": bufM(func(x *Exec, st *State, p PtrV, args []Value, c *callCtx) Value {
			d := args[0].(SliceV)
			ref, off, n, base := x.bufLoad(st, p)
			if x.decide(st, c, Eq(n, I64(0))) {
				x.bufStore(st, p, ref, base, I64(0), base)
				id := Fresh("err", SInt)
				refBound[id] = int64(st.next)
				st.assume(Implies(Ne(d.len, I64(0)), Ne(id, Nil)))
				return TupleV{Sc{I64(0)}, IfaceV{id: id}}
			}
			k := n
			if x.decide(st, c, Ule(d.len, n)) {
				k = d.len
			}
			x.fillSlice(st, d, x.bytesArr(st, ref), off, k)
			x.bufStore(st, p, ref, Add(off, k), Sub(n, k), base)
			return TupleV{Sc{k}, nilErr}
		}),

		"io.ReadFull":          readFull,
		"io.CopyN":             copyN,
		"(io.Reader).Read":     readSome,
		"(io.ReadCloser).Read": readSome,
		"(net.Conn).Read":      readSome,

		"fmt.Sprintf": func(x *Exec, st *State, args []Value, c *callCtx) Value { return x.format(st, args) },
		"fmt.Errorf": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return x.newError(st, x.format(st, args))
		},
		"fmt.Sprint": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			as, ok := x.varargs(st, args[0])
			if ok && len(as) == 1 {
				return x.fmtArg(st, as[0], 'v')
			}
			return x.unknownStr(st, 0)
		},
		"errors.New": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return x.newError(st, args[0].(StrV))
		},
		"(error).Error": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			iv := args[0].(IfaceV)
			x.nilCheck(st, iv, c.pos)
			s := fromStr(App("errtext", SStr, iv.id))
			st.wellFormed(s)
			return s
		},

		"path.Join": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			as, ok := x.varargs(st, args[0])
			if !ok {
				return x.unknownStr(st, 0)
			}
			if len(as) == 1 {
				return x.pathClean(as[0].(StrV))
			}
			var ts []*Term
			for _, a := range as {
				ts = append(ts, strTerm(a.(StrV)))
			}
			return fromStr(pjoin(ts...))
		},
		"path.Clean": func(x *Exec, st *State, args []Value, c *callCtx) Value { return x.pathClean(args[0].(StrV)) },
		"path.Dir": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return fromStr(App("pathdir", SStr, strTerm(args[0].(StrV))))
		},
		"path.Base": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return fromStr(App("pathbase", SStr, strTerm(args[0].(StrV))))
		},
		"path.IsAbs": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			s := args[0].(StrV)
			return Sc{And(Ult(I64(0), s.len), Eq(Select(s.arr, s.off), BV('/', 8)))}
		},

		"sync/atomic.AddUint64": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			p := args[0].(PtrV)
			x.nilCheck(st, p, c.pos)
			// other goroutines may have changed it before and after
			v := Fresh("atomic", S64)
			st.heap["GV:atomicval"] = v
			r := Add(v, args[1].(Sc).t)
			x.store(st, p, Sc{Fresh("atomic", S64)})
			return Sc{r}
		},
		"log.Fatalf":  endProcess,
		"log.Fatal":   endProcess,
		"log.Fatalln": endProcess,
		"os.Exit":     endProcess,

		"(*os.File).ReadAt": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			f, d, off := args[0].(PtrV), args[1].(SliceV), args[2].(Sc).t
			x.nilCheck(st, f, c.pos)
			n := Fresh("n", S64)
			id := Fresh("err", SInt)
			refBound[id] = int64(st.next)
			st.assume(Ule(n, d.len))
			st.assume(Implies(Eq(id, Nil), Eq(n, d.len)))
			st.assume(Implies(Slt(off, I64(0)), And(Ne(id, Nil), Eq(n, I64(0)))))
			old := x.bytesArr(st, d.ref)
			sc := Fresh("scratch", old.sort)
			x.setBytesArr(st, d.ref, Splice(Splice(old, d.off, sc, I64(0), d.len), d.off, fileBytes(f.ref), off, n))
			return TupleV{Sc{n}, IfaceV{id: id}}
		},
		"(*os.File).WriteAt": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			v := x.freshResult(st, c.name, c.sig).(TupleV)
			x.nilCheck(st, args[0].(PtrV), c.pos)
			n := v[0].(Sc).t
			st.assume(Ule(n, args[1].(SliceV).len))
			st.assume(Implies(Eq(refOf(v[1]), Nil), Eq(n, args[1].(SliceV).len)))
			return v
		},
		"(*os.File).Readdir": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			x.nilCheck(st, args[0].(PtrV), c.pos)
			v := x.freshResult(st, c.name, c.sig).(TupleV)
			n := args[1].(Sc).t
			s := v[0].(SliceV)
			st.assume(Implies(Slt(I64(0), n), And(Ule(s.len, n), Implies(Eq(refOf(v[1]), Nil), Ult(I64(0), s.len)))))
			// entries are usable
			e := x.load(st, x.elemPtr(s, I64(0))).(IfaceV)
			st.assume(Implies(Ult(I64(0), s.len), Ne(e.id, Nil)))
			return v
		},
		"(*os.File).Close": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return x.freshResult(st, c.name, c.sig)
		},
		"(*os.File).Seek": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return x.freshResult(st, c.name, c.sig)
		},
		"(*os.File).Sync": nothing,

		"(time.Time).Unix": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return Sc{App("time.Unix", S64, args[0].(Sc).t)}
		},
		"(time.Time).UnixNano": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return Sc{App("time.UnixNano", S64, args[0].(Sc).t)}
		},
		"(time.Time).IsZero": func(x *Exec, st *State, args []Value, c *callCtx) Value { return Sc{Eq(args[0].(Sc).t, Nil)} },
		"time.Unix": func(x *Exec, st *State, args []Value, c *callCtx) Value {
			return Sc{App("timeat", SInt, args[0].(Sc).t, args[1].(Sc).t)}
		},
		"runtime.SetFinalizer": nothing,
	}
	models["filepath.Join"] = models["path.Join"]
	models["path/filepath.Join"] = models["path.Join"]
	models["path/filepath.Clean"] = models["path.Clean"]
	models["path/filepath.Dir"] = models["path.Dir"]
	models["path/filepath.IsAbs"] = models["path.IsAbs"]
	models["path/filepath.Base"] = models["path.Base"]
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		models[n] = nothing
		eventful[n] = true
	}
	for n, s := range map[string]Sort{"IsDir": SBool, "Mode": S32, "ModTime": SInt, "Size": S64, "Name": SStr, "Sys": SInt} {
		models["(io/fs.FileInfo)."+n] = fileInfo(n, s)
	}
	for _, n := range []string{"os.Lstat", "os.Stat", "os.OpenFile", "os.Open", "os.Create", "(*os.File).Stat"} {
		models[n] = osOpen
		eventful[n] = true
	}
}

// endProcess: a call that does not return. Where no panic is allowed, neither is this.
func endProcess(x *Exec, st *State, args []Value, c *callCtx) Value {
	if st.dry == 0 && x.root != nil && x.root.noPanic != nil {
		x.prove(st, False, "no panic: the process is not ended", x.root.noPanic, c.pos)
	}
	st.frames = nil
	return nil
}
