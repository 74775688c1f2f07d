package main

// Contracts of the message codec, generated from the table of 9P2000 message
// formats below (written from the protocol's manual pages, not from the
// repository).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type nativeContract interface {
	requires(x *Exec, st *State, e *specEnv)
	ensures(x *Exec, st *State, e *specEnv)
	invs(x *Exec, ci *cutInfo) []*candInv
	apply(x *Exec, st *State, ct *Contract, args []Value, sig *types.Signature, c *callCtx) Value
}

type fkind string

const (
	fU8    fkind = "u8"
	fU16   fkind = "u16"
	fU32   fkind = "u32"
	fU64   fkind = "u64"
	fStr   fkind = "str"    // 16-bit count, bytes
	fQid   fkind = "qid"    // type u8, version u32, path u64
	fD16   fkind = "data16" // 16-bit count, bytes
	fD32   fkind = "data32" // 32-bit count, bytes
	fNames fkind = "names"  // 16-bit count, strings
	fQids  fkind = "qids"   // 16-bit count, qids
)

type msgKind struct {
	num    int
	fields []fkind
}

var msgs = map[string]msgKind{
	"Tversion": {100, []fkind{fU32, fStr}},
	"Rversion": {101, []fkind{fU32, fStr}},
	"Tattach":  {104, []fkind{fU32, fU32, fStr, fStr}},
	"Rattach":  {105, []fkind{fQid}},
	"Rerror":   {107, []fkind{fStr}},
	"Tflush":   {108, []fkind{fU16}},
	"Rflush":   {109, nil},
	"Twalk":    {110, []fkind{fU32, fU32, fNames}},
	"Rwalk":    {111, []fkind{fQids}},
	"Topen":    {112, []fkind{fU32, fU8}},
	"Ropen":    {113, []fkind{fQid, fU32}},
	"Tcreate":  {114, []fkind{fU32, fStr, fU32, fU8}},
	"Rcreate":  {115, []fkind{fQid, fU32}},
	"Tread":    {116, []fkind{fU32, fU64, fU32}},
	"Rread":    {117, []fkind{fD32}},
	"Twrite":   {118, []fkind{fU32, fU64, fD32}},
	"Rwrite":   {119, []fkind{fU32}},
	"Tclunk":   {120, []fkind{fU32}},
	"Rclunk":   {121, nil},
	"Tremove":  {122, []fkind{fU32}},
	"Rremove":  {123, nil},
	"Tstat":    {124, []fkind{fU32}},
	"Rstat":    {125, []fkind{fD16}},
	"Twstat":   {126, []fkind{fU32, fD16}},
	"Rwstat":   {127, nil},
}

// stat(5) after the leading size[2]
var dirFields = []fkind{fU16, fU32, fQid, fU32, fU32, fU32, fU64, fStr, fStr, fStr, fStr}

func msgNames() []string {
	var ns []string
	for n := range msgs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// content of a field, independent of where it is stored
type content struct {
	k   fkind
	t   *Term    // integers
	s   StrV     // strings and data
	q   [3]*Term // qid
	n   *Term    // lists
	str func(j *Term) StrV
	qid func(j *Term) [3]*Term
	raw []*Term // identifying terms
}

func width(k fkind) int {
	return map[fkind]int{fU8: 8, fU16: 16, fU32: 32, fU64: 64}[k]
}

func (x *Exec) contentOf(st *State, v Value, k fkind) content {
	c := content{k: k}
	switch k {
	case fU8, fU16, fU32, fU64:
		s, ok := v.(Sc)
		if !ok || s.t.sort.width() != width(k) {
			unsup("field is not a %s", k)
		}
		c.t = s.t
		c.raw = []*Term{c.t}
	case fStr:
		s, ok := v.(StrV)
		if !ok {
			unsup("field is not a string")
		}
		c.s = s
		c.raw = []*Term{strTerm(s)}
	case fD16, fD32:
		switch s := v.(type) {
		case SliceV:
			if s.base != "E:uint8" {
				unsup("field is not bytes")
			}
			c.s = StrV{arr: x.bytesArr(st, s.ref), off: s.off, len: s.len}
		case StrV:
			c.s = s
		default:
			unsup("field is not bytes")
		}
		c.raw = []*Term{c.s.arr, c.s.off, c.s.len}
	case fQid:
		s, ok := v.(StructV)
		if !ok || len(s.fs) != 3 {
			unsup("field is not a qid")
		}
		c.q = qidTerms(s)
		c.raw = c.q[:]
	case fNames:
		s, ok := v.(SliceV)
		if !ok || s.base != "E:string" {
			unsup("field is not a list of names")
		}
		arr := Select(st.comp("E:string", compSort(true, SStr)), s.ref)
		c.n = s.len
		c.str = func(j *Term) StrV { return fromStr(Select(arr, Add(s.off, j))) }
		c.raw = []*Term{arr, s.off, s.len}
	case fQids:
		s, ok := v.(SliceV)
		if !ok {
			unsup("field is not a list of qids")
		}
		ls := leafSpecs(s.base, s.elem)
		if len(ls) != 3 {
			unsup("field is not a list of qids")
		}
		var arrs []*Term
		for _, l := range ls {
			arrs = append(arrs, Select(st.comp(l.key, compSort(true, l.sort)), s.ref))
		}
		order := qidOrder(s.elem)
		c.n = s.len
		c.qid = func(j *Term) [3]*Term {
			var q [3]*Term
			for i := range q {
				q[i] = Select(arrs[order[i]], Add(s.off, j))
			}
			return q
		}
		c.raw = append(append([]*Term(nil), arrs...), s.off, s.len)
	}
	return c
}

// qidOrder: positions of Type, Version, Path in the struct
func qidOrder(t types.Type) [3]int {
	st := t.Underlying().(*types.Struct)
	var o [3]int
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Type":
			o[0] = i
		case "Version":
			o[1] = i
		case "Path":
			o[2] = i
		}
	}
	return o
}
func qidTerms(s StructV) [3]*Term {
	o := qidOrder(s.typ)
	var q [3]*Term
	for i := range q {
		q[i] = s.fs[o[i]].(Sc).t
	}
	return q
}

// ---- positions in lists ----

func init() {
	// npos(names, off, base, j): where the j-th name starts when encoding
	recDefs["npos"] = recDef{
		base: func(a []*Term) *Term { return a[2] },
		step: func(a []*Term, j, prev *Term) *Term {
			return Add(prev, I64(2), fromStr(Select(a[0], Add(a[1], j))).len)
		},
	}
	// spos(bytes, off, base, j): where the j-th string starts when decoding
	recDefs["spos"] = recDef{
		base: func(a []*Term) *Term { return a[2] },
		step: func(a []*Term, j, prev *Term) *Term {
			return Add(prev, I64(2), ZExt(le(a[0], Add(a[1], prev), 2), 64))
		},
	}
}
func npos(c content, base int64, j *Term) *Term {
	return App("npos", S64, c.raw[0], c.raw[1], I64(base), j)
}
func spos(S StrV, base int64, j *Term) *Term {
	return App("spos", S64, S.arr, S.off, I64(base), j)
}

// ---- definitions ----

func allJ(depth int, n *Term, f func(j *Term) *Term) *Term {
	j := boundVar(S64, depth)
	return ForallT(j, Implies(Ult(j, n), f(j)))
}

func bytesAt(S StrV, pos *Term, s StrV, depth int) *Term {
	if s.len.isBV() && s.len.val <= 64 {
		var cs []*Term
		for j := int64(0); j < int64(s.len.val); j++ {
			cs = append(cs, Eq(Select(S.arr, Add(S.off, pos, I64(j))), Select(s.arr, Add(s.off, I64(j)))))
		}
		return And(cs...)
	}
	return allJ(depth, s.len, func(j *Term) *Term {
		return Eq(Select(S.arr, Add(S.off, pos, j)), Select(s.arr, Add(s.off, j)))
	})
}

func qidAt(S StrV, pos *Term, q [3]*Term) *Term {
	return And(Eq(le(S.arr, Add(S.off, pos), 1), q[0]), Eq(le(S.arr, Add(S.off, pos, I64(1)), 4), q[1]), Eq(le(S.arr, Add(S.off, pos, I64(5)), 8), q[2]))
}

func fits1(c content) *Term {
	switch c.k {
	case fStr, fD16:
		return Ule(c.s.len, I64(0xFFFF))
	case fD32:
		return Ule(c.s.len, I64(0xFFFFFFFF-64))
	case fQids:
		return Ule(c.n, I64(0xFFFF))
	case fNames:
		return And(Ule(c.n, I64(0xFFFF)), allJ(0, c.n, func(j *Term) *Term { return Ule(c.str(j).len, I64(0xFFFF)) }))
	}
	return True
}

type part struct {
	name string
	t    *Term
}

// layout gives the conditions for the bytes of S from pos on to be the
// encoding of the fields, and the position after it.
func layout(S StrV, pos *Term, cs []content) (ps []part, end *Term) {
	for i, c := range cs {
		nm := fmt.Sprintf("field %d (%s)", i+1, c.k)
		at := Add(S.off, pos)
		switch c.k {
		case fU8, fU16, fU32, fU64:
			w := width(c.k) / 8
			ps = append(ps, part{nm, Eq(le(S.arr, at, w), c.t)})
			pos = Add(pos, I64(int64(w)))
		case fStr, fD16:
			ps = append(ps, part{nm + " count", Eq(ZExt(le(S.arr, at, 2), 64), c.s.len)})
			ps = append(ps, part{nm + " bytes", bytesAt(S, Add(pos, I64(2)), c.s, 0)})
			pos = Add(pos, I64(2), c.s.len)
		case fD32:
			ps = append(ps, part{nm + " count", Eq(ZExt(le(S.arr, at, 4), 64), c.s.len)})
			ps = append(ps, part{nm + " bytes", bytesAt(S, Add(pos, I64(4)), c.s, 0)})
			pos = Add(pos, I64(4), c.s.len)
		case fQid:
			ps = append(ps, part{nm, qidAt(S, pos, c.q)})
			pos = Add(pos, I64(13))
		case fQids:
			ps = append(ps, part{nm + " count", Eq(ZExt(le(S.arr, at, 2), 64), c.n)})
			p0 := Add(pos, I64(2))
			ps = append(ps, part{nm + " elements", allJ(0, c.n, func(j *Term) *Term { return qidAt(S, Add(p0, MulC(13, j)), c.qid(j)) })})
			pos = Add(p0, MulC(13, c.n))
		case fNames:
			ps = append(ps, part{nm + " count", Eq(ZExt(le(S.arr, at, 2), 64), c.n)})
			base := Add(pos, I64(2))
			if !base.isBV() {
				unsup("list of names at a variable position")
			}
			b := int64(base.val)
			ps = append(ps, part{nm + " elements", allJ(0, c.n, func(j *Term) *Term { return nameAt(S, c, b, j, 1) })})
			pos = npos(c, b, c.n)
		}
	}
	return ps, pos
}

func nameAt(S StrV, c content, base int64, j *Term, depth int) *Term {
	p := npos(c, base, j)
	s := c.str(j)
	return And(Eq(ZExt(le(S.arr, Add(S.off, p), 2), 64), s.len), bytesAt(S, Add(p, I64(2)), s, depth))
}

// fullLayout: S is exactly one message of this kind.
func fullLayout(kind string, S StrV, tag *Term, cs []content) []part {
	m := msgs[kind]
	ps := []part{{"type byte", Eq(Select(S.arr, Add(S.off, I64(4))), BV(uint64(m.num), 8))},
		{"tag", Eq(le(S.arr, Add(S.off, I64(5)), 2), tag)}}
	fp, end := layout(S, I64(7), cs)
	ps = append(ps, fp...)
	ps = append(ps, part{"total length", Eq(S.len, end)})
	ps = append(ps, part{"size field", Eq(ZExt(le(S.arr, S.off, 4), 64), S.len)})
	return ps
}

// decode gives the validity conditions of a body and the contents it stands
// for, from position pos on.
func decode(S StrV, pos *Term, ks []fkind) (conds []*Term, cs []content, end *Term) {
	need := func(p *Term) { conds = append(conds, Ule(p, S.len)) }
	for _, k := range ks {
		at := Add(S.off, pos)
		c := content{k: k}
		switch k {
		case fU8, fU16, fU32, fU64:
			w := width(k) / 8
			c.t = le(S.arr, at, w)
			pos = Add(pos, I64(int64(w)))
			need(pos)
		case fStr, fD16, fD32:
			w := 2
			if k == fD32 {
				w = 4
			}
			n := ZExt(le(S.arr, at, w), 64)
			pos = Add(pos, I64(int64(w)))
			need(pos)
			c.s = StrV{arr: S.arr, off: Add(S.off, pos), len: n}
			pos = Add(pos, n)
			need(pos)
		case fQid:
			c.q = qidBytes(S, pos)
			pos = Add(pos, I64(13))
			need(pos)
		case fQids:
			n := ZExt(le(S.arr, at, 2), 64)
			pos = Add(pos, I64(2))
			need(pos)
			p0 := pos
			c.n = n
			c.qid = func(j *Term) [3]*Term { return qidBytes(S, Add(p0, MulC(13, j))) }
			pos = Add(pos, MulC(13, n))
			need(pos)
		case fNames:
			n := ZExt(le(S.arr, at, 2), 64)
			pos = Add(pos, I64(2))
			need(pos)
			if !pos.isBV() {
				unsup("list of names at a variable position")
			}
			b := int64(pos.val)
			c.n = n
			c.str = func(j *Term) StrV { return strOf(S, b, j) }
			conds = append(conds, allJ(0, n, func(j *Term) *Term { return strFits(S, b, j) }))
			pos = spos(S, b, n)
			need(pos)
		}
		cs = append(cs, c)
	}
	return conds, cs, pos
}

func strOf(S StrV, base int64, j *Term) StrV {
	p := spos(S, base, j)
	return StrV{arr: S.arr, off: Add(S.off, p, I64(2)), len: ZExt(le(S.arr, Add(S.off, p), 2), 64)}
}
func strFits(S StrV, base int64, j *Term) *Term {
	return And(Ule(Add(spos(S, base, j), I64(2)), S.len), Ule(spos(S, base, Add(j, I64(1))), S.len))
}

func qidBytes(S StrV, pos *Term) [3]*Term {
	return [3]*Term{le(S.arr, Add(S.off, pos), 1), le(S.arr, Add(S.off, pos, I64(1)), 4), le(S.arr, Add(S.off, pos, I64(5)), 8)}
}

func strSame(a, b StrV, depth int) *Term {
	if a.arr == b.arr && a.off == b.off && a.len == b.len {
		return True
	}
	return And(Eq(a.len, b.len), allJ(depth, b.len, func(j *Term) *Term {
		return Eq(Select(a.arr, Add(a.off, j)), Select(b.arr, Add(b.off, j)))
	}))
}

// sameContent: the value a is what the bytes d stand for.
func sameContent(a, d content) *Term {
	switch a.k {
	case fU8, fU16, fU32, fU64:
		return Eq(a.t, d.t)
	case fStr, fD16, fD32:
		return strSame(a.s, d.s, 0)
	case fQid:
		return And(Eq(a.q[0], d.q[0]), Eq(a.q[1], d.q[1]), Eq(a.q[2], d.q[2]))
	case fQids:
		return And(Eq(a.n, d.n), allJ(0, d.n, func(j *Term) *Term {
			p, q := a.qid(j), d.qid(j)
			return And(Eq(p[0], q[0]), Eq(p[1], q[1]), Eq(p[2], q[2]))
		}))
	case fNames:
		return And(Eq(a.n, d.n), allJ(0, d.n, func(j *Term) *Term { return strSame(a.str(j), d.str(j), 1) }))
	}
	return False
}

// ---- closed forms used by callers ----

func rawOf(cs []content) []*Term {
	var out []*Term
	for _, c := range cs {
		out = append(out, c.raw...)
	}
	return out
}

func closedLayout(kind string, S StrV, tag *Term, cs []content) *Term {
	args := append([]*Term{S.arr, S.off, S.len}, tag)
	return App("layout:"+kind, SBool, append(args, rawOf(cs)...)...)
}
func closedValid(kind string, S StrV) *Term {
	return App("bodyvalid:"+kind, SBool, S.arr, S.off, S.len)
}

// closedField: field i of the body S, as opaque functions of the body.
func closedField(kind string, i int, k fkind, S StrV) content {
	f := func(n string, s Sort) *Term {
		return App(fmt.Sprintf("dec:%s:%d%s", kind, i, n), s, S.arr, S.off, S.len)
	}
	c := content{k: k}
	switch k {
	case fU8, fU16, fU32, fU64:
		c.t = f("", SBV(width(k)))
	case fStr:
		c.s = fromStr(f("", SStr))
	case fD16, fD32:
		c.s = StrV{arr: f("a", SArr(S64, S8)), off: I64(0), len: f("n", S64)}
	case fQid:
		c.q = [3]*Term{f("t", S8), f("v", S32), f("p", S64)}
	case fNames:
		c.n = f("n", S64)
		a := f("a", SArr(S64, SStr))
		c.str = func(j *Term) StrV { return fromStr(Select(a, j)) }
	case fQids:
		c.n = f("n", S64)
		t, v, p := f("t", SArr(S64, S8)), f("v", SArr(S64, S32)), f("p", SArr(S64, S64))
		c.qid = func(j *Term) [3]*Term { return [3]*Term{Select(t, j), Select(v, j), Select(p, j)} }
	}
	return c
}

// closedSame compares a value with an opaque field.
func closedSame(a, d content) *Term {
	switch a.k {
	case fStr:
		return Eq(strTerm(a.s), strTerm(d.s))
	case fNames:
		return And(Eq(a.n, d.n), allJ(0, d.n, func(j *Term) *Term { return Eq(strTerm(a.str(j)), strTerm(d.str(j))) }))
	}
	return sameContent(a, d)
}

// fieldValue builds a Go value of type t holding the opaque field d.
func (x *Exec) fieldValue(st *State, d content, t types.Type) Value {
	switch d.k {
	case fU8, fU16, fU32, fU64:
		if w, _ := intType(t); w != width(d.k) {
			unsup("result of type %s for a %s", t, d.k)
		}
		return Sc{d.t}
	case fStr:
		st.assume(Ule(d.s.len, I64(0xFFFF)))
		return d.s
	case fQid:
		o := qidOrder(t)
		sv := x.zero(t).(StructV)
		for i := range o {
			sv.fs[o[i]] = Sc{d.q[i]}
		}
		return sv
	}
	v := x.fresh(st, "dec", t).(SliceV)
	n := d.n
	if n == nil {
		n = d.s.len
	}
	v.len = n
	st.wellFormed(v)
	st.assume(Ule(n, I64(0xFFFFFFFF)))
	st.assume(closedSame(x.contentOf(st, v, d.k), d))
	return v
}

// ---- the contracts ----

type codecContract struct {
	kind   string
	un     bool // Unmarshal
	dir    bool
	fields []fkind
}

func (c *codecContract) label(s string) string { return s }

func (x *Exec) bufContent(st *State, p PtrV) StrV {
	ref, off, n := x.bufParts(st, p)
	return StrV{arr: x.bytesArr(st, ref), off: off, len: n}
}

// the functions' parameters in order (after b and t for messages)
func (c *codecContract) args(x *Exec, fn func(i int) Value, n int) []Value {
	var vs []Value
	for i := 0; i < n; i++ {
		vs = append(vs, fn(i))
	}
	return vs
}

func dirValues(v Value) []Value {
	sv := v.(StructV)
	byName := map[string]Value{}
	st := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		byName[st.Field(i).Name()] = sv.fs[i]
	}
	var out []Value
	for _, n := range dirOrder {
		f, ok := byName[n]
		if !ok {
			unsup("no field %s in a directory entry", n)
		}
		out = append(out, f)
	}
	return out
}

var dirOrder = []string{"Type", "Dev", "QID", "Mode", "Atime", "Mtime", "Length", "Name", "User", "Group", "ModUser"}

func (c *codecContract) vals(e *specEnv) (b PtrV, tag *Term, vs []Value) {
	fn := e.x.rootSt.fn
	ps := fn.Params
	get := func(i int) Value { return e.x.rootSt.params[fmt.Sprintf("p%d", i)].v }
	b = get(0).(PtrV)
	if c.un {
		return
	}
	i := 1
	if !c.dir {
		tag = get(1).(Sc).t
		i = 2
	}
	for ; i < len(ps); i++ {
		vs = append(vs, get(i))
	}
	if c.dir {
		vs = dirValues(vs[0])
	}
	return
}

func (c *codecContract) contents(x *Exec, st *State, vs []Value) []content {
	if len(vs) != len(c.fields) {
		unsup("%s: %d fields, the protocol has %d", c.kind, len(vs), len(c.fields))
	}
	var cs []content
	for i, k := range c.fields {
		cs = append(cs, x.contentOf(st, vs[i], k))
	}
	return cs
}

func (c *codecContract) pre(x *Exec, st *State, b PtrV, vs []Value) []part {
	ps := []part{{"buffer is not nil", Ne(b.ref, Nil)}}
	if c.un {
		return ps
	}
	cs := c.contents(x, st, vs)
	sum := I64(0)
	for i, k := range c.fields {
		ps = append(ps, part{fmt.Sprintf("field %d fits the format", i+1), fits1(cs[i])})
		switch k {
		case fD16, fD32:
			if s, ok := vs[i].(SliceV); ok {
				ref, _, _ := x.bufParts(st, b)
				ps = append(ps, part{fmt.Sprintf("field %d is not stored in the buffer", i+1), Or(Ne(s.ref, ref), Eq(s.len, I64(0)))})
			}
		case fNames:
			ps = append(ps, part{"names fit one message", And(Ult(npos(cs[i], 17, cs[i].n), I64(1<<32)),
				allJ(0, cs[i].n, func(j *Term) *Term { return Ult(npos(cs[i], 17, j), I64(1<<32)) }))})
		}
		if k == fStr {
			sum = Add(sum, cs[i].s.len)
		}
	}
	if c.dir {
		ps = append(ps, part{"the entry fits its size field", Ule(sum, I64(0xFFFF-2-47+2))})
	}
	return ps
}

func (c *codecContract) requires(x *Exec, st *State, e *specEnv) {
	b, _, vs := c.vals(e)
	if b.ref != Nil {
		x.bufParts(st, b)
	}
	for _, p := range c.pre(x, st, b, vs) {
		st.assume(p.t)
	}
}

func (c *codecContract) encProps() []string {
	if c.dir {
		return []string{"C04"}
	}
	return []string{"C01"}
}

func (c *codecContract) ensures(x *Exec, st *State, e *specEnv) {
	b, tag, vs := c.vals(e)
	old := x.rootSt.oldH
	inOld := func(f func()) {
		cur := st.heap
		st.heap = copyHeap(old)
		f()
		st.heap = cur
	}
	if !c.un {
		var cs []content
		inOld(func() { cs = c.contents(x, st, vs) })
		S := x.bufContent(st, b)
		var ps []part
		if c.dir {
			fp, end := layout(S, I64(2), cs)
			ps = append(fp, part{"total length", Eq(S.len, end)}, part{"size field", Eq(Add(ZExt(le(S.arr, S.off, 2), 64), I64(2)), S.len)})
		} else {
			ps = fullLayout(c.kind, S, tag, cs)
		}
		for _, p := range ps {
			x.prove(st, p.t, "ensures encoding: "+p.name, c.encProps(), 0)
		}
		x.frame(st, b, c.encProps(), true)
		return
	}
	var S StrV
	inOld(func() { S = x.bufContent(st, b) })
	res := e.resVals
	start := I64(2)
	nf := len(c.fields)
	conds, ds, end := decode(S, start, c.fields)
	pGood, pBad := []string{"C02"}, []string{"C03"}
	if c.dir {
		pGood, pBad = []string{"C04"}, []string{"C04"}
	}
	var err *Term
	var vals []Value
	if c.dir {
		if len(res) != 2 {
			unsup("results of Unmarshaldir")
		}
		vals = dirValues(res[0])
		err = refOf(res[1])
	} else {
		if len(res) != nf+2 {
			unsup("%s: %d results", c.kind, len(res))
		}
		vals = res[:nf]
		err = refOf(res[nf+1])
		conds = append([]*Term{Ule(I64(2), S.len)}, conds...)
		conds = append(conds, Eq(end, S.len))
		t := res[nf].(Sc).t
		x.prove(st, Implies(Ule(I64(2), S.len), Eq(t, le(S.arr, S.off, 2))), "ensures the tag is the message's", []string{"C02", "C03"}, 0)
	}
	ok := Eq(err, Nil)
	valid := And(conds...)
	x.prove(st, Implies(valid, ok), "ensures a valid body is accepted", pGood, 0)
	for i, cd := range conds {
		x.prove(st, Implies(ok, cd), fmt.Sprintf("ensures an invalid body is rejected (condition %d)", i+1), pBad, 0)
	}
	if v, _ := x.valid(st, Ne(err, Nil)); v {
		x.frame(st, b, append(pGood, pBad...), false)
		return
	}
	st.assume(ok)
	st.assume(valid)
	for i := range ds {
		a := x.contentOf(st, vals[i], c.fields[i])
		x.prove(st, sameContent(a, ds[i]), fmt.Sprintf("ensures field %d (%s) is what was encoded", i+1, c.fields[i]), pGood, 0)
	}
	ref0, off0, n0 := x.bufPartsIn(st, old, b)
	_ = ref0
	ref, off, n := x.bufParts(st, b)
	if c.dir {
		x.prove(st, And(Eq(ref, ref0), Eq(off, Add(off0, end)), Eq(n, Sub(n0, end))), "ensures exactly what follows the entry is left unread", pGood, 0)
	} else {
		x.prove(st, Eq(n, I64(0)), "ensures the whole message is consumed", pGood, 0)
	}
	x.frame(st, b, append(pGood, pBad...), false)
}

func (x *Exec) bufPartsIn(st *State, h map[string]*Term, p PtrV) (a, b, c *Term) {
	cur := st.heap
	st.heap = copyHeap(h)
	a, b, c = x.bufParts(st, p)
	st.heap = cur
	return
}

func copyHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

// frame: nothing that existed before is changed except the buffer itself (and,
// when storing, its storage).
func (x *Exec) frame(st *State, b PtrV, props []string, storage bool) {
	old := x.rootSt.oldH
	ref0, _, _ := x.bufPartsIn(st, old, b)
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := ""
	for _, k := range keys {
		if strings.HasPrefix(k, "G:chancap") || strings.HasPrefix(k, "I:") || strings.HasPrefix(k, "GV:") {
			continue
		}
		o, ok := old[k]
		if !ok {
			o = Var("H0:"+k, st.heap[k].sort)
		}
		refs, whole := diffRefs(st.heap[k], o)
		if whole {
			bad = k
			break
		}
		for _, r := range refs {
			if r.op == "int" && int64(r.val) > 0 {
				continue
			}
			if strings.HasPrefix(k, "bytes.Buffer#") && r == b.ref {
				continue
			}
			if k == "E:uint8" && storage && r == ref0 {
				continue
			}
			if ok, _ := x.valid(st, Eq(Select(st.heap[k], r), Select(o, r))); ok {
				continue
			}
			bad = k + " at " + r.String()
		}
	}
	x.prove(st, Bool(bad == ""), "changes nothing but the buffer", props, 0)
	if bad != "" && debugFail {
		fmt.Println("frame:", bad)
	}
}

// loop invariants of the list codecs
func (c *codecContract) invs(x *Exec, ci *cutInfo) []*candInv {
	li := -1
	for i, k := range c.fields {
		if k == fNames || k == fQids {
			li = i
		}
	}
	if li < 0 {
		return nil
	}
	names := c.fields[li] == fNames
	props := []string{"C01"}
	if c.un {
		props = []string{"C02", "C03"}
	}
	guarded := func(f func(st *State, k *Term) *Term) func(st *State, k *Term) (*Term, bool) {
		return func(st *State, k *Term) (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case unsupported, specErr:
						t, ok = nil, false
						return
					}
					panic(r)
				}
			}()
			return f(st, k), true
		}
	}
	var out []*candInv
	add := func(n string, f func(st *State, k *Term) *Term) {
		out = append(out, &candInv{name: n, props: props, user: true, at: guarded(f)})
	}
	buf := func() PtrV { return x.rootSt.params["p0"].v.(PtrV) }
	if !c.un {
		list := func(st *State) content {
			cur := st.heap
			st.heap = copyHeap(x.rootSt.oldH)
			defer func() { st.heap = cur }()
			return x.contentOf(st, x.rootSt.params[fmt.Sprintf("p%d", li+2)].v, c.fields[li])
		}
		base := int64(9)
		if names {
			base = 17
		}
		pos := func(st *State, k *Term) *Term {
			if names {
				return npos(list(st), base, k)
			}
			return Add(I64(base), MulC(13, k))
		}
		add("k within the list", func(st *State, k *Term) *Term { return Ule(k, list(st).n) })
		add("bytes so far", func(st *State, k *Term) *Term {
			return And(Eq(x.bufContent(st, buf()).len, pos(st, k)), Ule(I64(base), pos(st, k)), Ult(pos(st, k), I64(1<<32)))
		})
		add("header kept", func(st *State, k *Term) *Term {
			S := x.bufContent(st, buf())
			cur := st.heap
			st.heap = copyHeap(ci.entryHeap)
			S0 := x.bufContent(st, buf())
			st.heap = cur
			var cs []*Term
			for i := int64(0); i < base; i++ {
				cs = append(cs, Eq(Select(S.arr, Add(S.off, I64(i))), Select(S0.arr, Add(S0.off, I64(i)))))
			}
			return And(cs...)
		})
		if names {
			add("elements end before the next", func(st *State, k *Term) *Term {
				l := list(st)
				return allJ(0, k, func(j *Term) *Term {
					return And(Ule(Add(npos(l, base, j), I64(2), l.str(j).len), npos(l, base, k)), Ule(I64(base), npos(l, base, j)))
				})
			})
		}
		add("elements so far", func(st *State, k *Term) *Term {
			S := x.bufContent(st, buf())
			l := list(st)
			return allJ(0, k, func(j *Term) *Term {
				if names {
					return nameAt(S, l, base, j, 1)
				}
				return qidAt(S, Add(I64(base), MulC(13, j)), l.qid(j))
			})
		})
		return out
	}
	body := func(st *State) StrV {
		cur := st.heap
		st.heap = copyHeap(x.rootSt.oldH)
		defer func() { st.heap = cur }()
		return x.bufContent(st, buf())
	}
	base := int64(4)
	if names {
		base = 12
	}
	pos := func(st *State, k *Term) *Term {
		if names {
			return spos(body(st), base, k)
		}
		return Add(I64(base), MulC(13, k))
	}
	nlist := func(st *State) *Term {
		S := body(st)
		return ZExt(le(S.arr, Add(S.off, I64(base-2)), 2), 64)
	}
	add("k within the list", func(st *State, k *Term) *Term { return Ule(k, nlist(st)) })
	add("bytes consumed", func(st *State, k *Term) *Term {
		ref0, off0, n0 := x.bufPartsIn(st, x.rootSt.oldH, buf())
		ref, off, n := x.bufParts(st, buf())
		p := pos(st, k)
		return And(Eq(ref, ref0), Eq(off, Add(off0, p)), Eq(n, Sub(n0, p)), Ule(p, n0))
	})
	elemT := func() types.Type {
		rs := x.rootSt.fn.Signature.Results()
		return rs.At(li).Type().Underlying().(*types.Slice).Elem()
	}
	local := func(st *State) content {
		e := &specEnv{x: x, st: st, frame: st.top(), loop: ci}
		return x.contentOf(st, e.localSlice(elemT()), c.fields[li])
	}
	add("list long enough", func(st *State, k *Term) *Term { return Ule(k, local(st).n) })
	add("list length grows", func(st *State, k *Term) *Term { return Eq(k, local(st).n) })
	add("elements so far", func(st *State, k *Term) *Term {
		S := body(st)
		l := local(st)
		return allJ(0, k, func(j *Term) *Term {
			if names {
				return And(strFits(S, base, j), strSame(l.str(j), strOf(S, base, j), 1))
			}
			q, d := l.qid(j), qidBytes(S, Add(I64(base), MulC(13, j)))
			return And(Eq(q[0], d[0]), Eq(q[1], d[1]), Eq(q[2], d[2]))
		})
	})
	if names {
		add("positions in range", func(st *State, k *Term) *Term {
			S := body(st)
			return allJ(0, k, func(j *Term) *Term { return strFits(S, base, j) })
		})
	}
	return out
}

// apply: the effect of a call, for callers.
func (c *codecContract) apply(x *Exec, st *State, ct *Contract, args []Value, sig *types.Signature, cc *callCtx) Value {
	b := args[0].(PtrV)
	var props []string
	if x.root != nil {
		props = sortedKeys(x.root.props)
	}
	if !c.un {
		var tag *Term
		vs := args[1:]
		if c.dir {
			vs = dirValues(args[1])
		} else {
			tag = args[1].(Sc).t
			vs = args[2:]
		}
		for _, p := range c.pre(x, st, b, vs) {
			x.prove(st, p.t, "precondition of "+ct.name+": "+p.name, props, cc.pos)
			st.assume(p.t)
		}
		cs := c.contents(x, st, vs)
		ref, off, n, base := x.bufLoad(st, b)
		_, _ = off, n
		if ref != Nil { // the old storage is overwritten from its start
			old := x.bytesArr(st, ref)
			x.setBytesArr(st, ref, Splice(Fresh("stale", old.sort), I64(0), old, I64(0), base))
		}
		arr := Fresh("msg", SArr(S64, S8))
		ln := Fresh("msglen", S64)
		st.assume(Ult(ln, I64(maxLen)))
		r := x.allocBytes(st, arr)
		x.bufStore(st, b, r, I64(0), ln, I64(0))
		S := StrV{arr: arr, off: I64(0), len: ln}
		if c.dir {
			st.assume(App("dirlayout", SBool, append([]*Term{arr, I64(0), ln}, rawOf(cs)...)...))
		} else {
			st.assume(closedLayout(c.kind, S, tag, cs))
			// facts of the layout callers may need
			st.assume(App("ismsg:"+c.kind, SBool, arr, I64(0), ln))
			st.assume(App("ismsg:"+c.kind[:1], SBool, arr, I64(0), ln))
			st.assume(Ule(I64(7), ln))
			st.assume(Eq(Select(arr, I64(4)), BV(uint64(msgs[c.kind].num), 8)))
			st.assume(Eq(le(arr, I64(5), 2), tag))
			st.assume(Eq(ZExt(le(arr, I64(0), 4), 64), ln))
		}
		e := x.event(st, ct.name, args, nil, cc.pos)
		_ = e
		return nil
	}
	x.prove(st, Ne(b.ref, Nil), "precondition of "+ct.name+": buffer is not nil", props, cc.pos)
	S := x.bufContent(st, b)
	ref, off, n, base := x.bufLoad(st, b)
	err := Fresh("err", SInt)
	refBound[err] = int64(st.next)
	ok := Eq(err, Nil)
	// how much is consumed
	left := Fresh("left", S64)
	st.assume(Ule(left, n))
	var out TupleV
	if c.dir {
		valid := App("dirvalid", SBool, S.arr, S.off, S.len)
		st.assume(Eq(ok, valid))
		t := sig.Results().At(0).Type()
		sv := x.zero(t).(StructV)
		tt := t.Underlying().(*types.Struct)
		for i, nm := range dirOrder {
			d := closedField("dir", i, dirFields[i], S)
			for j := 0; j < tt.NumFields(); j++ {
				if tt.Field(j).Name() == nm {
					sv.fs[j] = x.fieldValue(st, d, tt.Field(j).Type())
				}
			}
		}
		// on failure the fields are unspecified
		fv := x.fresh(st, "dir", t)
		la, lb := x.toLeaves(sv, t), x.toLeaves(fv, t)
		var ls []*Term
		for i := range la {
			ls = append(ls, Ite(ok, la[i], lb[i]))
		}
		v, _ := x.fromLeaves(ls, t)
		out = TupleV{v, IfaceV{id: err}}
		x.bufStore(st, b, ref, Add(off, Sub(n, left)), left, base)
	} else {
		st.assume(Eq(ok, closedValid(c.kind, S)))
		for i, k := range c.fields {
			t := sig.Results().At(i).Type()
			d := closedField(c.kind, i, k, S)
			v := x.fieldValue(st, d, t)
			fv := x.fresh(st, "bad", t)
			la, lb := x.toLeaves(v, t), x.toLeaves(fv, t)
			var ls []*Term
			for i := range la {
				ls = append(ls, Ite(ok, la[i], lb[i]))
			}
			w, _ := x.fromLeaves(ls, t)
			st.wellFormed(w)
			out = append(out, w)
		}
		tag := Fresh("tag", S16)
		st.assume(Implies(Ule(I64(2), S.len), Eq(tag, le(S.arr, S.off, 2))))
		st.assume(Implies(ok, And(Ule(I64(2), S.len), Eq(left, I64(0)))))
		out = append(out, Sc{tag}, IfaceV{id: err})
		x.bufStore(st, b, ref, Add(off, Sub(n, left)), left, base)
	}
	x.event(st, ct.name, args, out, cc.pos)
	return out
}

// codecContracts adds the generated contracts to the specification.
func codecContracts(sp *Spec) {
	add := func(name string, c *codecContract, np []string) {
		ct := &Contract{name: name, native: c, use: true, props: map[string]bool{}, file: "codec table"}
		ct.noPanic = np
		ct.terminates = np
		for _, p := range np {
			ct.props[p] = true
		}
		sp.contracts[name] = ct
		sp.order = append(sp.order, name)
	}
	for _, k := range msgNames() {
		add("protocol.Marshal"+k+"Pkt", &codecContract{kind: k, fields: msgs[k].fields}, []string{"C01"})
		add("protocol.Unmarshal"+k+"Pkt", &codecContract{kind: k, fields: msgs[k].fields, un: true}, []string{"C02", "C03"})
	}
	for _, k := range append(msgNames(), "dir") {
		c := &codecContract{kind: k, fields: msgs[k].fields}
		p := "C02"
		if k == "dir" {
			c.dir, c.fields, p = true, dirFields, "C04"
		}
		n := "round trip of " + k
		sp.contracts[n] = &Contract{name: n, native: c, lemma: true, props: map[string]bool{p: true}, file: "codec table"}
		sp.order = append(sp.order, n)
	}
	add("protocol.Marshaldir", &codecContract{kind: "dir", dir: true, fields: dirFields}, []string{"C04"})
	add("protocol.Unmarshaldir", &codecContract{kind: "dir", dir: true, un: true, fields: dirFields}, []string{"C04"})
}

func (x *Exec) applyContract(st *State, ct *Contract, target interface{ String() string }, args []Value, sig *types.Signature, cc *callCtx) Value {
	if ct.native == nil {
		unsup("contract of %s cannot be used by callers", ct.name)
	}
	return ct.native.apply(x, st, ct, args, sig, cc)
}

// ---- predicates of the contract language ----

func (e *specEnv) codecPred(name string, args []*Expr) specVal {
	x := e.x
	get := func(from int) []Value {
		var vs []Value
		for _, a := range args[from:] {
			vs = append(vs, e.eval(a).v)
		}
		return vs
	}
	switch name {
	case "layout":
		kind := e.strArg(args[0])
		m, ok := msgs[kind]
		if !ok {
			serr("kind %s", kind)
		}
		S := e.str(e.eval(args[1]))
		tv := e.conv(e.eval(args[2]), types.Typ[types.Uint16])
		c := &codecContract{kind: kind, fields: m.fields}
		return bv(closedLayout(kind, S, tv.v.(Sc).t, c.contents(x, e.st, get(3))))
	case "bodyvalid":
		return bv(closedValid(e.strArg(args[0]), e.str(e.eval(args[1]))))
	case "decoded":
		kind := e.strArg(args[0])
		S := e.str(e.eval(args[1]))
		var cs []*Term
		vs := get(2)
		c := &codecContract{kind: kind, fields: msgs[kind].fields}
		for i, a := range c.contents(x, e.st, vs) {
			cs = append(cs, closedSame(a, closedField(kind, i, a.k, S)))
		}
		return bv(And(cs...))
	case "field": // field("K", S, i): the i-th field of the body S
		kind := e.strArg(args[0])
		S := e.str(e.eval(args[1]))
		i := int(e.eval(args[2]).n)
		ks := dirFields
		if kind != "dir" {
			ks = msgs[kind].fields
		}
		c := closedField(kind, i, ks[i], S)
		switch c.k {
		case fU8, fU16, fU32, fU64:
			t := map[fkind]types.Type{fU8: types.Typ[types.Uint8], fU16: types.Typ[types.Uint16], fU32: types.Typ[types.Uint32], fU64: types.Typ[types.Uint64]}[c.k]
			return specVal{v: Sc{c.t}, t: t}
		case fStr, fD16, fD32:
			return specVal{v: c.s, t: strT}
		}
		serr("field of kind %s", c.k)
	case "fits":
		kind := e.strArg(args[0])
		c := &codecContract{kind: kind, fields: msgs[kind].fields}
		var cs []*Term
		for _, f := range c.contents(x, e.st, get(1)) {
			cs = append(cs, fits1(f))
			if f.k == fNames {
				f := f
				cs = append(cs, Ult(npos(f, 17, f.n), I64(1<<32)), allJ(0, f.n, func(j *Term) *Term { return Ult(npos(f, 17, j), I64(1<<32)) }))
			}
		}
		return bv(And(cs...))
	case "dirlayout":
		S := e.str(e.eval(args[0]))
		c := &codecContract{kind: "dir", dir: true, fields: dirFields}
		cs := c.contents(x, e.st, dirValues(e.eval(args[1]).v))
		return bv(App("dirlayout", SBool, append([]*Term{S.arr, S.off, S.len}, rawOf(cs)...)...))
	case "dirvalid":
		S := e.str(e.eval(args[0]))
		return bv(App("dirvalid", SBool, S.arr, S.off, S.len))
	}
	serr("predicate %s", name)
	return specVal{}
}
