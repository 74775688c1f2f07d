package main

// Values and memory.
//
// Memory is a set of components, one per leaf field of each type, each an SMT
// array from object reference to leaf value (element storage: to an array from
// 64-bit index to leaf value).  References are integers: 0 is nil, objects
// allocated on the path get positive literals, everything that existed before
// is a symbol (or a heap read) known to lie below the literals.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Sc struct{ t *Term }
type PtrV struct {
	ref  *Term
	base string
	idx  *Term
	typ  types.Type // pointee
}
type SliceV struct {
	ref, off, len, cap *Term
	base               string
	elem               types.Type
}
type StrV struct {
	arr, off, len *Term
	id            *Term
}
type StructV struct {
	typ types.Type
	fs  []Value
}
type IfaceV struct {
	id  *Term
	dyn types.Type
	val Value
}
type TupleV []Value
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	id   *Term
}
type ArrV struct { // array value: elements as an indexed leaf array per component
	typ  *types.Array
	comp map[string]*Term // leaf suffix -> Array BV64 leaf
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func shortQual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "uint8"
		}
		return u.Name()
	case *types.Named:
		if b, ok := u.Underlying().(*types.Basic); ok {
			return typeKey(b)
		}
		return types.TypeString(t, shortQual)
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return "ref"
	}
	return types.TypeString(t, shortQual)
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func isBuffer(t types.Type) bool { return namedIs(t, "bytes", "Buffer") }
func isOpaque(t types.Type) bool { return namedIs(t, "time", "Time") }

// pseudo leaves of bytes.Buffer
var bufLeaves = []struct {
	n string
	s Sort
}{{"#bref", SInt}, {"#boff", S64}, {"#blen", S64}, {"#bbase", S64}}

func baseOf(t types.Type) string {
	t = types.Unalias(t)
	if a, ok := t.Underlying().(*types.Array); ok {
		return "E:" + typeKey(a.Elem())
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return typeKey(t)
	}
	return "C:" + typeKey(t)
}

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}
func intType(t types.Type) (int, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intWidth(b)
	}
	return 0, false
}

// scalarSort gives the sort of types represented by a single term.
func scalarSort(t types.Type) (Sort, bool) {
	if isOpaque(t) {
		return SInt, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return SBool, true
		}
		if w, _ := intWidth(u); w > 0 {
			return SBV(w), true
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return SInt, true
		}
		if u.Info()&types.IsFloat != 0 {
			return SInt, true // abstracted
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt, true
	}
	return "", false
}

type leafSpec struct {
	key  string
	sort Sort
}

// leafSpecs lists the memory components a value of type t occupies under base.
func leafSpecs(base string, t types.Type) []leafSpec {
	if isBuffer(t) {
		var out []leafSpec
		for _, l := range bufLeaves {
			out = append(out, leafSpec{base + l.n, l.s})
		}
		return out
	}
	if s, ok := scalarSort(t); ok {
		return []leafSpec{{base, s}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return []leafSpec{{base, SStr}}
		}
	case *types.Slice:
		return []leafSpec{{base + "#ref", SInt}, {base + "#off", S64}, {base + "#len", S64}, {base + "#cap", S64}}
	case *types.Struct:
		var out []leafSpec
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafSpecs(base+"."+u.Field(i).Name(), u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []leafSpec
		for _, l := range leafSpecs(base+"[]", u.Elem()) {
			out = append(out, leafSpec{l.key, SArr(S64, l.sort)})
		}
		return out
	}
	unsup("leaves of %s", t)
	return nil
}

// decompose a value into leaf terms in the order of leafSpecs.
func (x *Exec) toLeaves(v Value, t types.Type) []*Term {
	switch v := v.(type) {
	case Sc:
		return []*Term{v.t}
	case PtrV:
		if v.idx != nil || v.base != baseOf(v.typ) {
			unsup("interior pointer %s stored", v.base)
		}
		return []*Term{v.ref}
	case IfaceV:
		return []*Term{v.id}
	case FuncV:
		return []*Term{v.id}
	case StrV:
		return []*Term{strTerm(v)}
	case SliceV:
		if !strings.HasPrefix(v.base, "E:") {
			unsup("slice of field array stored")
		}
		return []*Term{v.ref, v.off, v.len, v.cap}
	case StructV:
		var out []*Term
		if isBuffer(v.typ) || isBuffer(t) {
			for _, f := range v.fs {
				out = append(out, f.(Sc).t)
			}
			return out
		}
		st := t.Underlying().(*types.Struct)
		for i, f := range v.fs {
			out = append(out, x.toLeaves(f, st.Field(i).Type())...)
		}
		return out
	case ArrV:
		var out []*Term
		for _, l := range leafSpecs("", v.typ) {
			out = append(out, v.comp[l.key])
		}
		return out
	}
	unsup("toLeaves %T", v)
	return nil
}

// fromLeaves rebuilds a value of type t.
func (x *Exec) fromLeaves(ls []*Term, t types.Type) (Value, []*Term) {
	if isBuffer(t) {
		return StructV{t, []Value{Sc{ls[0]}, Sc{ls[1]}, Sc{ls[2]}, Sc{ls[3]}}}, ls[4:]
	}
	if _, ok := scalarSort(t); ok {
		return x.scalarValue(ls[0], t), ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return fromStr(ls[0]), ls[1:]
	case *types.Slice:
		return SliceV{ls[0], ls[1], ls[2], ls[3], "E:" + typeKey(u.Elem()), u.Elem()}, ls[4:]
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = x.fromLeaves(ls, u.Field(i).Type())
			sv.fs = append(sv.fs, f)
		}
		return sv, ls
	case *types.Array:
		av := ArrV{u, map[string]*Term{}}
		for _, l := range leafSpecs("", u) {
			av.comp[l.key] = ls[0]
			ls = ls[1:]
		}
		return av, ls
	}
	unsup("fromLeaves %s", t)
	return nil, nil
}

func (x *Exec) scalarValue(t *Term, typ types.Type) Value {
	if isOpaque(typ) {
		return Sc{t}
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return PtrV{ref: t, base: baseOf(u.Elem()), typ: u.Elem()}
	case *types.Interface:
		if b, ok := x.boxes[t]; ok {
			return b
		}
		return IfaceV{id: t}
	case *types.Signature:
		if f, ok := x.funcs[t]; ok {
			return f
		}
		return FuncV{id: t}
	}
	return Sc{t}
}

func zeroTerm(s Sort) *Term {
	switch {
	case s == SBool:
		return False
	case s == SInt:
		return Nil
	case s == SStr:
		return strLit("")
	case s.width() > 0:
		return BV(0, s.width())
	case s.isArr():
		i, e := s.arr()
		return ConstArr(i, zeroTerm(e))
	}
	panic("zeroTerm " + string(s))
}

func (x *Exec) zero(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, x.zero(tt.At(i).Type()))
		}
		return tv
	}
	var ls []*Term
	for _, l := range leafSpecs("", t) {
		ls = append(ls, zeroTerm(l.sort))
	}
	v, _ := x.fromLeaves(ls, t)
	return v
}

// fresh symbolic value of type t; references predate the next allocation.
func (x *Exec) fresh(st *State, name string, t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, x.fresh(st, fmt.Sprintf("%s.%d", name, i), tt.At(i).Type()))
		}
		return tv
	}
	var ls []*Term
	for _, l := range leafSpecs("", t) {
		v := Fresh(name+l.key, l.sort)
		refBound[v] = int64(st.next)
		ls = append(ls, v)
	}
	v, _ := x.fromLeaves(ls, t)
	st.wellFormed(v)
	return v
}

const maxLen = 1 << 40

// wellFormed adds the facts every Go value satisfies (lengths non-negative and
// bounded by the address space).
func (st *State) wellFormed(v Value) {
	switch v := v.(type) {
	case SliceV:
		if v.len.isBV() && v.cap.isBV() {
			return
		}
		st.assume(Ule(v.len, v.cap))
		st.assume(Ult(v.cap, I64(maxLen)))
		st.assume(Ult(v.off, I64(maxLen)))
		st.assume(Implies(Eq(v.ref, Nil), Eq(v.cap, I64(0))))
	case StrV:
		if !v.len.isBV() {
			st.assume(Ult(v.len, I64(maxLen)))
		}
	case StructV:
		if isBuffer(v.typ) {
			st.assume(Ult(v.fs[1].(Sc).t, I64(maxLen)))
			st.assume(Ult(v.fs[2].(Sc).t, I64(maxLen)))
			st.assume(Ule(v.fs[3].(Sc).t, v.fs[1].(Sc).t))
			st.assume(Implies(Eq(v.fs[0].(Sc).t, Nil), Eq(v.fs[2].(Sc).t, I64(0))))
			return
		}
		for _, f := range v.fs {
			st.wellFormed(f)
		}
	}
}

// ---- strings ----

var litBytes = map[*Term]string{}

func strLit(s string) *Term {
	t := Var("lit:"+fmt.Sprintf("%q", s), SStr)
	litBytes[t] = s
	return t
}
func litStr(s string) StrV {
	id := strLit(s)
	arr := ConstArr(S64, BV(0, 8))
	for i := 0; i < len(s); i++ {
		arr = Store(arr, I64(int64(i)), BV(uint64(s[i]), 8))
	}
	return StrV{arr, I64(0), I64(int64(len(s))), id}
}
func strTerm(v StrV) *Term {
	if v.id != nil {
		return v.id
	}
	if v.len.isBV() && v.len.val == 0 {
		return strLit("")
	}
	if v.arr.op == "app" && v.arr.name == "bytesof" && v.off.isBV() && v.off.val == 0 {
		s := v.arr.args[0]
		if v.len == App("slen", S64, s) {
			return s
		}
	}
	return App("mkstr", SStr, v.arr, v.off, v.len)
}
func fromStr(t *Term) StrV {
	if s, ok := litBytes[t]; ok {
		return litStr(s)
	}
	if t.op == "app" && t.name == "mkstr" {
		return StrV{t.args[0], t.args[1], t.args[2], t}
	}
	if t.op == "ite" {
		a, b := fromStr(t.args[1]), fromStr(t.args[2])
		c := t.args[0]
		return StrV{Ite(c, a.arr, b.arr), Ite(c, a.off, b.off), Ite(c, a.len, b.len), t}
	}
	return StrV{App("bytesof", SArr(S64, S8), t), I64(0), App("slen", S64, t), t}
}
func strEq(a, b StrV) *Term {
	ta, tb := strTerm(a), strTerm(b)
	if ta == tb {
		return True
	}
	la, oka := litBytes[ta]
	lb, okb := litBytes[tb]
	if oka && okb {
		return Bool(la == lb)
	}
	if oka {
		a, b = b, a
		lb, okb = la, true
	}
	if okb && len(lb) <= 64 {
		cs := []*Term{Eq(a.len, I64(int64(len(lb))))}
		for i := 0; i < len(lb); i++ {
			cs = append(cs, Eq(Select(a.arr, Add(a.off, I64(int64(i)))), BV(uint64(lb[i]), 8)))
		}
		return And(cs...)
	}
	return Eq(strTerm(a), strTerm(b))
}

// ---- references ----

var refBound = map[*Term]int64{} // the reference(s) in this symbol are < bound

func boundOf(t *Term) (int64, bool) {
	switch t.op {
	case "int":
		return int64(t.val) + 1, true
	case "var":
		b, ok := refBound[t]
		return b, ok
	case "select":
		return boundOf(t.args[0])
	case "store":
		a, ok := boundOf(t.args[0])
		if !ok {
			return 0, false
		}
		b, ok := boundOf(t.args[2])
		if !ok {
			return 0, false
		}
		if b > a {
			a = b
		}
		return a, true
	case "constarr":
		return boundOf(t.args[0])
	case "ite":
		a, ok1 := boundOf(t.args[1])
		b, ok2 := boundOf(t.args[2])
		if a < b {
			a = b
		}
		return a, ok1 && ok2
	}
	return 0, false
}

func init() {
	refDistinct = func(a, b *Term) bool {
		if b.op == "int" {
			a, b = b, a
		}
		if a.op != "int" || int64(a.val) <= 0 {
			return false
		}
		if b.op == "int" {
			return a != b
		}
		bd, ok := boundOf(b)
		return ok && bd <= int64(a.val)
	}
}

// ---- heap access ----

func (st *State) comp(key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	v := Var("H0:"+key, s)
	refBound[v] = 1
	st.heap[key] = v
	return v
}

func compSort(idx bool, leaf Sort) Sort {
	if idx {
		return SArr(SInt, SArr(S64, leaf))
	}
	return SArr(SInt, leaf)
}

func (x *Exec) load(st *State, p PtrV) Value {
	specs := leafSpecs(p.base, p.typ)
	if a, ok := p.typ.Underlying().(*types.Array); ok && p.idx == nil && strings.HasPrefix(p.base, "E:") {
		av := ArrV{a, map[string]*Term{}}
		es := leafSpecs(p.base, a.Elem())
		for i, l := range leafSpecs("", a) {
			av.comp[l.key] = Select(st.comp(es[i].key, compSort(true, es[i].sort)), p.ref)
		}
		return av
	}
	var ls []*Term
	for _, l := range specs {
		c := st.comp(l.key, compSort(p.idx != nil, l.sort))
		t := Select(c, p.ref)
		if p.idx != nil {
			t = Select(t, p.idx)
		}
		ls = append(ls, t)
	}
	v, _ := x.fromLeaves(ls, p.typ)
	st.wellFormed(v)
	return v
}

func (x *Exec) store(st *State, p PtrV, v Value) {
	if av, ok := v.(ArrV); ok && p.idx == nil && strings.HasPrefix(p.base, "E:") {
		es := leafSpecs(p.base, av.typ.Elem())
		for i, l := range leafSpecs("", av.typ) {
			c := st.comp(es[i].key, compSort(true, es[i].sort))
			st.heap[es[i].key] = Store(c, p.ref, av.comp[l.key])
		}
		return
	}
	ls := x.toLeaves(v, p.typ)
	for i, l := range leafSpecs(p.base, p.typ) {
		c := st.comp(l.key, compSort(p.idx != nil, l.sort))
		if p.idx != nil {
			in := Select(c, p.ref)
			st.heap[l.key] = Store(c, p.ref, Store(in, p.idx, ls[i]))
		} else {
			st.heap[l.key] = Store(c, p.ref, ls[i])
		}
	}
}

// alloc creates a zeroed object of type t.
func (x *Exec) alloc(st *State, t types.Type) PtrV {
	ref := st.newRef()
	p := PtrV{ref: ref, base: baseOf(t), typ: t}
	x.store(st, p, x.zero(t))
	return p
}
func (st *State) newRef() *Term {
	r := IntLit(int64(st.next))
	st.next++
	return r
}

func (x *Exec) elemPtr(s SliceV, i *Term) PtrV {
	return PtrV{ref: s.ref, base: s.base, idx: Add(s.off, i), typ: s.elem}
}

// byte contents of a []byte: the underlying index array
func (x *Exec) bytesArr(st *State, ref *Term) *Term {
	return Select(st.comp("E:uint8", compSort(true, S8)), ref)
}
func (x *Exec) setBytesArr(st *State, ref, arr *Term) {
	c := st.comp("E:uint8", compSort(true, S8))
	st.heap["E:uint8"] = Store(c, ref, arr)
}

// allocBytes makes a fresh byte object with the given contents.
func (x *Exec) allocBytes(st *State, arr *Term) *Term {
	r := st.newRef()
	x.setBytesArr(st, r, arr)
	return r
}

// ---- constants ----

func (x *Exec) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Sc{Bool(constant.BoolVal(c.Value))}
		}
		if u.Info()&types.IsString != 0 {
			return litStr(constant.StringVal(c.Value))
		}
		if w, _ := intWidth(u); w > 0 {
			if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return Sc{BV(v, w)}
			}
			v, _ := constant.Int64Val(constant.ToInt(c.Value))
			return Sc{BV(uint64(v), w)}
		}
		if u.Info()&types.IsFloat != 0 {
			return Sc{Var("float:"+c.Value.ExactString(), SInt)}
		}
	}
	unsup("constant %s", c)
	return nil
}
