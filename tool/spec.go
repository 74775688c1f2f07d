package main

// Evaluation of contract expressions in a state, rules on events, and the
// checking of functions against their contracts.

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specVal struct {
	v       Value
	t       types.Type
	untyped bool // integer literal
	n       int64
	isNil   bool
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type specEnv struct {
	x       *Exec
	st      *State
	vars    map[string]specVal
	old     map[string]*Term
	entry   map[string]*Term
	k       *Term
	frame   *Frame
	loop    *cutInfo
	depth   int // binder depth
	inStep  bool
	resVals []Value
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]

func bv(t *Term) specVal { return specVal{v: Sc{t}, t: boolT} }
func iv(t *Term) specVal { return specVal{v: Sc{t}, t: intT} }

func (e *specEnv) with(name string, v specVal) *specEnv {
	n := *e
	n.vars = make(map[string]specVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// evalBool evaluates a clause; ok=false if it does not make sense in this state.
func (e *specEnv) tryBool(ex *Expr) (t *Term, err string) {
	hp := e.st.heap
	b := e.st.binder
	defer func() {
		if r := recover(); r != nil {
			e.st.heap = hp
			e.st.binder = b
			switch r := r.(type) {
			case specErr:
				err = r.msg
			case unsupported:
				err = r.msg
			default:
				panic(fmt.Sprintf("%v in %s", r, ex))
			}
		}
	}()
	return e.bool(ex), ""
}

func (e *specEnv) bool(ex *Expr) *Term {
	v := e.eval(ex)
	s, ok := v.v.(Sc)
	if !ok || s.t.sort != SBool {
		serr("not a condition: %s", ex)
	}
	return s.t
}

func (e *specEnv) typ(name string) types.Type {
	if strings.HasPrefix(name, "[]") {
		return types.NewSlice(e.typ(name[2:]))
	}
	if strings.HasPrefix(name, "*") {
		return types.NewPointer(e.typ(name[1:]))
	}
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		if p := e.x.pkgByName(name[:i]); p != nil {
			if tn, ok := p.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	return nil
}

func (x *Exec) pkgByName(n string) *types.Package {
	for _, p := range x.pkgs {
		if p.Pkg.Name() == n {
			return p.Pkg
		}
	}
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == n {
			return p.Pkg
		}
	}
	return nil
}

func (e *specEnv) ident(n string) (specVal, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	switch n {
	case "true":
		return bv(True), true
	case "false":
		return bv(False), true
	case "nil":
		return specVal{isNil: true}, true
	case "k":
		if e.k != nil {
			return iv(e.k), true
		}
	}
	if g, ok := e.x.spec.ghosts[n]; ok {
		return e.ghost(n, g), true
	}
	return specVal{}, false
}

// ghost variables: scalars, or maps from one scalar type to another
type ghostMap struct {
	key string
	k   types.Type
	v   types.Type
}

func (e *specEnv) ghost(n, decl string) specVal {
	key := "GV:" + n
	if strings.HasPrefix(decl, "[") {
		i := strings.IndexByte(decl, ']')
		return specVal{v: ghostMap{key, e.typ(decl[1:i]), e.typ(decl[i+1:])}}
	}
	t := e.typ(decl)
	if t == nil {
		serr("ghost type %s", decl)
	}
	l := leafSpecs("", t)
	if len(l) != 1 {
		serr("ghost type %s", decl)
	}
	c := e.st.comp(key, l[0].sort)
	v, _ := e.x.fromLeaves([]*Term{c}, t)
	return specVal{v: v, t: t}
}
func (e *specEnv) ghostArr(g ghostMap) *Term {
	ks, vs := leafSpecs("", g.k)[0].sort, leafSpecs("", g.v)[0].sort
	return e.st.comp(g.key, SArr(ks, vs))
}

func (e *specEnv) conv(v specVal, t types.Type) specVal {
	if v.untyped {
		w, _ := intType(t)
		if w == 0 {
			serr("literal as %s", t)
		}
		return specVal{v: Sc{BV(uint64(v.n), w)}, t: t}
	}
	if v.isNil {
		return specVal{v: e.x.zero(t), t: t}
	}
	return v
}
func (e *specEnv) unify(a, b specVal) (specVal, specVal) {
	switch {
	case a.untyped && b.untyped:
		return e.conv(a, intT), e.conv(b, intT)
	case (a.untyped || a.isNil) && b.t != nil:
		return e.conv(a, b.t), b
	case (b.untyped || b.isNil) && a.t != nil:
		return a, e.conv(b, a.t)
	}
	return a, b
}

func (e *specEnv) inHeap(h map[string]*Term, f func() specVal) specVal {
	if h == nil {
		serr("no such state")
	}
	save := e.st.heap
	e.st.heap = h
	defer func() { e.st.heap = save }()
	return f()
}

// str turns byte content into a value: the bytes as they are in this state.
func (e *specEnv) str(v specVal) StrV {
	switch s := v.v.(type) {
	case StrV:
		return s
	case SliceV:
		return StrV{arr: e.x.bytesArr(e.st, s.ref), off: s.off, len: s.len}
	}
	serr("not a byte string: %T", v.v)
	return StrV{}
}

func (e *specEnv) eval(ex *Expr) specVal {
	x := e.x
	switch ex.op {
	case "num":
		return specVal{untyped: true, n: ex.n}
	case "str":
		return specVal{v: litStr(ex.s), t: strT}
	case "id":
		if v, ok := e.ident(ex.s); ok {
			return v
		}
		if m, ok := x.spec.macros[ex.s]; ok && len(m.params) == 0 {
			return e.eval(m.body)
		}
		serr("unknown name %s", ex.s)
	case "let":
		return e.with(ex.s, e.eval(ex.args[0])).eval(ex.args[1])
	case "forall":
		t := e.typ(ex.typ)
		if t == nil {
			serr("type %s", ex.typ)
		}
		ls := leafSpecs("", t)
		if len(ls) != 1 {
			serr("quantifier over %s", t)
		}
		b := boundVar(ls[0].sort, e.depth)
		v, _ := x.fromLeaves([]*Term{b}, t)
		n := e.with(ex.s, specVal{v: v, t: t})
		n.depth++
		e.st.binder++
		body := n.bool(ex.args[0])
		e.st.binder--
		if _, ok := intType(t); ok || true {
			return bv(ForallT(b, body))
		}
	case "un":
		if ex.s == "-" {
			v := e.eval(ex.args[0])
			if v.untyped {
				return specVal{untyped: true, n: -v.n}
			}
			t := v.v.(Sc).t
			return specVal{v: Sc{Sub(BV(0, t.sort.width()), t)}, t: v.t}
		}
		if ex.s == "!" {
			return bv(Not(e.bool(ex.args[0])))
		}
		if ex.s == "*" {
			v := e.eval(ex.args[0])
			p := v.v.(PtrV)
			return specVal{v: x.load(e.st, p), t: p.typ}
		}
		v := e.eval(ex.args[0])
		t := v.v.(Sc).t
		w := t.sort.width()
		return specVal{v: Sc{Bin("bvxor", t, BV(mask(w), w))}, t: v.t}
	case "bin":
		return e.bin(ex)
	case "sel":
		return e.sel(ex)
	case "index":
		c := e.eval(ex.args[0])
		i := e.eval(ex.args[1])
		switch cv := c.v.(type) {
		case SliceV:
			i = e.conv(i, intT)
			return specVal{v: x.load(e.st, x.elemPtr(cv, x.to64(i.v, i.t))), t: cv.elem}
		case StrV:
			i = e.conv(i, intT)
			return specVal{v: Sc{Select(cv.arr, Add(cv.off, x.to64(i.v, i.t)))}, t: types.Typ[types.Uint8]}
		case ghostMap:
			i = e.conv(i, cv.k)
			if k := keyTerm(i.v); e.depth == 0 {
				e.st.cand(k)
			}
			v, _ := x.fromLeaves([]*Term{Select(e.ghostArr(cv), keyTerm(i.v))}, cv.v)
			return specVal{v: v, t: cv.v}
		case Sc:
			if mt, ok := c.t.Underlying().(*types.Map); ok {
				i = e.conv(i, mt.Key())
				_, v := x.mapGet(e.st, cv.t, mt, i.v)
				return specVal{v: v, t: mt.Elem()}
			}
		}
		serr("cannot index %s", ex.args[0])
	case "slice":
		c := e.eval(ex.args[0])
		s := e.str(c)
		lo, hi := I64(0), s.len
		if ex.args[1] != nil {
			v := e.conv(e.eval(ex.args[1]), intT)
			lo = x.to64(v.v, v.t)
		}
		if ex.args[2] != nil {
			v := e.conv(e.eval(ex.args[2]), intT)
			hi = x.to64(v.v, v.t)
		}
		return specVal{v: StrV{arr: s.arr, off: Add(s.off, lo), len: Sub(hi, lo)}, t: strT}
	case "call":
		return e.call(ex)
	}
	serr("cannot evaluate %s", ex)
	return specVal{}
}

func (e *specEnv) sel(ex *Expr) specVal {
	x := e.x
	if ex.args[0].op == "id" {
		_, mac := x.spec.macros[ex.args[0].s]
		if _, ok := e.ident(ex.args[0].s); !ok && !mac {
			p := x.pkgByName(ex.args[0].s)
			if p == nil {
				serr("unknown name %s", ex.args[0].s)
			}
			o := p.Scope().Lookup(ex.s)
			switch o := o.(type) {
			case *types.Const:
				c := ssa.NewConst(o.Val(), o.Type())
				if b, ok := o.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					if b.Info()&types.IsInteger != 0 {
						v := x.constant(ssa.NewConst(o.Val(), types.Typ[types.Int]))
						return specVal{untyped: true, n: int64(v.(Sc).t.val)}
					}
				}
				return specVal{v: x.constant(c), t: o.Type()}
			case *types.Var:
				g := x.prog.Package(p).Var(ex.s)
				return specVal{v: x.load(e.st, x.globalPtr(g)), t: o.Type()}
			}
			serr("unknown %s.%s", ex.args[0].s, ex.s)
		}
	}
	v := e.eval(ex.args[0])
	switch c := v.v.(type) {
	case PtrV:
		st, ok := c.typ.Underlying().(*types.Struct)
		if !ok {
			serr("no fields in %s", c.typ)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == ex.s {
				p := PtrV{ref: c.ref, base: c.base + "." + ex.s, idx: c.idx, typ: st.Field(i).Type()}
				return specVal{v: x.load(e.st, p), t: p.typ}
			}
		}
	case StructV:
		st := c.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == ex.s {
				return specVal{v: c.fs[i], t: st.Field(i).Type()}
			}
		}
	}
	serr("no field %s in %s (%v)", ex.s, ex.args[0], v.t)
	return specVal{}
}

func (e *specEnv) bin(ex *Expr) specVal {
	switch ex.s {
	case "==>":
		a := e.bool(ex.args[0])
		if a == False {
			return bv(True)
		}
		return bv(Implies(a, e.bool(ex.args[1])))
	case "<==>":
		return bv(Iff(e.bool(ex.args[0]), e.bool(ex.args[1])))
	case "&&":
		a := e.bool(ex.args[0])
		if a == False {
			return bv(False)
		}
		return bv(And(a, e.bool(ex.args[1])))
	case "||":
		a := e.bool(ex.args[0])
		if a == True {
			return bv(True)
		}
		return bv(Or(a, e.bool(ex.args[1])))
	}
	a, b := e.unify(e.eval(ex.args[0]), e.eval(ex.args[1]))
	if a.isNil && b.isNil {
		return bv(True)
	}
	switch ex.s {
	case "==":
		return bv(e.equal(a, b))
	case "!=":
		return bv(Not(e.equal(a, b)))
	}
	ops := map[string]token.Token{"<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "+": token.ADD, "-": token.SUB,
		"*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}
	op := ops[ex.s]
	if a.t == nil || b.t == nil {
		serr("operands of %s", ex)
	}
	wa, _ := intType(a.t)
	wb, _ := intType(b.t)
	if op != token.SHL && op != token.SHR && (wa == 0 || wa != wb) {
		serr("operands of %s have types %s and %s", ex, a.t, b.t)
	}
	np := e.x.root
	e.x.root = nil // no obligations from evaluating contracts
	v := e.x.binop(e.st, op, a.v, b.v, a.t, b.t, 0)
	e.x.root = np
	t := a.t
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		t = boolT
	}
	return specVal{v: v, t: t}
}

func (e *specEnv) equal(a, b specVal) *Term {
	if _, ok := a.v.(ghostMap); ok {
		serr("ghost map comparison")
	}
	if sa, ok := a.v.(Sc); ok {
		if sb, ok := b.v.(Sc); ok && sa.t.sort != sb.t.sort {
			serr("comparing %s with %s", a.t, b.t)
		}
	}
	if s, ok := a.v.(SliceV); ok {
		if r, ok := b.v.(SliceV); ok && s.ref != Nil && r.ref != Nil {
			return And(Eq(s.ref, r.ref), Eq(s.off, r.off), Eq(s.len, r.len))
		}
	}
	return e.x.equal(a.v, b.v)
}

// same: equal length and equal bytes
func (e *specEnv) same(a, b StrV) *Term {
	if a.id != nil && a.id == b.id {
		return True
	}
	if a.arr == b.arr && a.off == b.off && a.len == b.len {
		return True
	}
	if a.len.isBV() && a.len.val <= 64 || b.len.isBV() && b.len.val <= 64 {
		n := a.len
		if !n.isBV() {
			n = b.len
		}
		cs := []*Term{Eq(a.len, b.len)}
		for j := uint64(0); j < n.val; j++ {
			jj := I64(int64(j))
			cs = append(cs, Eq(Select(a.arr, Add(a.off, jj)), Select(b.arr, Add(b.off, jj))))
		}
		return And(cs...)
	}
	j := boundVar(S64, e.depth)
	return And(Eq(a.len, b.len), ForallT(j, Implies(Ult(j, a.len), Eq(Select(a.arr, Add(a.off, j)), Select(b.arr, Add(b.off, j))))))
}

func le(arr, off *Term, n int) *Term {
	t := Select(arr, off)
	for i := 1; i < n; i++ {
		t = Concat(Select(arr, Add(off, I64(int64(i)))), t)
	}
	return t
}

func (e *specEnv) events(pat string) []*Event {
	var out []*Event
	for i, ev := range e.st.events {
		if e.inStep && i < e.st.evBase {
			continue
		}
		if ev.name == "*loop*" {
			for n := range ev.names {
				if evMatch(pat, n) && !(e.inStep) {
					serr("calls of %s inside a loop cannot be counted here", pat)
				}
			}
			continue
		}
		if evMatch(pat, ev.name) {
			out = append(out, ev)
		}
	}
	return out
}

func evMatch(pat, name string) bool {
	for _, p := range strings.Split(pat, "|") {
		p = strings.TrimSpace(p)
		if p == name {
			return true
		}
		if strings.ContainsAny(p, "*") && !strings.HasPrefix(p, "(*") || strings.HasSuffix(p, "*") {
			pp := strings.TrimSuffix(p, "*")
			if strings.HasSuffix(p, "*") && strings.HasPrefix(name, pp) {
				return true
			}
			if ok, _ := path.Match(strings.ReplaceAll(p, "/", "\x01"), strings.ReplaceAll(name, "/", "\x01")); ok {
				return true
			}
		}
	}
	return false
}

func (e *specEnv) strArg(ex *Expr) string {
	if ex.op != "str" {
		serr("string literal expected")
	}
	return ex.s
}

func (e *specEnv) pickEvent(args []*Expr) *Event {
	if n := e.eval(args[1]); n.untyped && n.n < 0 { // from the end: what loops did before does not matter
		pat := e.strArg(args[0])
		k := n.n
		for i := len(e.st.events) - 1; i >= 0; i-- {
			ev := e.st.events[i]
			if ev.name == "*loop*" {
				for nm := range ev.names {
					if evMatch(pat, nm) {
						serr("the last call of %s is in a loop", pat)
					}
				}
				continue
			}
			if evMatch(pat, ev.name) {
				if k++; k == 0 {
					return ev
				}
			}
		}
		serr("no call %d of %s", n.n, pat)
	}
	evs := e.events(e.strArg(args[0]))
	n := e.eval(args[1])
	if !n.untyped {
		serr("event index")
	}
	i := int(n.n)
	if i < 0 {
		i += len(evs)
	}
	if i < 0 || i >= len(evs) {
		serr("no call %d of %s", n.n, args[0].s)
	}
	return evs[i]
}

func (e *specEnv) call(ex *Expr) specVal {
	x := e.x
	fn := ex.args[0]
	args := ex.args[1:]
	name := fn.s
	if fn.op == "sel" && fn.args[0].op == "id" {
		name = fn.args[0].s + "." + fn.s
	}
	int64arg := func(i int) *Term {
		v := e.conv(e.eval(args[i]), intT)
		return x.to64(v.v, v.t)
	}
	switch name {
	case "old":
		return e.inHeap(e.old, func() specVal { return e.eval(args[0]) })
	case "entry":
		return e.inHeap(e.entry, func() specVal { return e.eval(args[0]) })
	case "len":
		v := e.eval(args[0])
		switch s := v.v.(type) {
		case SliceV:
			return iv(s.len)
		case StrV:
			return iv(s.len)
		}
		serr("len of %T", v.v)
	case "bytes":
		v := e.eval(args[0])
		p, ok := v.v.(PtrV)
		if !ok || !isBuffer(p.typ) {
			serr("bytes of %s", args[0])
		}
		ref, off, n := x.bufParts(e.st, p)
		return specVal{v: StrV{arr: x.bytesArr(e.st, ref), off: off, len: n}, t: strT}
	case "input", "pos": // all a connection delivers, and how much of it has been read
		arr, cur, end := x.stream(e.st, refOf(e.eval(args[0]).v))
		if name == "pos" {
			return iv(cur)
		}
		return specVal{v: StrV{arr: arr, off: I64(0), len: end}, t: strT}
	case "idx", "into": // the index in the slice that a pointer points to; whether it points into it
		p, ok := e.eval(args[0]).v.(PtrV)
		sl, ok2 := e.eval(args[1]).v.(SliceV)
		if !ok || !ok2 || p.idx == nil {
			serr("%s of %s", fn.s, args[0])
		}
		if fn.s == "idx" {
			return iv(Sub(p.idx, sl.off))
		}
		return bv(And(Eq(p.ref, sl.ref), Bool(p.base == sl.base)))
	case "bufref":
		p := e.eval(args[0]).v.(PtrV)
		ref, _, _ := x.bufParts(e.st, p)
		return specVal{v: Sc{ref}, t: types.Typ[types.UnsafePointer]}
	case "dataref":
		return specVal{v: Sc{e.eval(args[0]).v.(SliceV).ref}, t: types.Typ[types.UnsafePointer]}
	case "str":
		return specVal{v: e.str(e.eval(args[0])), t: strT}
	case "same":
		return bv(e.same(e.str(e.eval(args[0])), e.str(e.eval(args[1]))))
	case "le16", "le32", "le64":
		s := e.str(e.eval(args[0]))
		n := map[string]int{"le16": 2, "le32": 4, "le64": 8}[name]
		t := map[string]types.Type{"le16": types.Typ[types.Uint16], "le32": types.Typ[types.Uint32], "le64": types.Typ[types.Uint64]}[name]
		return specVal{v: Sc{le(s.arr, Add(s.off, int64arg(1)), n)}, t: t}
	case "has":
		m := e.eval(args[0])
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			serr("has on %s", m.t)
		}
		k := e.conv(e.eval(args[1]), mt.Key())
		h, _ := x.mapGet(e.st, m.v.(Sc).t, mt, k.v)
		return bv(h)
	case "ite":
		c := e.bool(args[0])
		a, b := e.unify(e.eval(args[1]), e.eval(args[2]))
		la, lb := x.toLeaves(a.v, a.t), x.toLeaves(b.v, b.t)
		var ls []*Term
		for i := range la {
			ls = append(ls, Ite(c, la[i], lb[i]))
		}
		v, _ := x.fromLeaves(ls, a.t)
		return specVal{v: v, t: a.t}
	case "errtext":
		v := e.eval(args[0])
		return specVal{v: fromStr(App("errtext", SStr, refOf(v.v))), t: strT}
	case "ncalls":
		return specVal{untyped: true, n: int64(len(e.events(e.strArg(args[0]))))}
	case "arg", "ret":
		ev := e.pickEvent(args)
		i := int(e.eval(args[2]).n)
		t := e.typ(e.strArg(args[3]))
		if t == nil {
			serr("type %s", args[3].s)
		}
		if name == "arg" {
			if i >= len(ev.args) {
				serr("argument %d of %s", i, ev.name)
			}
			return specVal{v: ev.args[i], t: t}
		}
		if tv, ok := ev.rets.(TupleV); ok {
			return specVal{v: tv[i], t: t}
		}
		return specVal{v: ev.rets, t: t}
	case "nsarg", "nsret", "nserr":
		ev := e.pickEvent([]*Expr{{op: "str", s: "(protocol.NineServer)." + e.strArg(args[0])}, {op: "num", n: 0}})
		if name == "nsarg" {
			return specVal{v: ev.args[int(e.eval(args[1]).n)], t: e.typ(e.strArg(args[2]))}
		}
		tv, ok := ev.rets.(TupleV)
		if !ok {
			tv = TupleV{ev.rets}
		}
		if name == "nserr" {
			return specVal{v: tv[len(tv)-1], t: types.Universe.Lookup("error").Type()}
		}
		return specVal{v: tv[int(e.eval(args[1]).n)], t: e.typ(e.strArg(args[2]))}
	case "ismsg": // one complete well-formed message of this kind ("R": any reply)
		S := e.str(e.eval(args[1]))
		return bv(App("ismsg:"+e.strArg(args[0]), SBool, S.arr, S.off, S.len))
	case "before":
		ev := e.pickEvent(args)
		return e.inHeap(ev.pre, func() specVal { return e.eval(args[2]) })
	case "after":
		ev := e.pickEvent(args)
		return e.inHeap(ev.post, func() specVal { return e.eval(args[2]) })
	case "ordered": // the i-th events of the patterns occur in this order
		last := -1
		for _, a := range args {
			ev := e.pickEvent([]*Expr{a, {op: "num", n: 0}})
			for i, o := range e.st.events {
				if o == ev {
					if i <= last {
						return bv(False)
					}
					last = i
				}
			}
		}
		return bv(True)
	case "made":
		t := e.typ(e.strArg(args[0]))
		return specVal{v: e.localSlice(t), t: types.NewSlice(t)}
	case "seen":
		for _, v := range e.frame.env {
			if it, ok := v.(iterV); ok {
				k := e.conv(e.eval(args[0]), it.mt.Key())
				_, ks := mapKeys(it.mt)
				return bv(Select(Select(e.st.comp(it.key, SArr(SInt, SArr(ks, SBool))), it.id), keyTerm(k.v)))
			}
		}
		serr("no iteration")
	case "chancap":
		v := e.eval(args[0])
		return iv(Select(e.st.comp("G:chancap", SArr(SInt, S64)), refOf(v.v)))
	case "fresh": // a pointer or channel created by this call
		v := e.eval(args[0])
		r := refOf(v.v)
		return bv(Bool(r.op == "int" && int64(r.val) > 0))
	case "offers": // the operation waited for is a receive from this channel, or one of several with it among them
		ch := refOf(e.eval(args[0]).v)
		var fs []*Term
		for _, o := range e.x.offers {
			fs = append(fs, Eq(o, ch))
		}
		return bv(Or(fs...))
	case "spawned": // in a goroutine started by the function under contract
		return bv(Bool(e.st.frames[0].isDef))
	case "freshsince": // created after the last event of this name
		r := refOf(e.eval(args[1]).v)
		pat := e.strArg(args[0])
		from := 1
	find:
		for i := len(e.st.events) - 1; i >= 0; i-- {
			ev := e.st.events[i]
			if evMatch(pat, ev.name) {
				from = ev.next
				break
			}
			for nm := range ev.names {
				if evMatch(pat, nm) {
					from = ev.next
					break find
				}
			}
		}
		return bv(Bool(r.op == "int" && int64(r.val) >= int64(from) && int64(r.val) > 0))
	case "addr": // of a field
		if args[0].op == "sel" {
			if p, ok := e.eval(args[0].args[0]).v.(PtrV); ok {
				if sT, ok := p.typ.Underlying().(*types.Struct); ok {
					for i := 0; i < sT.NumFields(); i++ {
						if f := sT.Field(i); f.Name() == args[0].s {
							return specVal{v: PtrV{ref: p.ref, base: p.base + "." + f.Name(), idx: p.idx, typ: f.Type()}, t: types.NewPointer(f.Type())}
						}
					}
				}
			}
		}
		serr("addr of %s", args[0])
	case "is": // dynamic type of an interface value
		v := e.eval(args[0])
		i, ok := v.v.(IfaceV)
		if !ok || i.dyn == nil {
			return bv(False)
		}
		return bv(Bool(tname(i.dyn) == e.strArg(args[1])))
	case "implements": // an interface value whose dynamic type has the methods of an interface type
		v := e.eval(args[0])
		i, ok := v.v.(IfaceV)
		if !ok || i.dyn != nil {
			serr("implements of a value of known type")
		}
		return bv(And(Ne(i.id, Nil), App("impl:"+e.strArg(args[1]), SBool, i.id)))
	case "dynval":
		v := e.eval(args[0])
		i, ok := v.v.(IfaceV)
		if !ok || i.dyn == nil {
			serr("unknown dynamic type")
		}
		return specVal{v: i.val, t: i.dyn}
	case "peel": // the value in an interface, under wrappers of the given type that keep it in the given field
		v := e.eval(args[0])
		for {
			i, ok := v.v.(IfaceV)
			if !ok || i.dyn == nil {
				serr("unknown dynamic type")
			}
			if tname(i.dyn) != e.strArg(args[1]) {
				return specVal{v: i.val, t: i.dyn}
			}
			w := e.with("peeled", specVal{v: i.val, t: i.dyn})
			v = w.sel(&Expr{op: "sel", s: e.strArg(args[2]), args: []*Expr{{op: "id", s: "peeled"}}})
		}
	case "unbox": // the value in an interface, given its dynamic type
		v := refOf(e.eval(args[0]).v)
		tn := e.strArg(args[1])
		t := e.typ(tn)
		if t == nil {
			serr("type %s", tn)
		}
		var ls []*Term
		for i, l := range leafSpecs("", t) {
			ls = append(ls, App(fmt.Sprintf("unbox:%s:%d", types.TypeString(t, shortQual), i), l.sort, v))
		}
		u, _ := x.fromLeaves(ls, t)
		return specVal{v: u, t: t}
	case "isfunc":
		v := e.eval(args[0])
		f, ok := v.v.(FuncV)
		if n := e.strArg(args[1]); strings.Contains(n, "/") {
			return bv(Bool(ok && f.fn != nil && f.fn == x.funcNamed(n)))
		}
		return bv(Bool(ok && f.fn != nil && fnName(f.fn) == e.strArg(args[1])))
	case "layout", "decoded", "field", "fits", "bodyvalid", "dirlayout", "dirvalid":
		return e.codecPred(name, args)
	}
	if m, ok := x.spec.macros[name]; ok {
		if len(m.params) != len(args) {
			serr("arguments of %s", name)
		}
		n := *e
		n.vars = map[string]specVal{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		for i, p := range m.params {
			n.vars[p] = e.eval(args[i])
		}
		return n.eval(m.body)
	}
	if u, ok := x.spec.ufs[name]; ok {
		var ts []*Term
		for i, a := range args {
			t := e.typ(u.args[i])
			v := e.conv(e.eval(a), t)
			ts = append(ts, x.toLeaves(v.v, t)...)
		}
		rt := e.typ(u.res)
		var ls []*Term
		sp := leafSpecs("", rt)
		for i, l := range sp {
			n := name
			if len(sp) > 1 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			ls = append(ls, App(n, l.sort, ts...))
		}
		v, _ := x.fromLeaves(ls, rt)
		return specVal{v: v, t: rt}
	}
	if t := e.typ(name); t != nil && len(args) == 1 {
		v := e.eval(args[0])
		if v.untyped || v.isNil {
			return e.conv(v, t)
		}
		if v.t != nil && types.Identical(v.t.Underlying(), t.Underlying()) {
			return specVal{v: v.v, t: t}
		}
		return specVal{v: x.convert(e.st, v.v, v.t, t), t: t}
	}
	serr("unknown function %s", name)
	return specVal{}
}

// localSlice finds the slice with this element type that the code is filling:
// a loop variable, or the last one made.
func (e *specEnv) localSlice(t types.Type) Value {
	for i := len(e.st.frames) - 1; i >= 0; i-- {
		f := e.st.frames[i]
		if e.loop != nil && f == e.frame {
			for _, p := range e.loop.phis {
				if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), t) {
					return f.env[p]
				}
			}
		}
		for j := len(f.made) - 1; j >= 0; j-- {
			if types.Identical(f.made[j].elem, t) {
				return f.made[j].v
			}
		}
	}
	serr("no local slice of %s", t)
	return nil
}

// ---- rules ----

func (x *Exec) rulesFor(name string) []*Rule {
	if x.root == nil {
		return nil
	}
	var out []*Rule
	for _, r := range x.root.rules {
		if evMatch(r.event, name) {
			out = append(out, r)
		}
	}
	return out
}

func (x *Exec) env(st *State) *specEnv {
	e := &specEnv{x: x, st: st, vars: map[string]specVal{}}
	if x.rootSt != nil {
		for k, v := range x.rootSt.params {
			e.vars[k] = v
		}
		e.old = x.rootSt.oldH
	}
	return e
}

func argTypes(sig *types.Signature, recvExtra bool) []types.Type {
	return nil
}

func (x *Exec) runRules(st *State, rs []*Rule, pre bool, args []Value, rets Value, pos token.Pos, sig *types.Signature) {
	for _, r := range rs {
		if len(st.frames) == 0 {
			return
		}
		e := x.env(st)
		for i, p := range r.params {
			n, t := p, ""
			if j := strings.IndexByte(p, ' '); j > 0 {
				n, t = p[:j], strings.TrimSpace(p[j+1:])
			}
			if i >= len(args) || n == "_" {
				continue
			}
			sv := specVal{v: args[i]}
			if t != "" {
				sv.t = e.typ(t)
			} else {
				sv.t = guessType(args[i])
			}
			e.vars[n] = sv
		}
		if rets != nil {
			rv, ok := rets.(TupleV)
			if !ok {
				rv = TupleV{rets}
			}
			for i, p := range r.rets {
				n, t := p, ""
				if j := strings.IndexByte(p, ' '); j > 0 {
					n, t = p[:j], strings.TrimSpace(p[j+1:])
				}
				if i < len(rv) && n != "_" {
					sv := specVal{v: rv[i]}
					if t != "" {
						sv.t = e.typ(t)
					} else {
						sv.t = guessType(rv[i])
					}
					e.vars[n] = sv
				}
			}
		}
		for _, s := range r.stmts {
			if pre != (s.kind == "assert") {
				continue
			}
			switch s.kind {
			case "assert", "check":
				if st.dry > 0 {
					continue
				}
				if !inter(s.props, x.only) {
					continue
				}
				t, err := e.tryBool(s.e)
				if err != "" {
					x.failSpec(st, "at "+r.event+": "+s.label, s.props, err, pos)
					continue
				}
				x.prove(st, t, "at "+r.event+": "+s.label, s.props, pos)
			case "assume":
				t, err := e.tryBool(s.e)
				if err != "" {
					panic(unsupported{"rule " + r.event + ": " + err})
				}
				st.assume(t)
				if t == False {
					st.frames = nil
					return
				}
			case "set":
				x.setGhost(e, s.lhs, s.e)
			case "havoc":
				x.havocExpr(e, s.e)
			}
		}
	}
}

func guessType(v Value) types.Type {
	switch v := v.(type) {
	case PtrV:
		return types.NewPointer(v.typ)
	case SliceV:
		return types.NewSlice(v.elem)
	case StrV:
		return strT
	case StructV:
		return v.typ
	case IfaceV:
		return types.Universe.Lookup("error").Type()
	case Sc:
		switch v.t.sort {
		case SBool:
			return boolT
		case S64:
			return types.Typ[types.Int64]
		case S32:
			return types.Typ[types.Uint32]
		case S16:
			return types.Typ[types.Uint16]
		case S8:
			return types.Typ[types.Uint8]
		case SInt:
			return types.Typ[types.UnsafePointer]
		}
	}
	return nil
}

func (x *Exec) setGhost(e *specEnv, lhs, rhs *Expr) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(unsupported{"ghost assignment: " + s.msg})
			}
			panic(r)
		}
	}()
	if lhs.op == "index" {
		g, ok := e.eval(lhs.args[0]).v.(ghostMap)
		if !ok {
			serr("not a ghost map")
		}
		i := e.conv(e.eval(lhs.args[1]), g.k)
		v := e.conv(e.eval(rhs), g.v)
		a := e.ghostArr(g)
		e.st.heap[g.key] = Store(a, keyTerm(i.v), x.toLeaves(v.v, g.v)[0])
		e.st.cand(keyTerm(i.v))
		return
	}
	decl, ok := x.spec.ghosts[lhs.s]
	if !ok {
		serr("no ghost %s", lhs)
	}
	cur := e.ghost(lhs.s, decl)
	v := e.conv(e.eval(rhs), cur.t)
	e.st.heap["GV:"+lhs.s] = x.toLeaves(v.v, cur.t)[0]
}

// havoc: the elements of a slice, or a buffer's contents, become arbitrary.
func (x *Exec) havocExpr(e *specEnv, ex *Expr) {
	v := e.eval(ex)
	if ex.op == "sel" { // a map in a field: another map may be there
		if _, ok := v.t.Underlying().(*types.Map); ok {
			p := e.eval(ex.args[0]).v.(PtrV)
			x.store(e.st, PtrV{ref: p.ref, base: p.base + "." + ex.s, idx: p.idx, typ: v.t}, x.fresh(e.st, "havoc", v.t))
			return
		}
	}
	switch s := v.v.(type) {
	case SliceV:
		for _, l := range leafSpecs(s.base, s.elem) {
			c := e.st.comp(l.key, compSort(true, l.sort))
			f := Fresh("havoc", SArr(S64, l.sort))
			refBound[f] = int64(e.st.next)
			e.st.heap[l.key] = Store(c, s.ref, f)
		}
	case PtrV:
		if isBuffer(s.typ) {
			x.havocBuffer(e.st, s)
			return
		}
		x.store(e.st, s, x.fresh(e.st, "havoc", s.typ))
	default:
		unsup("havoc %T", v.v)
	}
}

func (x *Exec) failSpec(st *State, label string, props []string, why string, pos token.Pos) {
	if st.dry > 0 || !inter(props, x.only) {
		return
	}
	key := x.root.name + " / " + label
	o := x.obls[key]
	if o == nil {
		o = &Obligation{Fn: x.root.name, Label: label, Props: props}
		x.obls[key] = o
		x.order = append(x.order, key)
	}
	o.VCs++
	o.Failed++
	x.vcTotal++
	if o.Failed == 1 {
		o.Detail = "the required condition cannot be stated on a path: " + why + "; path: " + strings.Join(st.trail, ", ")
		if debugFail {
			fmt.Println("FAILSPEC", key, o.Detail)
		}
	}
}

// ---- invariants and steps ----

func (x *Exec) userInvs(st *State, f *Frame, L *Loop, ci *cutInfo) []*candInv {
	var out []*candInv
	if x.root == nil {
		return nil
	}
	if x.root.native != nil {
		out = append(out, x.root.native.invs(x, ci)...)
	}
	for i := range x.root.invs {
		c := x.root.invs[i]
		mkAt := func(extra map[string]func(*Frame) specVal) func(s *State, kv *Term) (*Term, bool) {
			return func(s *State, kv *Term) (*Term, bool) {
				e := x.env(s)
				e.k = kv
				e.entry = ci.entryHeap
				e.frame = s.top()
				e.loop = ci
				for n, g := range extra {
					e.vars[n] = g(e.frame)
				}
				t, err := e.tryBool(c.e)
				if err != "" {
					if debugLoop {
						fmt.Println("inv", c.label, "not applicable:", err)
					}
					return nil, false
				}
				return t, true
			}
		}
		// "$string": instantiate for every loop variable of that type
		src := c.e.String()
		if strings.Contains(src, "phi_") {
			for _, p := range ci.phis {
				p := p
				tn := "phi_" + phiTypeName(p.Type())
				if !containsIdent(c.e, tn) {
					continue
				}
				out = append(out, &candInv{name: c.label + " [" + p.Comment + "]", props: c.props, user: true,
					at: mkAt(map[string]func(*Frame) specVal{tn: func(fr *Frame) specVal { return specVal{v: fr.env[p], t: p.Type()} }})})
			}
			continue
		}
		out = append(out, &candInv{name: c.label, props: c.props, user: true, at: mkAt(nil)})
	}
	return out
}

func phiTypeName(t types.Type) string {
	s := types.TypeString(t, shortQual)
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func containsIdent(e *Expr, n string) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && e.s == n {
		return true
	}
	for _, a := range e.args {
		if containsIdent(a, n) {
			return true
		}
	}
	return false
}

func (x *Exec) checkSteps(st *State, li *loopInst) {
	if len(st.frames) == 0 {
		return
	}
	for _, c := range x.root.steps {
		if !inter(c.props, x.only) {
			continue
		}
		e := x.env(st)
		e.k = li.k
		e.inStep = true
		e.frame = st.top()
		e.loop = li.ci
		t, err := e.tryBool(c.e)
		if err != "" {
			x.failSpec(st, "each iteration: "+c.label, c.props, err, 0)
			continue
		}
		x.prove(st, t, "each iteration: "+c.label, c.props, 0)
	}
}

// ---- function entry and exit ----

func (x *Exec) atReturn(st *State, f *Frame, rv Value, pos token.Pos) {
	x.paths++
	if f.isDef { // the end of a goroutine
		st.frames = []*Frame{f}
		x.runRules(st, x.rulesFor("goexit"), true, nil, nil, pos, nil)
		st.frames = nil
		return
	}
	if x.returns == 0 && (st.dry > 0 || x.query(st) != "unsat") {
		x.returns++ // the contract is not vacuous: this return is reachable as far as the solver can tell
	}
	ct := x.root
	e := x.env(st)
	if rv != nil {
		tv, ok := rv.(TupleV)
		if !ok {
			tv = TupleV{rv}
		}
		e.resVals = tv
		res := f.fn.Signature.Results()
		for i, n := range ct.results {
			if i < len(tv) {
				e.vars[n] = specVal{v: tv[i], t: res.At(i).Type()}
			}
		}
	}
	st.frames = []*Frame{f}
	e.frame = f
	for _, c := range ct.ensures {
		if !inter(c.props, x.only) {
			continue
		}
		t, err := e.tryBool(c.e)
		if err != "" {
			x.failSpec(st, "ensures "+c.label, c.props, err, pos)
			continue
		}
		x.prove(st, t, "ensures "+c.label, c.props, 0)
	}
	if ct.native != nil {
		ct.native.ensures(x, st, e)
	}
	st.frames = nil
}

func (x *Exec) atPanicExit(st *State, f *Frame) {
	x.paths++
	if f.isDef {
		return
	}
	e := x.env(st)
	st.frames = []*Frame{f}
	for _, c := range x.root.onpanic {
		if !inter(c.props, x.only) {
			continue
		}
		t, err := e.tryBool(c.e)
		if err != "" {
			x.failSpec(st, "on panic "+c.label, c.props, err, 0)
			continue
		}
		x.prove(st, t, "on panic "+c.label, c.props, 0)
	}
	st.frames = nil
}

// verifyFn checks one function of the repository against its contract.
func (x *Exec) verifyFn(ct *Contract, fn *ssa.Function) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = r.msg
			case specErr:
				err = r.msg
			default:
				panic(r)
			}
		}
	}()
	x.root = ct
	x.steps = 0
	x.work = nil
	st := &State{heap: map[string]*Term{}, inPath: map[*Term]bool{}, next: 1}
	x.rootSt = &rootInfo{params: map[string]specVal{}, fn: fn}
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, blk: fn.Blocks[0]}
	st.frames = []*Frame{f}
	pname := func(i int) string {
		if ct.native != nil {
			return fmt.Sprintf("p%d", i)
		}
		return ct.params[i]
	}
	if ct.native == nil && len(ct.params) != len(fn.Params) {
		return fmt.Sprintf("contract has %d parameters, %s has %d", len(ct.params), fn, len(fn.Params))
	}
	if n := fn.Signature.Results().Len(); len(ct.results) != 0 && len(ct.results) != n {
		return fmt.Sprintf("contract has %d results, %s has %d", len(ct.results), fn, n)
	}
	for i, p := range fn.Params {
		v := x.fresh(st, pname(i), p.Type())
		f.env[p] = v
		x.rootSt.params[pname(i)] = specVal{v: v, t: p.Type()}
	}
	for _, fv := range fn.FreeVars { // a function literal: any captured variables
		v := x.fresh(st, fv.Name(), fv.Type())
		f.env[fv] = v
		st.assume(Ne(refOf(v), Nil))
	}
	x.assumeGlobals(st)
	e := x.env(st)
	for _, c := range ct.requires {
		t, er := e.tryBool(c.e)
		if er != "" {
			return "requires " + c.label + ": " + er
		}
		st.assume(t)
	}
	if ct.native != nil {
		ct.native.requires(x, st, e)
	}
	x.rootSt.oldH = st.snapshot()
	if x.query(st) == "unsat" {
		return "the precondition is contradictory"
	}
	x.returns = 0
	x.run(st)
	return ""
}

// assumeGlobals adds the facts about package variables, which are proved for
// the package initialisers.
func (x *Exec) assumeGlobals(st *State) {
	for g, cs := range x.spec.globals {
		_ = g
		e := x.env(st)
		for _, c := range cs {
			t, er := e.tryBool(c.e)
			if er != "" {
				unsup("global %s: %s", g, er)
			}
			st.assume(t)
		}
	}
}
