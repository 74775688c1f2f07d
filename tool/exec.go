package main

// The symbolic executor: explores every path of a function's SSA form (the
// form the Go front end produces for the code that runs), with all inputs
// symbolic, cutting loops at their headers.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	next  int
	names map[string]bool // for the loop marker: events of earlier iterations
	name  string
	args  []Value
	rets  Value
	pos   token.Pos
	pre   map[string]*Term
	post  map[string]*Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	blk    *ssa.BasicBlock
	pc     int
	defers []deferred
	loops  []*loopInst
	retTo  ssa.Value // in the frame below; nil when the result is dropped
	isDef  bool      // running as a deferred call
	made   []madeSlice
	sub    bool // frame executed by runSub: result kept in State.subRet
}

type madeSlice struct {
	elem types.Type
	v    SliceV
}

type State struct {
	frames []*Frame
	heap   map[string]*Term
	path   []*Term
	inPath map[*Term]bool
	quants []*Term
	cands  []*Term
	events []*Event
	next   int
	panic  string // non-empty while unwinding
	dry    int
	subRet Value
	evBase int // events before this index belong to earlier loop iterations
	trail  []string
	binder int // inside a quantifier of a contract: no side facts
	bufCap map[*Term]bufCap
}

// bufCap: the storage a buffer was made over ends at a known place.
type bufCap struct {
	ref *Term
	end uint64
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{next: st.next, panic: st.panic, dry: st.dry, evBase: st.evBase}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.inPath = make(map[*Term]bool, len(st.inPath))
	for k := range st.inPath {
		n.inPath[k] = true
	}
	if len(st.bufCap) > 0 {
		n.bufCap = make(map[*Term]bufCap, len(st.bufCap))
		for k, v := range st.bufCap {
			n.bufCap[k] = v
		}
	}
	n.path = append([]*Term(nil), st.path...)
	n.quants = append([]*Term(nil), st.quants...)
	n.cands = append([]*Term(nil), st.cands...)
	n.events = append([]*Event(nil), st.events...)
	n.trail = append([]string(nil), st.trail...)
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]*loopInst(nil), f.loops...)
		g.made = append([]madeSlice(nil), f.made...)
		for i, l := range g.loops {
			c := *l
			g.loops[i] = &c
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) snapshot() map[string]*Term {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	return h
}

func (st *State) assume(t *Term) {
	if t == True || st.binder > 0 || st.inPath[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.inPath[t] = true
	if hasQuant(t) {
		t = skolem(t, true, &st.cands)
		if t.op == "and" || !hasQuant(t) {
			st.assume(t)
			return
		}
		st.quants = append(st.quants, t)
		return
	}
	st.path = append(st.path, t)
}

func (st *State) cand(t *Term) {
	if st.binder > 0 {
		return
	}
	for _, c := range st.cands {
		if c == t {
			return
		}
	}
	st.cands = append(st.cands, t)
}

// Obligation is one named proof obligation; VCs counts its instances.
type Obligation struct {
	Fn      string            `json:"function"`
	Label   string            `json:"label"`
	Props   []string          `json:"-"`
	VCs     int               `json:"vcs"`
	Failed  int               `json:"failed"`
	Backend string            `json:"backend"`
	Detail  string            `json:"detail,omitempty"`
	Model   map[string]string `json:"model,omitempty"`
}

type Exec struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	sol    *Solver
	offers []*Term // channels the operation being waited for receives from
	boxes  map[*Term]IfaceV
	funcs  map[*Term]FuncV
	obls   map[string]*Obligation
	order  []string

	spec        *Spec
	root        *Contract
	rootSt      *rootInfo
	paths       int
	returns     int
	work        []*State
	loopsOf     map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	inlined     map[string]bool
	modelled    map[string]bool
	unsupported []string
	rets        []*State
	collectBack func(*State, *loopInst)
	steps       int
	quick       bool
	usedC       map[string]bool
	only        map[string]bool // properties wanted
	vcTotal     int
	fallback    int
	stop        bool
	maxFail     int
}

type rootInfo struct {
	params map[string]specVal
	oldH   map[string]*Term
	fn     *ssa.Function
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, "filesystem.", "ufs.")
	s = strings.ReplaceAll(s, "pkg/debugfs.", "debugfs.")
	return s
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// ---- evaluation of operands ----

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return x.funcVal(v, nil)
	case *ssa.Builtin:
		return FuncV{}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	unsup("no value for %s in %s", v.Name(), st.top().fn)
	return nil
}

var globIDs = map[string]int64{}

func (x *Exec) globalPtr(g *ssa.Global) PtrV {
	t := g.Type().(*types.Pointer).Elem()
	k := g.String()
	id, ok := globIDs[k]
	if !ok {
		id = -1000 - int64(len(globIDs))
		globIDs[k] = id
	}
	return PtrV{ref: IntLit(id), base: baseOf(t), typ: t}
}

func (x *Exec) funcVal(fn *ssa.Function, bind []Value) FuncV {
	id := App("box:func:"+fn.String(), SInt)
	if len(bind) > 0 {
		id = App("box:closure:"+fn.String(), SInt, IntLit(int64(len(x.funcs))))
	}
	f := FuncV{fn: fn, bind: bind, id: id}
	x.funcs[id] = f
	return f
}

func (x *Exec) box(v Value, t types.Type) IfaceV {
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	var id *Term
	if p, ok := v.(PtrV); ok && (p.idx != nil || p.base != baseOf(p.typ)) {
		id = App("box:addr:"+p.base, SInt, p.ref)
	} else {
		id = App("box:"+types.TypeString(t, shortQual), SInt, x.toLeaves(v, t)...)
	}
	b := IfaceV{id: id, dyn: t, val: v}
	x.boxes[id] = b
	return b
}

// ---- path management ----

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if c == False || st.inPath[Not(c)] {
		return false
	}
	if st.inPath[c] {
		return true
	}
	return x.query(st, c) != "unsat"
}

// guard handles a possible run-time panic: proved impossible where the
// contract promises it, assumed impossible otherwise.
func (x *Exec) guard(st *State, ok *Term, kind string, pos token.Pos) {
	if ok == True {
		return
	}
	if st.dry == 0 && x.root != nil && x.root.noPanic != nil {
		x.prove(st, ok, "no panic: "+kind, x.root.noPanic, pos)
	}
	st.assume(ok)
	if ok == False {
		st.frames = nil
	}
}

func refOf(v Value) *Term {
	switch v := v.(type) {
	case PtrV:
		return v.ref
	case Sc:
		return v.t
	case IfaceV:
		return v.id
	case FuncV:
		return v.id
	case SliceV:
		return v.ref
	}
	unsup("refOf %T", v)
	return nil
}

func (x *Exec) nilCheck(st *State, v Value, pos token.Pos) {
	x.guard(st, Ne(refOf(v), Nil), "nil dereference", pos)
}

// ---- running ----

func (x *Exec) run(st *State) {
	x.work = append(x.work, st)
	base := len(x.work) - 1
	for len(x.work) > base {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(s)
		if x.stop {
			x.work = x.work[:base]
		}
	}
}

func (x *Exec) runPath(s *State) {
	for len(s.frames) > 0 {
		x.steps++
		if x.steps > 4000000 {
			unsup("step budget exhausted")
		}
		if !x.step(s) {
			return
		}
	}
}

// step executes one instruction; false ends this state (its successors, if
// any, are on the work list).
func (x *Exec) step(st *State) bool {
	f := st.top()
	if st.panic != "" {
		if st.dry > 0 {
			return false
		}
		return x.unwind(st)
	}
	if f.pc >= len(f.blk.Instrs) {
		unsup("fell off block in %s", f.fn)
	}
	in := f.blk.Instrs[f.pc]
	f.pc++
	switch in := in.(type) {
	case *ssa.If:
		c := x.val(st, in.Cond).(Sc).t
		t, e := f.blk.Succs[0], f.blk.Succs[1]
		if c == True {
			return x.enter(st, t)
		}
		if c == False {
			return x.enter(st, e)
		}
		ft := x.feasible(st, c)
		fe := true
		if ft {
			fe = x.feasible(st, Not(c))
		}
		switch {
		case ft && fe:
			o := st.clone()
			o.assume(Not(c))
			o.trail = append(o.trail, x.posStr(instrPos(in))+" else")
			if x.enter(o, e) {
				x.work = append(x.work, o)
			}
			st.assume(c)
			st.trail = append(st.trail, x.posStr(instrPos(in))+" then")
			return x.enter(st, t)
		case ft:
			st.assume(c)
			return x.enter(st, t)
		case fe:
			st.assume(Not(c))
			return x.enter(st, e)
		}
		return false
	case *ssa.Jump:
		return x.enter(st, f.blk.Succs[0])
	case *ssa.Return:
		var rv Value
		switch len(in.Results) {
		case 0:
		case 1:
			rv = x.val(st, in.Results[0])
		default:
			var tv TupleV
			for _, r := range in.Results {
				tv = append(tv, x.val(st, r))
			}
			rv = tv
		}
		return x.doReturn(st, rv, in.Pos())
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back for the rest
			return x.invoke(st, d.call, d.fn, d.args, nil, d.pos)
		}
		return true
	case *ssa.Panic:
		if st.dry == 0 && x.root != nil && x.root.noPanic != nil {
			x.prove(st, False, "no panic: explicit panic", x.root.noPanic, in.Pos())
			return false
		}
		st.panic = "explicit panic"
		return true
	case *ssa.Call:
		fn, args := x.callee(st, &in.Call)
		return x.invoke(st, &in.Call, fn, args, in, in.Pos())
	case *ssa.Defer:
		fn, args := x.callee(st, &in.Call)
		f.defers = append(f.defers, deferred{&in.Call, fn, args, in.Pos()})
		return true
	case *ssa.Go:
		fn, args := x.callee(st, &in.Call)
		return x.spawn(st, &in.Call, fn, args, in.Pos())
	case *ssa.DebugRef:
		return true
	case *ssa.Store:
		p := x.val(st, in.Addr).(PtrV)
		x.nilCheck(st, p, in.Pos())
		if len(st.frames) == 0 {
			return false
		}
		if p.idx != nil && strings.HasPrefix(p.base, "E:") && x.root != nil && len(x.root.rules) > 0 {
			n := "store:" + tname(p.typ)
			if rs := x.rulesFor(n); len(rs) > 0 {
				args := []Value{p, x.val(st, in.Val), x.load(st, p)}
				x.runRules(st, rs, true, args, nil, in.Pos(), nil)
				if len(st.frames) == 0 {
					return false
				}
				evnt := x.event(st, n, args, nil, in.Pos())
				x.store(st, p, x.val(st, in.Val))
				x.runRules(st, rs, false, args, nil, in.Pos(), nil)
				evnt.post = st.snapshot()
				return len(st.frames) > 0
			}
		}
		x.store(st, p, x.val(st, in.Val))
		return true
	case *ssa.MapUpdate:
		m := x.val(st, in.Map).(Sc).t
		x.guard(st, Ne(m, Nil), "assignment to nil map", in.Pos())
		if len(st.frames) == 0 {
			return false
		}
		mt := in.Map.Type().Underlying().(*types.Map)
		x.mapSet(st, m, mt, x.val(st, in.Key), x.val(st, in.Value))
		return true
	case *ssa.Send:
		x.wait(st, nil, in.Pos())
		if len(st.frames) == 0 {
			return false
		}
		return x.chanSend(st, x.val(st, in.Chan).(Sc).t, in.Chan.Type(), x.val(st, in.X), in.Pos())
	case *ssa.Select:
		return x.doSelect(st, in)
	case ssa.Value:
		v := x.eval(st, in)
		if len(st.frames) == 0 {
			return false
		}
		f.env[in] = v
		return true
	}
	unsup("instruction %T", in)
	return false
}

func instrPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	return in.Pos()
}

func (x *Exec) doReturn(st *State, rv Value, pos token.Pos) bool {
	f := st.top()
	for _, l := range f.loops {
		if l.dry {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.sub {
		st.subRet = rv
		if x.rets == nil {
			x.rets = []*State{}
		}
		x.rets = append(x.rets, st)
		return false
	}
	if len(st.frames) == 0 {
		x.atReturn(st, f, rv, pos)
		return false
	}
	if f.retTo != nil {
		st.top().env[f.retTo] = rv
	}
	return true
}

// unwind runs deferred calls while a panic propagates.
func (x *Exec) unwind(st *State) bool {
	f := st.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		p := st.panic
		st.panic = ""
		depth := len(st.frames)
		ok := x.invoke(st, d.call, d.fn, d.args, nil, d.pos)
		if !ok {
			return false
		}
		if len(st.frames) > depth { // inlined deferred function: run it to its end
			sub := st.top()
			sub.sub = true
			save := x.rets
			x.rets = nil
			w := x.work
			x.work = nil
			x.run(st)
			outs := x.rets
			x.rets = save
			x.work = w
			for _, o := range outs {
				o.panic = p
				x.work = append(x.work, o)
			}
			return false
		}
		st.panic = p
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		x.atPanicExit(st, f)
		return false
	}
	return true
}

// enter moves the top frame to block nb, evaluating its phis and handling loops.
func (x *Exec) enter(st *State, nb *ssa.BasicBlock) bool {
	f := st.top()
	cur := f.blk
	var vals []Value
	var phis []*ssa.Phi
	pi := -1
	for i, p := range nb.Preds {
		if p == cur {
			pi = i
		}
	}
	for _, in := range nb.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, p.Edges[pi]))
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.blk = nb
	f.pc = len(phis)
	return x.loopControl(st, f, cur, nb)
}

// ---- expression instructions ----

func (x *Exec) eval(st *State, in ssa.Value) Value {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return x.alloc(st, t)
	case *ssa.BinOp:
		return x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Pos())
	case *ssa.UnOp:
		return x.unop(st, in)
	case *ssa.ChangeType:
		return x.retype(x.val(st, in.X), in.Type())
	case *ssa.Convert:
		return x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		return x.val(st, in.X)
	case *ssa.MakeInterface:
		return x.box(x.val(st, in.X), in.X.Type())
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, b))
		}
		return x.funcVal(in.Fn.(*ssa.Function), bs)
	case *ssa.MakeMap:
		r := st.newRef()
		mt := in.Type().Underlying().(*types.Map)
		x.mapInit(st, r, mt)
		return Sc{r}
	case *ssa.MakeChan:
		return Sc{x.makeChan(st, in.Type(), x.val(st, in.Size).(Sc).t)}
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := x.to64(x.val(st, in.Len), in.Len.Type())
		c := x.to64(x.val(st, in.Cap), in.Cap.Type())
		x.guard(st, And(Sle(I64(0), n), Sle(n, c)), "makeslice: len out of range", in.Pos())
		if len(st.frames) == 0 {
			return nil
		}
		st.assume(Slt(c, I64(maxLen)))
		s := x.makeSlice(st, et, n, c)
		f := st.top()
		f.made = append(f.made, madeSlice{et, s})
		return s
	case *ssa.FieldAddr:
		p := x.val(st, in.X).(PtrV)
		x.nilCheck(st, p, in.Pos())
		sT := p.typ.Underlying().(*types.Struct)
		fd := sT.Field(in.Field)
		if rs := x.rulesFor("field:" + tname(p.typ) + "." + fd.Name()); len(rs) > 0 && p.ref.op != "int" {
			x.runRules(st, rs, true, []Value{p}, nil, in.Pos(), nil)
			if len(st.frames) == 0 {
				return nil
			}
			x.runRules(st, rs, false, []Value{p}, nil, in.Pos(), nil)
		}
		return PtrV{ref: p.ref, base: p.base + "." + fd.Name(), idx: p.idx, typ: fd.Type()}
	case *ssa.Field:
		v := x.val(st, in.X).(StructV)
		return v.fs[in.Field]
	case *ssa.IndexAddr:
		i := x.to64(x.val(st, in.Index), in.Index.Type())
		switch b := x.val(st, in.X).(type) {
		case SliceV:
			x.guard(st, And(Sle(I64(0), i), Slt(i, b.len)), "index out of range", in.Pos())
			if !i.isBV() {
				st.cand(i)
			}
			if x.root != nil && len(x.root.rules) > 0 {
				n := "elem:" + tname(b.elem)
				if rs := x.rulesFor(n); len(rs) > 0 {
					args := []Value{b, Sc{i}}
					x.runRules(st, rs, true, args, nil, in.Pos(), nil)
					evnt := x.event(st, n, args, nil, in.Pos())
					x.runRules(st, rs, false, args, nil, in.Pos(), nil)
					evnt.post = st.snapshot()
					if len(st.frames) == 0 {
						return nil
					}
				}
			}
			return x.elemPtr(b, i)
		case PtrV:
			at := b.typ.Underlying().(*types.Array)
			x.nilCheck(st, b, in.Pos())
			x.guard(st, Ult(i, I64(at.Len())), "index out of range", in.Pos())
			base := b.base
			if !strings.HasPrefix(base, "E:") || b.idx != nil {
				base += "[]"
			}
			if b.idx != nil {
				unsup("nested arrays")
			}
			return PtrV{ref: b.ref, base: base, idx: i, typ: at.Elem()}
		}
		unsup("IndexAddr %T", x.val(st, in.X))
	case *ssa.Index:
		i := x.to64(x.val(st, in.Index), in.Index.Type())
		switch b := x.val(st, in.X).(type) {
		case StrV:
			x.guard(st, And(Sle(I64(0), i), Slt(i, b.len)), "index out of range", in.Pos())
			return Sc{Select(b.arr, Add(b.off, i))}
		case ArrV:
			x.guard(st, Ult(i, I64(b.typ.Len())), "index out of range", in.Pos())
			var ls []*Term
			for _, l := range leafSpecs("", b.typ) {
				ls = append(ls, Select(b.comp[l.key], i))
			}
			v, _ := x.fromLeaves(ls, b.typ.Elem())
			return v
		}
		unsup("Index of %T", x.val(st, in.X))
	case *ssa.Lookup:
		if s, ok := x.val(st, in.X).(StrV); ok {
			i := x.to64(x.val(st, in.Index), in.Index.Type())
			x.guard(st, And(Sle(I64(0), i), Slt(i, s.len)), "index out of range", in.Pos())
			return Sc{Select(s.arr, Add(s.off, i))}
		}
		mt := in.X.Type().Underlying().(*types.Map)
		has, v := x.mapGet(st, x.val(st, in.X).(Sc).t, mt, x.val(st, in.Index))
		if cm := x.constMapOf(in.X); cm != nil {
			st.assume(Ule(v.(StrV).len, I64(cm.max)))
		}
		if in.CommaOk {
			return TupleV{v, Sc{has}}
		}
		return v
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.Extract:
		return x.val(st, in.Tuple).(TupleV)[in.Index]
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Range:
		return x.rangeInit(st, in)
	case *ssa.Next:
		return x.rangeNext(st, in)
	case *ssa.Phi:
		unsup("stray phi")
	}
	unsup("value %T in %s", in, st.top().fn)
	return nil
}

// to64 widens an integer value to 64 bits according to its signedness.
func (x *Exec) to64(v Value, t types.Type) *Term {
	tt := v.(Sc).t
	w, s := intType(t)
	if w == 64 {
		return tt
	}
	if s {
		return SExt(tt, 64)
	}
	return ZExt(tt, 64)
}

func (x *Exec) retype(v Value, t types.Type) Value {
	switch v := v.(type) {
	case StructV:
		v.typ = t
		return v
	case SliceV:
		if s, ok := t.Underlying().(*types.Slice); ok {
			v.elem = s.Elem()
		}
		return v
	case PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if baseOf(p.Elem()) != baseOf(v.typ) {
				unsup("pointer conversion to %s", t)
			}
			v.typ = p.Elem()
		}
		return v
	}
	return v
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fw, fs := intType(from)
	tw, _ := intType(to)
	if fw > 0 && tw > 0 {
		t := v.(Sc).t
		switch {
		case tw < fw:
			return Sc{Extract(tw-1, 0, t)}
		case fs:
			return Sc{SExt(t, tw)}
		default:
			return Sc{ZExt(t, tw)}
		}
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		w, _ := intType(s.Elem())
		return w == 8
	}
	switch {
	case isStr(from) && isBytes(to):
		s := v.(StrV)
		r := st.newRef()
		x.setBytesArr(st, r, Splice(ConstArr(S64, BV(0, 8)), I64(0), s.arr, s.off, s.len))
		st.wellFormed(s)
		// the capacity is at least the length
		c := Fresh("cap", S64)
		st.assume(Ule(s.len, c))
		st.assume(Ult(c, I64(maxLen)))
		return SliceV{r, I64(0), s.len, c, "E:uint8", to.Underlying().(*types.Slice).Elem()}
	case isBytes(from) && isStr(to):
		s := v.(SliceV)
		return StrV{arr: x.bytesArr(st, s.ref), off: s.off, len: s.len}
	case isStr(from) && isStr(to):
		return v
	}
	if _, ok := scalarSort(from); ok {
		if _, ok2 := scalarSort(to); ok2 && fw > 0 {
			return Sc{Fresh("float", SInt)}
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Value {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		p := v.(PtrV)
		x.nilCheck(st, p, in.Pos())
		if len(st.frames) == 0 {
			return nil
		}
		r := x.load(st, p)
		if g, ok := in.X.(*ssa.Global); ok {
			switch r.(type) {
			case IfaceV, PtrV:
				if x.neverNil(g) {
					st.assume(Ne(refOf(r), Nil))
				}
			}
		}
		return r
	case token.NOT:
		return Sc{Not(v.(Sc).t)}
	case token.SUB:
		return Sc{Sub(BV(0, v.(Sc).t.sort.width()), v.(Sc).t)}
	case token.XOR:
		t := v.(Sc).t
		w := t.sort.width()
		return Sc{Bin("bvxor", t, BV(mask(w), w))}
	case token.ARROW:
		x.wait(st, []*Term{v.(Sc).t}, in.Pos())
		if len(st.frames) == 0 {
			return nil
		}
		return x.chanRecv(st, v.(Sc).t, in.X.Type(), in.CommaOk, in.Pos())
	}
	unsup("unop %s", in.Op)
	return nil
}

func (x *Exec) equal(a, b Value) *Term {
	switch av := a.(type) {
	case StrV:
		return strEq(av, b.(StrV))
	case StructV:
		bv := b.(StructV)
		var cs []*Term
		for i := range av.fs {
			cs = append(cs, x.equal(av.fs[i], bv.fs[i]))
		}
		return And(cs...)
	case SliceV:
		bv := b.(SliceV)
		if bv.ref == Nil {
			return Eq(av.ref, Nil)
		}
		if av.ref == Nil {
			return Eq(bv.ref, Nil)
		}
		unsup("slice comparison")
	case PtrV:
		bv := b.(PtrV)
		if (av.base != bv.base || av.idx != bv.idx) && av.ref != Nil && bv.ref != Nil {
			return False
		}
		return Eq(av.ref, bv.ref)
	case IfaceV:
		bv := b.(IfaceV)
		if av.dyn != nil && bv.dyn != nil && types.Identical(av.dyn, bv.dyn) {
			return x.equal(av.val, bv.val)
		}
		return Eq(av.id, bv.id)
	case FuncV:
		return Eq(av.id, b.(FuncV).id)
	case Sc:
		return Eq(av.t, refOrTerm(b))
	}
	unsup("equality on %T", a)
	return nil
}
func refOrTerm(v Value) *Term {
	if s, ok := v.(Sc); ok {
		return s.t
	}
	return refOf(v)
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return Sc{x.equal(a, b)}
	case token.NEQ:
		return Sc{Not(x.equal(a, b))}
	}
	if sa, ok := a.(StrV); ok {
		sb := b.(StrV)
		if op == token.ADD {
			return x.concat(st, sa, sb)
		}
		return Sc{Fresh("strcmp", SBool)}
	}
	w, signed := intType(ta)
	if w == 0 {
		if s, ok := a.(Sc); ok && s.t.sort == SBool {
			switch op {
			case token.AND, token.LAND:
				return Sc{And(s.t, b.(Sc).t)}
			case token.OR, token.LOR:
				return Sc{Or(s.t, b.(Sc).t)}
			}
		}
		// floating point: abstracted
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Sc{Fresh("fcmp", SBool)}
		}
		return Sc{Fresh("float", SInt)}
	}
	s, t := a.(Sc).t, b.(Sc).t
	switch op {
	case token.SHL, token.SHR:
		bw, bs := intType(tb)
		if bs {
			x.guard(st, Sle(BV(0, bw), t), "negative shift amount", pos)
		}
		var big *Term = False // amount not representable in w bits
		if bw > w {
			big = Not(Ult(t, BV(uint64(w), bw)))
			t = Extract(w-1, 0, t)
		} else {
			t = ZExt(t, w)
		}
		var r *Term
		switch {
		case op == token.SHL:
			r = Ite(big, BV(0, w), Bin("bvshl", s, t))
		case signed:
			r = Ite(big, Bin("bvashr", s, BV(uint64(w-1), w)), Bin("bvashr", s, t))
		default:
			r = Ite(big, BV(0, w), Bin("bvlshr", s, t))
		}
		return Sc{r}
	}
	if s.sort != t.sort {
		unsup("operand sorts %s %s", s.sort, t.sort)
	}
	switch op {
	case token.ADD:
		return Sc{Add(s, t)}
	case token.SUB:
		return Sc{Sub(s, t)}
	case token.MUL:
		return Sc{Bin("bvmul", s, t)}
	case token.QUO, token.REM:
		x.guard(st, Ne(t, BV(0, w)), "integer divide by zero", pos)
		m := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}
		return Sc{Bin(m[signed][op], s, t)}
	case token.AND:
		return Sc{Bin("bvand", s, t)}
	case token.OR:
		return Sc{Bin("bvor", s, t)}
	case token.XOR:
		return Sc{Bin("bvxor", s, t)}
	case token.AND_NOT:
		return Sc{Bin("bvand", s, Bin("bvxor", t, BV(mask(w), w)))}
	case token.LSS:
		if signed {
			return Sc{Slt(s, t)}
		}
		return Sc{Ult(s, t)}
	case token.LEQ:
		if signed {
			return Sc{Sle(s, t)}
		}
		return Sc{Ule(s, t)}
	case token.GTR:
		if signed {
			return Sc{Slt(t, s)}
		}
		return Sc{Ult(t, s)}
	case token.GEQ:
		if signed {
			return Sc{Sle(t, s)}
		}
		return Sc{Ule(t, s)}
	}
	unsup("binop %s", op)
	return nil
}

func (x *Exec) concat(st *State, a, b StrV) Value {
	la, oka := litBytes[strTerm(a)]
	lb, okb := litBytes[strTerm(b)]
	if oka && okb {
		return litStr(la + lb)
	}
	st.wellFormed(a)
	st.wellFormed(b)
	arr := Splice(Splice(ConstArr(S64, BV(0, 8)), I64(0), a.arr, a.off, a.len), a.len, b.arr, b.off, b.len)
	return StrV{arr: arr, off: I64(0), len: Add(a.len, b.len), id: App("strcat", SStr, strTerm(a), strTerm(b))}
}

func (x *Exec) makeSlice(st *State, et types.Type, n, c *Term) SliceV {
	r := st.newRef()
	base := "E:" + typeKey(et)
	for _, l := range leafSpecs(base, et) {
		cm := st.comp(l.key, compSort(true, l.sort))
		st.heap[l.key] = Store(cm, r, ConstArr(S64, zeroTerm(l.sort)))
	}
	return SliceV{r, I64(0), n, c, base, et}
}

func (x *Exec) slice(st *State, in *ssa.Slice) Value {
	v := x.val(st, in.X)
	get := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		return x.to64(x.val(st, e), e.Type())
	}
	lo := get(in.Low, I64(0))
	switch b := v.(type) {
	case SliceV:
		hi := get(in.High, b.len)
		mx := get(in.Max, b.cap)
		x.guard(st, And(Ule(lo, hi), Ule(hi, mx), Ule(mx, b.cap)), "slice bounds out of range", in.Pos())
		return SliceV{b.ref, Add(b.off, lo), Sub(hi, lo), Sub(mx, lo), b.base, b.elem}
	case StrV:
		hi := get(in.High, b.len)
		x.guard(st, And(Ule(lo, hi), Ule(hi, b.len)), "slice bounds out of range", in.Pos())
		if lo == I64(0) && hi == b.len {
			return b
		}
		return StrV{arr: b.arr, off: Add(b.off, lo), len: Sub(hi, lo)}
	case PtrV:
		at := b.typ.Underlying().(*types.Array)
		n := I64(at.Len())
		hi := get(in.High, n)
		mx := get(in.Max, n)
		x.nilCheck(st, b, in.Pos())
		x.guard(st, And(Ule(lo, hi), Ule(hi, mx), Ule(mx, n)), "slice bounds out of range", in.Pos())
		if b.idx != nil {
			unsup("slice of nested array")
		}
		base := b.base
		if !strings.HasPrefix(base, "E:") {
			base += "[]"
		}
		return SliceV{b.ref, lo, Sub(hi, lo), Sub(mx, lo), base, at.Elem()}
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) Value {
	iv := x.val(st, in.X).(IfaceV)
	at := in.AssertedType
	if _, isI := at.Underlying().(*types.Interface); isI {
		var ok *Term
		if iv.dyn != nil {
			ok = Bool(types.AssertableTo(at.Underlying().(*types.Interface), iv.dyn))
		} else {
			ok = And(Ne(iv.id, Nil), App("impl:"+types.TypeString(at, shortQual), SBool, iv.id))
			if types.AssignableTo(in.X.Type(), at) {
				ok = Ne(iv.id, Nil)
			}
		}
		if in.CommaOk {
			return TupleV{IfaceV{id: Ite(ok, iv.id, Nil), dyn: iv.dyn, val: iv.val}, Sc{ok}}
		}
		x.guard(st, ok, "type assertion", in.Pos())
		return iv
	}
	if iv.dyn != nil {
		ok := types.Identical(iv.dyn, at)
		if in.CommaOk {
			if ok {
				return TupleV{iv.val, Sc{True}}
			}
			return TupleV{x.zero(at), Sc{False}}
		}
		x.guard(st, Bool(ok), "type assertion", in.Pos())
		return iv.val
	}
	key := "dyn:" + types.TypeString(at, shortQual)
	ok := And(Ne(iv.id, Nil), App(key, SBool, iv.id))
	var ls []*Term
	for i, l := range leafSpecs("", at) {
		ls = append(ls, App(fmt.Sprintf("unbox:%s:%d", types.TypeString(at, shortQual), i), l.sort, iv.id))
	}
	v, _ := x.fromLeaves(ls, at)
	if in.CommaOk {
		return TupleV{v, Sc{ok}}
	}
	x.guard(st, ok, "type assertion", in.Pos())
	return v
}

// ---- maps ----

func mapKeys(mt *types.Map) (string, Sort) {
	var ks Sort
	if s, ok := scalarSort(mt.Key()); ok {
		ks = s
	} else if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		ks = SStr
	} else {
		unsup("map key %s", mt.Key())
	}
	return "M:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem()), ks
}
func mapLeaves(mt *types.Map) []leafSpec {
	b, ks := mapKeys(mt)
	out := []leafSpec{{b + "#has", SArr(ks, SBool)}}
	if st, ok := mt.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return out
	}
	for _, l := range leafSpecs(b, mt.Elem()) {
		out = append(out, leafSpec{l.key, SArr(ks, l.sort)})
	}
	return out
}
func (x *Exec) mapInit(st *State, r *Term, mt *types.Map) {
	for _, l := range mapLeaves(mt) {
		c := st.comp(l.key, SArr(SInt, l.sort))
		st.heap[l.key] = Store(c, r, zeroTerm(l.sort))
	}
}
func keyTerm(k Value) *Term {
	if s, ok := k.(StrV); ok {
		return strTerm(s)
	}
	return refOrTerm(k)
}
func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k, v Value) {
	kt := keyTerm(k)
	ls := append([]*Term{True}, x.toLeaves(v, mt.Elem())...)
	for i, l := range mapLeaves(mt) {
		c := st.comp(l.key, SArr(SInt, l.sort))
		st.heap[l.key] = Store(c, m, Store(Select(c, m), kt, ls[i]))
	}
	st.cand(kt)
}
func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Value) {
	l := mapLeaves(mt)[0]
	c := st.comp(l.key, SArr(SInt, l.sort))
	st.heap[l.key] = Ite(Eq(m, Nil), c, Store(c, m, Store(Select(c, m), keyTerm(k), False)))
	st.cand(keyTerm(k))
}
func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k Value) (*Term, Value) {
	kt := keyTerm(k)
	st.cand(kt)
	var has *Term
	var ls []*Term
	zs := leafZeros(mt.Elem())
	for i, l := range mapLeaves(mt) {
		c := st.comp(l.key, SArr(SInt, l.sort))
		t := Select(Select(c, m), kt)
		if i == 0 {
			has = And(Ne(m, Nil), t)
		} else {
			ls = append(ls, Ite(has, t, zs[i-1]))
		}
	}
	v, _ := x.fromLeaves(ls, mt.Elem())
	st.wellFormed(v)
	return has, v
}
func leafZeros(t types.Type) []*Term {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return nil
	}
	var out []*Term
	for _, l := range leafSpecs("", t) {
		out = append(out, zeroTerm(l.sort))
	}
	return out
}

// iteration over maps: the iterator remembers what it has visited
type iterV struct {
	m   *Term
	mt  *types.Map
	id  *Term
	key string
	str *StrV
}

func (x *Exec) rangeInit(st *State, in *ssa.Range) Value {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		unsup("range over string")
	}
	_, ks := mapKeys(mt)
	r := st.newRef()
	key := "I:" + typeKey(mt.Key()) + "#seen"
	c := st.comp(key, SArr(SInt, SArr(ks, SBool)))
	st.heap[key] = Store(c, r, ConstArr(ks, False))
	return iterV{m: x.val(st, in.X).(Sc).t, mt: mt, id: r, key: key}
}
func (x *Exec) rangeNext(st *State, in *ssa.Next) Value {
	it := x.val(st, in.Iter).(iterV)
	_, ks := mapKeys(it.mt)
	c := st.comp(it.key, SArr(SInt, SArr(ks, SBool)))
	seen := Select(c, it.id)
	hl := mapLeaves(it.mt)[0]
	has := Select(st.comp(hl.key, SArr(SInt, hl.sort)), it.m)
	ok := Fresh("next.ok", SBool)
	kv := x.fresh(st, "key", it.mt.Key())
	kt := keyTerm(kv)
	st.cand(kt)
	st.assume(Implies(ok, And(Ne(it.m, Nil), Select(has, kt), Not(Select(seen, kt)))))
	b := boundVar(ks, 0)
	st.assume(Implies(Not(ok), ForallT(b, Implies(And(Ne(it.m, Nil), Select(has, b)), Select(seen, b)))))
	st.heap[it.key] = Store(c, it.id, Ite(ok, Store(seen, kt, True), seen))
	_, v := x.mapGet(st, it.m, it.mt, kv)
	return TupleV{Sc{ok}, kv, v}
}

func boundVar(s Sort, depth int) *Term {
	return Var(fmt.Sprintf("bound!%d!%s", depth, s), s)
}

// ---- events ----

func (x *Exec) event(st *State, name string, args []Value, rets Value, pos token.Pos) *Event {
	e := &Event{name: name, args: args, rets: rets, pos: pos, pre: st.snapshot(), next: int(st.next)}
	e.post = e.pre
	st.events = append(st.events, e)
	return e
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
