package main

// Calls: builtins, inlining, models of functions outside the repository,
// contracts, channels, goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	name string
	sig  *types.Signature
	pos  token.Pos
	call *ssa.CallCommon
}

// a model computes the effect and result of a call
type model func(x *Exec, st *State, args []Value, c *callCtx) Value

func (x *Exec) callee(st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		args = append(args, x.val(st, c.Value))
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return x.val(st, c.Value), args
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), modPath+"/")
	})
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return shortFn(fn)
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fn Value, args []Value, in ssa.Value, pos token.Pos) bool {
	set := func(v Value) bool {
		if len(st.frames) == 0 {
			return false
		}
		if in != nil {
			st.top().env[in] = v
		}
		return true
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return set(x.builtin(st, b.Name(), c, args, pos))
	}
	var target *ssa.Function
	var bind []Value
	if c.IsInvoke() {
		iv := args[0].(IfaceV)
		if iv.dyn != nil {
			m := x.prog.LookupMethod(iv.dyn, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				unsup("method %s of %s", c.Method.Name(), iv.dyn)
			}
			target = m
			args = append([]Value{iv.val}, args[1:]...)
		} else {
			x.nilCheck(st, iv, pos)
			if len(st.frames) == 0 {
				return false
			}
			name := strings.ReplaceAll(c.Method.FullName(), modPath+"/", "")
			return x.external(st, name, c.Signature(), args, set, pos, c)
		}
	} else {
		fv := fn.(FuncV)
		if fv.fn == nil {
			x.nilCheck(st, fv, pos)
			if len(st.frames) == 0 {
				return false
			}
			name := "dyn:" + tname(c.Value.Type())
			return x.external(st, name, c.Signature(), args, set, pos, c)
		}
		target, bind = fv.fn, fv.bind
	}
	return x.callFn(st, target, bind, args, in, set, pos, c)
}

func (x *Exec) callFn(st *State, target *ssa.Function, bind, args []Value, in ssa.Value, set func(Value) bool, pos token.Pos, c *ssa.CallCommon) bool {
	name := fnName(target)
	if m, ok := models[name]; ok {
		return x.applyModel(st, name, m, target.Signature, args, set, pos, c)
	}
	if x.spec != nil {
		if ct := x.spec.contracts[name]; ct != nil && ct.use && (x.root == nil || x.root != ct) {
			x.usedC[name] = true
			return set(x.applyContract(st, ct, target, args, target.Signature, &callCtx{name, target.Signature, pos, c}))
		}
	}
	if x.inlinable(target) {
		x.inlined[name] = true
		if len(st.frames) > 60 {
			unsup("call depth (recursion through %s)", name)
		}
		for _, f := range st.frames {
			if f.fn == target {
				unsup("recursive call of %s", name)
			}
		}
		f := &Frame{fn: target, env: map[ssa.Value]Value{}, blk: target.Blocks[0], retTo: in}
		for i, p := range target.Params {
			f.env[p] = args[i]
		}
		for i, fv := range target.FreeVars {
			f.env[fv] = bind[i]
		}
		st.frames = append(st.frames, f)
		return true
	}
	return x.external(st, name, target.Signature, args, set, pos, c)
}

var inlinePkgs = map[string]bool{"encoding/binary": true, "math/bits": true, "internal/byteorder": true, "cmp": true}
var inlineFns = map[string]bool{"os.Open": true, "os.Create": true, "(io/fs.FileMode).IsDir": true,
	"(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).Perm": true, "(io/fs.FileMode).Type": true,
	"strings.HasPrefix": true, "internal/stringslite.HasPrefix": true}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0 {
		return true // wrappers, bound methods
	}
	var pkg *ssa.Package
	for f := fn; f != nil && pkg == nil; f = f.Parent() {
		pkg = f.Pkg
		if pkg == nil && f.Origin() != nil {
			pkg = f.Origin().Pkg
		}
	}
	if pkg == nil {
		return false
	}
	path := pkg.Pkg.Path()
	if strings.HasPrefix(path, modPath) {
		return len(fn.Blocks) > 0
	}
	if inlinePkgs[path] || inlineFns[fnName(fn)] {
		pkg.Build()
		return len(fn.Blocks) > 0
	}
	return false
}

// pathRules: every string handed to a function that names files by path is an
// event "path:FUNCTION".
func (x *Exec) pathRules(st *State, name string, args []Value, pos token.Pos) {
	if !pathFn(name) {
		return
	}
	rs := x.rulesFor("path:" + name)
	for _, a := range args {
		if s, ok := a.(StrV); ok && len(rs) > 0 && len(st.frames) > 0 {
			x.runRules(st, rs, true, []Value{s}, nil, pos, nil)
			x.runRules(st, rs, false, []Value{s}, nil, pos, nil)
			x.event(st, "path:"+name, []Value{s}, nil, pos)
		}
	}
}

var notPath = map[string]bool{"os.Getenv": true, "os.LookupEnv": true, "os.Setenv": true, "os.Unsetenv": true, "os.ExpandEnv": true, "os.Expand": true,
	"os.NewSyscallError": true, "os.NewFile": true, "syscall.Getenv": true}

func pathFn(name string) bool {
	if notPath[name] {
		return false
	}
	for _, p := range []string{"os.", "os/exec.", "io/ioutil.", "syscall.", "(*os.Root)", "path/filepath.Walk", "path/filepath.Glob", "path/filepath.EvalSymlinks",
		"net.Dial", "net.Listen", "plugin.", "golang.org/x/sys"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) applyModel(st *State, name string, m model, sig *types.Signature, args []Value, set func(Value) bool, pos token.Pos, c *ssa.CallCommon) bool {
	x.modelled[name] = true
	x.pathRules(st, name, args, pos)
	if len(st.frames) == 0 {
		return false
	}
	rs := x.rulesFor(name)
	if len(rs) > 0 || eventful[name] {
		pre := st.snapshot()
		x.runRules(st, rs, true, args, nil, pos, sig)
		if len(st.frames) == 0 {
			return false
		}
		v := m(x, st, args, &callCtx{name, sig, pos, c})
		if len(st.frames) == 0 {
			return false
		}
		e := x.event(st, name, args, v, pos)
		e.pre = pre
		x.runRules(st, rs, false, args, v, pos, sig)
		e.post = st.snapshot()
		return set(v)
	}
	return set(m(x, st, args, &callCtx{name, sig, pos, c}))
}

// external: a call whose body is outside the verified code.  The result is
// arbitrary; rules of the contract being checked may constrain it.
func (x *Exec) external(st *State, name string, sig *types.Signature, args []Value, set func(Value) bool, pos token.Pos, c *ssa.CallCommon) bool {
	if m, ok := models[name]; ok {
		return x.applyModel(st, name, m, sig, args, set, pos, c)
	}
	if !harmless(name) {
		for i, a := range args {
			if i == 0 && (sig.Recv() != nil || (c != nil && c.IsInvoke())) {
				continue
			}
			switch a := a.(type) {
			case SliceV:
				if a.len != I64(0) {
					unsup("call of %s, which may change its arguments", name)
				}
			case PtrV:
				if a.ref.op == "int" {
					unsup("call of %s, which may change its arguments", name)
				}
			}
		}
	}
	x.modelled[name] = true
	x.pathRules(st, name, args, pos)
	if len(st.frames) == 0 {
		return false
	}
	rs := x.rulesFor(name)
	pre := st.snapshot()
	x.runRules(st, rs, true, args, nil, pos, sig)
	if len(st.frames) == 0 {
		return false
	}
	v := x.freshResult(st, name, sig)
	e := x.event(st, name, args, v, pos)
	e.pre = pre
	for _, r := range rs {
		if r.mayPanic && st.dry == 0 {
			o := st.clone()
			o.panic = "panic in " + name
			x.work = append(x.work, o)
			break
		}
	}
	x.runRules(st, rs, false, args, v, pos, sig)
	if len(st.frames) == 0 {
		return false
	}
	e.post = st.snapshot()
	return set(v)
}

func (x *Exec) freshResult(st *State, name string, sig *types.Signature) Value {
	rt := sig.Results()
	n := name[strings.LastIndexAny(name, "./")+1:]
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		return x.fresh(st, n, rt.At(0).Type())
	}
	return x.fresh(st, n, rt)
}

func harmless(name string) bool {
	for _, p := range []string{"log.", "fmt.", "os.", "(*os.File)", "time.", "runtime.", "(protocol.NineServer)", "(*log.Logger)", "path", "dyn:protocol.Tracer", "dyn:protocol.", "(net.", "(io.", "(io/fs."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// ---- builtins ----

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return Sc{v.cap}
			}
			return Sc{v.len}
		case StrV:
			return Sc{v.len}
		case ArrV:
			return Sc{I64(v.typ.Len())}
		case Sc: // map or channel
			n := Fresh("len", S64)
			st.assume(Ult(n, I64(maxLen)))
			return Sc{n}
		case PtrV:
			return Sc{I64(v.typ.Underlying().(*types.Array).Len())}
		}
	case "append":
		return x.appendSlice(st, args[0].(SliceV), args[1])
	case "copy":
		return x.copySlice(st, args[0].(SliceV), args[1])
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, args[0].(Sc).t, mt, args[1])
		return nil
	case "close":
		ch := args[0].(Sc).t
		x.guard(st, Ne(ch, Nil), "close of nil channel", pos)
		n := "close:" + tname(c.Args[0].Type().Underlying().(*types.Chan).Elem())
		x.runRules(st, x.rulesFor(n), true, args, nil, pos, nil)
		if len(st.frames) == 0 {
			return nil
		}
		evnt := x.event(st, n, args, nil, pos)
		x.runRules(st, x.rulesFor(n), false, args, nil, pos, nil)
		evnt.post = st.snapshot()
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		w, s := intType(c.Args[0].Type())
		if w > 0 {
			r := args[0].(Sc).t
			for _, a := range args[1:] {
				t := a.(Sc).t
				lt := Ult(t, r)
				if s {
					lt = Slt(t, r)
				}
				if name == "max" {
					lt = Not(Or(lt, Eq(t, r)))
				}
				r = Ite(lt, t, r)
			}
			return Sc{r}
		}
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], pos)
		return args[0]
	case "recover":
		unsup("recover")
	}
	unsup("builtin %s", name)
	return nil
}

// srcElems gives, per leaf of the element type, the index array of a slice or
// string being read.
func (x *Exec) srcElems(st *State, v Value, base string, et types.Type) (arrs []*Term, off, n *Term) {
	switch v := v.(type) {
	case StrV:
		return []*Term{v.arr}, v.off, v.len
	case SliceV:
		for _, l := range leafSpecs(v.base, v.elem) {
			arrs = append(arrs, Select(st.comp(l.key, compSort(true, l.sort)), v.ref))
		}
		return arrs, v.off, v.len
	}
	unsup("srcElems %T", v)
	return nil, nil, nil
}

func (x *Exec) appendSlice(st *State, s SliceV, src Value) Value {
	arrs, so, n := x.srcElems(st, src, s.base, s.elem)
	if n == I64(0) {
		return s
	}
	specs := leafSpecs(s.base, s.elem)
	r := st.newRef()
	for i, l := range specs {
		c := st.comp(l.key, compSort(true, l.sort))
		old := Select(c, s.ref)
		na := Splice(Splice(ConstArr(S64, zeroTerm(l.sort)), I64(0), old, s.off, s.len), s.len, arrs[i], so, n)
		// the old array's spare capacity may have been written
		c2 := c
		if s.ref != Nil && s.len != s.cap {
			f := Fresh("spare", old.sort)
			refBound[f] = int64(st.next)
			c2 = Store(c, s.ref, Splice(f, I64(0), old, I64(0), Add(s.off, s.len)))
		}
		st.heap[l.key] = Store(c2, r, na)
	}
	nl := Add(s.len, n)
	cp := Fresh("cap", S64)
	st.assume(Ule(nl, cp))
	st.assume(Ult(cp, I64(maxLen)))
	if s.ref == Nil {
		return SliceV{r, I64(0), nl, cp, s.base, s.elem}
	}
	return SliceV{Ite(Eq(n, I64(0)), s.ref, r), Ite(Eq(n, I64(0)), s.off, I64(0)), nl, cp, s.base, s.elem}
}

func (x *Exec) copySlice(st *State, d SliceV, src Value) Value {
	arrs, so, n := x.srcElems(st, src, d.base, d.elem)
	m := Ite(Ult(n, d.len), n, d.len)
	for i, l := range leafSpecs(d.base, d.elem) {
		c := st.comp(l.key, compSort(true, l.sort))
		old := Select(c, d.ref)
		var na *Term
		if m.isBV() && m.val <= 16 {
			na = old
			for j := uint64(0); j < m.val; j++ {
				na = Store(na, Add(d.off, I64(int64(j))), Select(arrs[i], Add(so, I64(int64(j)))))
			}
		} else if m.op == "ite" && n.isBV() && n.val <= 16 {
			// short constant source into a destination of unknown length
			na = old
			for j := uint64(0); j < n.val; j++ {
				at := Add(d.off, I64(int64(j)))
				na = Store(na, at, Ite(Ult(I64(int64(j)), d.len), Select(arrs[i], Add(so, I64(int64(j)))), Select(old, at)))
			}
		} else {
			na = Splice(old, d.off, arrs[i], so, m)
		}
		st.heap[l.key] = Store(c, d.ref, na)
	}
	return Sc{m}
}

// ---- channels ----

func (x *Exec) makeChan(st *State, t types.Type, n *Term) *Term {
	r := st.newRef()
	c := st.comp("G:chancap", SArr(SInt, S64))
	st.heap["G:chancap"] = Store(c, r, n)
	return r
}

// wait: the goroutine may stop here for ever unless one of the channels in offers
// gives a value or is closed, or a send goes through.
func (x *Exec) wait(st *State, offers []*Term, pos token.Pos) {
	rs := x.rulesFor("wait")
	if len(rs) == 0 {
		return
	}
	x.offers = offers
	x.runRules(st, rs, true, nil, nil, pos, nil)
	if len(st.frames) > 0 {
		x.runRules(st, rs, false, nil, nil, pos, nil)
	}
	x.offers = nil
}

// doSelect follows each arm: which one is taken is up to the others.
func (x *Exec) doSelect(st *State, in *ssa.Select) bool {
	if in.Blocking {
		offers := []*Term{}
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				offers = append(offers, x.val(st, s.Chan).(Sc).t)
			}
		}
		x.wait(st, offers, in.Pos())
		if len(st.frames) == 0 {
			return false
		}
	}
	arms := len(in.States)
	if !in.Blocking {
		arms++
	}
	for i := arms - 1; i >= 0; i-- {
		o := st
		if i > 0 {
			o = st.clone()
		}
		f := o.top()
		idx := I64(int64(i))
		if i == len(in.States) {
			idx = I64(-1)
		}
		res := TupleV{Sc{idx}, Sc{False}}
		ok := true
		for j, s := range in.States {
			ct := s.Chan.Type()
			ch := x.val(o, s.Chan).(Sc).t
			switch {
			case s.Dir == types.SendOnly:
				if i == j {
					o.assume(Ne(ch, Nil))
					ok = x.chanSend(o, ch, ct, x.val(o, s.Send), in.Pos())
				}
			case i == j:
				o.assume(Ne(ch, Nil))
				r := x.chanRecv(o, ch, ct, true, in.Pos()).(TupleV)
				res[1] = r[1]
				res = append(res, r[0])
			default:
				res = append(res, x.zero(ct.Underlying().(*types.Chan).Elem()))
			}
			if !ok || len(o.frames) == 0 {
				ok = false
				break
			}
		}
		if ok {
			f.env[in] = res
			o.trail = append(o.trail, fmt.Sprintf("%s arm %d", x.posStr(in.Pos()), i))
		}
		if i > 0 {
			if ok {
				x.work = append(x.work, o)
			}
		} else {
			return ok
		}
	}
	return false
}

func (x *Exec) chanSend(st *State, ch *Term, ct types.Type, v Value, pos token.Pos) bool {
	n := "send:" + tname(ct.Underlying().(*types.Chan).Elem())
	rs := x.rulesFor(n)
	args := []Value{Sc{ch}, v}
	x.runRules(st, rs, true, args, nil, pos, nil)
	if len(st.frames) == 0 {
		return false
	}
	evnt := x.event(st, n, args, nil, pos)
	x.runRules(st, rs, false, args, nil, pos, nil)
	evnt.post = st.snapshot()
	return len(st.frames) > 0
}

func (x *Exec) chanRecv(st *State, ch *Term, ct types.Type, commaOk bool, pos token.Pos) Value {
	et := ct.Underlying().(*types.Chan).Elem()
	n := "recv:" + tname(et)
	v := x.fresh(st, "recv", et)
	open := Fresh("chanopen", SBool)
	fl := x.toLeaves(v, et)
	zl := x.toLeaves(x.zero(et), et)
	var ls []*Term
	for i := range fl {
		ls = append(ls, Ite(open, fl[i], zl[i]))
	}
	rs := x.rulesFor(n)
	r, _ := x.fromLeaves(ls, et)
	// rules may assume the channel is never closed: decide it here
	for _, rl := range rs {
		if rl.open {
			open = True
			r = v
		}
	}
	args := []Value{Sc{ch}, r, Sc{open}}
	x.runRules(st, rs, true, args, nil, pos, nil)
	evnt := x.event(st, n, args, nil, pos)
	x.runRules(st, rs, false, args, nil, pos, nil)
	evnt.post = st.snapshot()
	if commaOk {
		return TupleV{r, Sc{open}}
	}
	return r
}

func (x *Exec) spawn(st *State, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos) bool {
	var target *ssa.Function
	var bind []Value
	if c.IsInvoke() {
		unsup("go on an interface method")
	}
	fv, ok := fn.(FuncV)
	if !ok || fv.fn == nil {
		unsup("go with an unknown function")
	}
	target, bind = fv.fn, fv.bind
	if t, as, ok := x.unwrapGo(st, target, bind, args); ok {
		target, bind, args = t, nil, as
	}
	n := "go:" + fnName(target)
	if target.Parent() != nil {
		n = "go:func"
	}
	ev := append([]Value(nil), args...)
	evnt := x.event(st, n, ev, nil, pos)
	x.runRules(st, x.rulesFor(n), false, ev, nil, pos, nil)
	evnt.post = st.snapshot()
	if x.root != nil && x.root.spawn && st.dry == 0 && (x.spec.contracts[fnName(target)] == nil) {
		o := st.clone()
		o.events = nil
		o.evBase = 0
		f := &Frame{fn: target, env: map[ssa.Value]Value{}, blk: target.Blocks[0]}
		for i, p := range target.Params {
			f.env[p] = args[i]
		}
		for i, v := range target.FreeVars {
			f.env[v] = bind[i]
		}
		o.frames = []*Frame{{fn: target, isDef: true, env: map[ssa.Value]Value{}}, f}
		o.frames = []*Frame{f}
		f.isDef = true // marks a goroutine root
		x.inlined[fnName(target)] = true
		x.work = append(x.work, o)
	}
	return true
}

// unwrapGo recognises go func() { f(a, b) }(): a closure that only calls one
// function with captured variables that nothing assigns after their first
// value, and gives that call.
func (x *Exec) unwrapGo(st *State, fn *ssa.Function, bind, args []Value) (*ssa.Function, []Value, bool) {
	if fn.Parent() == nil || len(fn.Blocks) != 1 {
		return nil, nil, false
	}
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		env[v] = bind[i]
	}
	var call *ssa.CallCommon
	var res Value
	_ = res
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.RunDefers:
		case *ssa.UnOp:
			fv, ok := in.X.(*ssa.FreeVar)
			if !ok || in.Op != token.MUL || call != nil || !assignedOnce(fn, fv) {
				return nil, nil, false
			}
			p, ok := env[fv].(PtrV)
			if !ok {
				return nil, nil, false
			}
			env[in] = x.load(st, p)
		case *ssa.Call:
			if call != nil || in.Call.IsInvoke() || in.Call.StaticCallee() == nil {
				return nil, nil, false
			}
			call = &in.Call
		default:
			return nil, nil, false
		}
	}
	if call == nil {
		return nil, nil, false
	}
	var as []Value
	for _, a := range call.Args {
		if v, ok := env[a]; ok {
			as = append(as, v)
		} else if c, ok := a.(*ssa.Const); ok {
			as = append(as, x.constant(c))
		} else {
			return nil, nil, false
		}
	}
	return call.StaticCallee(), as, true
}

// assignedOnce: the variable a closure captures is stored to once, before the
// closure is made.
func assignedOnce(fn *ssa.Function, fv *ssa.FreeVar) bool {
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			a, ok := mc.Bindings[idx].(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					if r != mc {
						return false
					}
				default:
					return false
				}
			}
			return n <= 1
		}
	}
	return false
}
