package main

// Sharing obligations.  Functions are verified as running alone; these
// obligations are what makes that right although connections, clients and
// goroutines run concurrently:
//
//   confined  the code reachable from the given functions uses no variable of
//             its package that anything but the initialiser changes, changes
//             nothing through one, starts no goroutine where the contract does
//             not say so, and shares no local variable with one it starts
//   threads   a field of a struct used by several goroutines is covered by the
//             contracts, or belongs to one of them, or never changes

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (x *Exec) repoFns() map[*ssa.Function]bool {
	in := map[*ssa.Package]bool{}
	for _, p := range x.pkgs {
		in[p] = true
	}
	out := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(x.prog) {
		if fn.Pkg != nil && in[fn.Pkg] {
			out[fn] = true
		}
	}
	return out
}

// reach: the functions whose code runs when fn runs; goroutines it starts are
// followed only if spawn is set.
func (x *Exec) reach(roots []*ssa.Function, repo map[*ssa.Function]bool, spawn bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		if !repo[fn] && (fn.Synthetic == "" || fn.Object() == nil || fn.Object().Pkg() == nil || !x.isRepoPkg(fn.Object().Pkg())) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && !spawn {
					_ = g
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && !spawn && onlyGo(mc) {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func onlyGo(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case *ssa.Go:
			if r.Call.Value != ssa.Value(mc) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (x *Exec) isRepoPkg(p *types.Package) bool {
	for _, q := range x.pkgs {
		if q.Pkg == p {
			return true
		}
	}
	return false
}

func (x *Exec) rootsOf(pats []string, repo map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range repo {
		if fn.Parent() == nil && fn.Synthetic == "" && x.globOK(pats, shortFn(fn)) {
			out = append(out, fn)
		}
	}
	return out
}

func isInit(fn *ssa.Function) bool {
	return fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Synthetic != "" && fn.Name() == "init" || len(fn.Name()) > 5 && fn.Name()[:5] == "init#")
}

// plain: values of the type have no parts that can be changed through them.
func plain(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Array:
		return plain(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !plain(t.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// readOnly: the address (or reference) v is only used to read.
func readOnly(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
		case *ssa.BinOp: // comparison with nil
		case *ssa.UnOp:
			if r.Op == token.MUL && !plain(r.Type()) && !readOnly(r) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnly(r) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnly(r) {
				return false
			}
		case *ssa.Slice:
			if !readOnly(r) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && r.Call.Args[0] != v {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func isLock(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
		return true
	}
	return false
}

// logger: printing does not change what the code under contract computes.
func isLogger(t types.Type) bool { return types.TypeString(t, nil) == "*log.Logger" }

func (x *Exec) proveConfined(f *frameDecl) {
	repo := x.repoFns()
	changed := map[*ssa.Global]string{} // by whom, outside initialisers
	for fn := range repo {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						changed[g] = shortFn(fn)
					}
				}
			}
		}
	}
	roots := x.rootsOf(f.allowed, repo)
	bad := map[string]bool{}
	for fn := range x.reach(roots, repo, true) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					why := ""
					gt := g.Type().Underlying().(*types.Pointer).Elem()
					own := g.Pkg != nil && x.isRepoPkg(g.Pkg.Pkg)
					switch in := in.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						switch {
						case own && changed[g] != "":
							why = "reads a variable that " + changed[g] + " changes"
						case plain(gt) || isLogger(gt) || !own:
						case !readOnly(in):
							why = "may change what the variable refers to"
						}
					case *ssa.Store:
						why = "changes the variable"
					case *ssa.FieldAddr:
						if !readOnly(in) {
							why = "may change the variable"
						}
					case *ssa.IndexAddr:
						if !readOnly(in) {
							why = "may change the variable"
						}
					case *ssa.Slice:
						if !readOnly(in) {
							why = "may change the variable"
						}
					case ssa.CallInstruction:
						if !isLock(gt) {
							why = "passes the variable's address on"
						}
					default:
						why = "uses the variable's address"
					}
					if why != "" {
						bad[fmt.Sprintf("%s %s (%s)", shortFn(fn), why, g.Name())] = true
					}
				}
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				if w := sharedLocal(g); w != "" {
					bad[fmt.Sprintf("%s shares the local variable %s with a goroutine", shortFn(fn), w)] = true
				}
				if !x.mayGo(fn, roots) {
					bad[shortFn(fn)+" starts a goroutine"] = true
				}
			}
		}
	}
	x.verdict(f, fmt.Sprintf("code run for different connections, clients or calls shares no variable (%s)", f.field), len(roots), bad)
}

// mayGo: a function with a contract that has something to say about the
// goroutines it starts, or one inlined into such functions.
func (x *Exec) mayGo(fn *ssa.Function, roots []*ssa.Function) bool {
	for _, ct := range x.spec.contracts {
		if ct.frame != nil || ct.lemma || !ct.goes {
			continue
		}
		for _, r := range roots {
			if shortFn(r) == ct.name && x.reach([]*ssa.Function{r}, x.repoFns(), true)[fn] {
				return true
			}
		}
	}
	return false
}

// sharedLocal: a local variable (or storage made by the function) that both a
// goroutine and the function starting it use, if one of them may change it.
func sharedLocal(g *ssa.Go) string {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return ""
	}
	fn := mc.Fn.(*ssa.Function)
	for i, bd := range mc.Bindings {
		a, ok := bd.(*ssa.Alloc)
		if !ok {
			continue
		}
		if assignedOnce(fn, fn.FreeVars[i]) && harmlessType(a.Type().Underlying().(*types.Pointer).Elem()) && !stored(fn.FreeVars[i]) {
			continue
		}
		// otherwise only the goroutine may use it, and it must be made for it
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				if r != mc {
					return a.Comment
				}
			case *ssa.Store:
				if r.Addr != ssa.Value(a) || !r.Block().Dominates(g.Block()) || a.Block() != g.Block() {
					return a.Comment
				}
			default:
				return a.Comment
			}
		}
	}
	return ""
}

func stored(v *ssa.FreeVar) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		default:
			_ = r
			return true
		}
	}
	return false
}

// harmlessType: sharing an unchanging variable of the type shares no storage the
// contracts do not know about.
func harmlessType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Pointer:
		_, named := u.Elem().(*types.Named)
		return named && isStruct(u.Elem())
	}
	return false
}

func (x *Exec) proveThreads(f *frameDecl) {
	repo := x.repoFns()
	// the code of each thread
	type thread struct {
		name string
		code map[*ssa.Function]bool
	}
	var ths []thread
	for _, r := range x.rootsOf(f.once, repo) {
		ths = append(ths, thread{shortFn(r), x.reach([]*ssa.Function{r}, repo, false)})
	}
	for i := 0; i < len(ths); i++ {
		for fn := range ths[i].code {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						var t *ssa.Function
						if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
							t = mc.Fn.(*ssa.Function)
						} else {
							t = g.Call.StaticCallee()
						}
						if t != nil && len(ths) < 20 {
							ths = append(ths, thread{shortFn(t), x.reach([]*ssa.Function{t}, repo, false)})
						}
					}
				}
			}
		}
	}
	ctor := x.reach(x.rootsOf(f.ctor, repo), repo, false)
	covered := map[string]bool{}
	for _, c := range f.covered {
		covered[c] = true
	}
	type use struct {
		fn    *ssa.Function
		write bool
	}
	uses := map[string][]use{}
	seen := 0
	for fn := range repo {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					pt := in.X.Type().Underlying().(*types.Pointer).Elem()
					if tname(pt) == f.field {
						seen++
						n := pt.Underlying().(*types.Struct).Field(in.Field).Name()
						uses[n] = append(uses[n], use{fn, !readOnly(in)})
					}
				}
			}
		}
	}
	bad := map[string]bool{}
	for n, us := range uses {
		if covered[n] {
			continue
		}
		owner := -1
		constant, single := true, true
		for _, u := range us {
			if ctor[u.fn] {
				continue
			}
			if u.write {
				constant = false
			}
			in := 0
			for i, t := range ths {
				if t.code[u.fn] {
					in++
					if owner >= 0 && owner != i {
						single = false
					}
					owner = i
				}
			}
			if in != 1 || x.calledElsewhere(u.fn, ths[max(owner, 0)].code, ctor, repo) {
				single = false
			}
		}
		if !constant && !single {
			bad["field "+n+" is shared"] = true
		}
	}
	x.verdict(f, "no other field of "+f.field+" is shared between goroutines", seen, bad)
}

// calledElsewhere: fn also runs outside the given thread.
func (x *Exec) calledElsewhere(fn *ssa.Function, code, ctor, repo map[*ssa.Function]bool) bool {
	if fn.Parent() == nil && token.IsExported(fn.Name()) && fn.Name() != "IO" {
		return true
	}
	for g := range repo {
		if code[g] || ctor[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) verdict(f *frameDecl, label string, seen int, bad map[string]bool) {
	st := &State{heap: map[string]*Term{}, inPath: map[*Term]bool{}, next: 1}
	switch {
	case seen == 0:
		x.failSpec(st, label, f.props, "there is nothing of that name", 0)
	case len(bad) > 0:
		var bs []string
		for b := range bad {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		d := ""
		for i, b := range bs {
			if i > 0 {
				d += "; "
			}
			d += b
		}
		x.failSpec(st, label, f.props, d, 0)
	default:
		x.prove(st, True, label, f.props, 0)
	}
}
