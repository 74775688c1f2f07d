package main

// Frame obligations: the functions whose contracts describe what happens to a
// field are the only ones that access it (users) or change it (writers).  A
// helper that only such functions call, and a function literal inside one,
// count as part of it: they are verified inlined.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type frameDecl struct {
	field   string // pkg.Type.field
	writers bool
	allowed []string
	props   []string

	kind                string // "", confined, threads
	once, ctor, covered []string
}

func (x *Exec) proveFrame(f *frameDecl) {
	switch f.kind {
	case "confined":
		x.proveConfined(f)
		return
	case "threads":
		x.proveThreads(f)
		return
	}
	i := strings.LastIndexByte(f.field, '.')
	typ, fld := f.field[:i], f.field[i+1:]
	inRepo := map[*ssa.Package]bool{}
	for _, p := range x.pkgs {
		inRepo[p] = true
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	asValue := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(x.prog) {
		if fn.Pkg == nil || !inRepo[fn.Pkg] {
			continue
		}
		if fn.Synthetic == "" {
			fns = append(fns, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						if callers[callee] == nil {
							callers[callee] = map[*ssa.Function]bool{}
						}
						callers[callee][fn] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						asValue[g] = true
					}
				}
			}
		}
	}
	allowed := map[string]bool{}
	for _, a := range f.allowed {
		allowed[a] = true
	}
	memo := map[*ssa.Function]int{}
	var ok func(fn *ssa.Function) bool
	ok = func(fn *ssa.Function) bool {
		if allowed[shortFn(fn)] || x.globOK(f.allowed, shortFn(fn)) {
			return true
		}
		if memo[fn] != 0 {
			return memo[fn] == 1
		}
		memo[fn] = 1 // recursion: decided by the other callers
		r := false
		if p := fn.Parent(); p != nil {
			r = ok(p)
		} else if !token.IsExported(fn.Name()) && !asValue[fn] && len(callers[fn]) > 0 {
			r = true
			for c := range callers[fn] {
				if !ok(c) {
					r = false
				}
			}
		}
		if r {
			memo[fn] = 1
		} else {
			memo[fn] = 2
		}
		return r
	}
	isT := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return tname(t) == typ
	}
	hit := func(t types.Type, i int) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		return ok && tname(t) == typ && s.Field(i).Name() == fld
	}
	var bad []string
	seen := 0
	for _, fn := range fns {
		acc := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if hit(in.X.Type(), in.Field) {
						seen++
						if !f.writers {
							acc = true
							continue
						}
						for _, r := range *in.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							if _, ok := r.(*ssa.DebugRef); ok {
								continue
							}
							acc = true
						}
					}
				case *ssa.Field:
					if hit(in.X.Type(), in.Field) && !f.writers {
						acc = true
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && !f.writers && isT(in.X.Type()) && isStruct(in.Type()) {
						acc = true
					}
				case *ssa.Store:
					if isT(in.Val.Type()) && isStruct(in.Val.Type()) {
						acc = true
					}
				}
			}
		}
		if acc && !ok(fn) {
			bad = append(bad, shortFn(fn))
		}
	}
	sort.Strings(bad)
	what := "accessed"
	if f.writers {
		what = "changed"
	}
	st := &State{heap: map[string]*Term{}, inPath: map[*Term]bool{}, next: 1}
	label := fmt.Sprintf("%s is %s only where contracts cover it", f.field, what)
	switch {
	case seen == 0:
		x.failSpec(st, label, f.props, "there is no such field", 0)
	case len(bad) > 0:
		x.failSpec(st, label, f.props, "also in "+strings.Join(bad, ", "), 0)
	default:
		x.prove(st, True, label, f.props, 0)
	}
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (x *Exec) globOK(pats []string, n string) bool {
	for _, p := range pats {
		if evMatch(p, n) {
			return true
		}
	}
	return false
}
