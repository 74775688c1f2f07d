package main

// Facts about package variables.  A map of strings that only the package
// initialiser fills, with constants, has values of bounded length: this is the
// invariant "established by init, preserved by everything else", where the
// second half is that no other function of the repository writes it (every use
// of the variable elsewhere is a lookup).

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type constMap struct{ max int64 }

var constMaps map[*ssa.Global]*constMap

func (x *Exec) constMapOf(v ssa.Value) *constMap {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	if constMaps == nil {
		constMaps = map[*ssa.Global]*constMap{}
	}
	if c, ok := constMaps[g]; ok {
		return c
	}
	constMaps[g] = x.scanMap(g)
	return constMaps[g]
}

func (x *Exec) scanMap(g *ssa.Global) *constMap {
	mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	if b, ok := mt.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return nil
	}
	cm := &constMap{}
	bad := false
	for _, fn := range allFuncsAndInits(x.prog, x.pkgs) {
		isInit := fn.Pkg == g.Pkg && fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						uses = true
					}
				}
				if !uses {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if bl, ok := r.Call.Value.(*ssa.Builtin); !ok || bl.Name() != "len" {
								bad = true
							}
						default:
							bad = true
						}
					}
				case *ssa.Store:
					mk, ok := in.Val.(*ssa.MakeMap)
					if !ok || !isInit || in.Addr != ssa.Value(g) {
						bad = true
						continue
					}
					for _, r := range *mk.Referrers() {
						switch r := r.(type) {
						case *ssa.MapUpdate:
							c, ok := r.Value.(*ssa.Const)
							if !ok || c.Value == nil || c.Value.Kind() != constant.String {
								bad = true
								continue
							}
							if n := int64(len(constant.StringVal(c.Value))); n > cm.max {
								cm.max = n
							}
						case *ssa.Store:
							if r != in {
								bad = true
							}
						case *ssa.DebugRef:
						default:
							bad = true
						}
					}
				case *ssa.DebugRef:
				default:
					bad = true
				}
			}
		}
	}
	if bad {
		return nil
	}
	return cm
}

func allFuncsAndInits(prog *ssa.Program, pkgs map[string]*ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range allFuncs(prog, pkgs) {
		add(f)
	}
	for _, p := range pkgs {
		if i := p.Func("init"); i != nil {
			add(i)
		}
	}
	return out
}

var setOnce = map[*ssa.Global]bool{}

// neverNil: a variable that its initialiser sets to something that is not nil,
// and that nothing else of the repository changes or takes the address of; or an
// error variable of a library.
func (x *Exec) neverNil(g *ssa.Global) bool {
	r, ok := setOnce[g]
	if !ok {
		r = x.scanSetOnce(g)
		setOnce[g] = r
	}
	return r
}

func (x *Exec) scanSetOnce(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !x.isRepoPkg(g.Pkg.Pkg) {
		return types.TypeString(t, nil) == "error"
	}
	sets := 0
	for _, fn := range allFuncsAndInits(x.prog, x.pkgs) {
		isInit := fn.Pkg == g.Pkg && fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.DebugRef, *ssa.UnOp:
					case *ssa.Store:
						if !isInit || in.Addr != ssa.Value(g) || !notNil(in.Val) {
							return false
						}
						sets++
					default:
						return false
					}
				}
			}
		}
	}
	return sets >= 1
}

func notNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeClosure:
		return true
	case *ssa.ChangeInterface:
		return notNil(v.X)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	}
	return false
}
