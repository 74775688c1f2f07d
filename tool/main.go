package main

// ninepv: a contract verifier for the ninep sources.
//
//   ninepv verify -repo DIR -contracts DIR [-only C01,C02] [-fns a,b] [-json OUT]
//   ninepv check  -repo DIR -contracts DIR -prop C01 -verif DIR

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnReport is what verifying one function gave.
type FnReport struct {
	Name                               string        `json:"name"`
	Error                              string        `json:"error,omitempty"` // not verified, and why
	Obligations                        []*Obligation `json:"obligations"`
	Inlined                            []string      `json:"inlined,omitempty"`
	Modelled                           []string      `json:"modelled,omitempty"`
	Used                               []string      `json:"used_contracts,omitempty"`
	Paths                              int           `json:"paths"`
	Returns                            int           `json:"returns"`
	Panics                             int           `json:"panic_exits"`
	Seconds                            float64       `json:"seconds"`
	SolverSecs                         float64       `json:"solver_seconds"`
	Queries                            int           `json:"solver_queries"`
	VCs                                int           `json:"vcs"`
	Fallback                           int           `json:"fallback"`
	XDone, XAgree, XUnknown, XDisagree int
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// allFuncs maps the short name of every function of the repository to it.
func allFuncs(prog *ssa.Program, pkgs map[string]*ssa.Package) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				out[shortFn(m)] = m
			case *ssa.Type:
				for _, t := range methodTypes(m.Type()) {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							out[shortFn(f)] = f
						}
					}
				}
			}
		}
	}
	return out
}

// funcNamed: "FUNCTION/PKG.TYPE" is the function or function literal used in
// FUNCTION as a value of the signature of that type.
func (x *Exec) funcNamed(name string) *ssa.Function {
	i := strings.IndexByte(name, '/')
	if i < 0 {
		return nil
	}
	outer := allFuncs(x.prog, x.pkgs)[name[:i]]
	t := (&specEnv{x: x}).typ(name[i+1:])
	if outer == nil || t == nil {
		return nil
	}
	var found *ssa.Function
	var seen = map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Pkg == nil || fn.Pkg != outer.Pkg {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if types.Identical(g.Signature, t.Underlying()) && found == nil {
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != g {
							found = g
							continue
						}
					}
					visit(g)
				}
			}
		}
	}
	visit(outer)
	return found
}

func newExec(prog *ssa.Program, pkgs map[string]*ssa.Package, spec *Spec, only map[string]bool, timeoutMS int) *Exec {
	return &Exec{prog: prog, pkgs: pkgs, spec: spec, sol: NewSolver(mainSolver, timeoutMS),
		boxes: map[*Term]IfaceV{}, funcs: map[*Term]FuncV{}, obls: map[string]*Obligation{},
		loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, inlined: map[string]bool{}, modelled: map[string]bool{},
		usedC: map[string]bool{}, only: only}
}

func verifyOne(prog *ssa.Program, pkgs map[string]*ssa.Package, spec *Spec, fns map[string]*ssa.Function, name string, only map[string]bool, timeoutMS int) (r *FnReport) {
	t0 := time.Now()
	r = &FnReport{Name: name}
	ct := spec.contracts[name]
	if ct == nil {
		r.Error = "no contract"
		return r
	}
	x := newExec(prog, pkgs, spec, only, timeoutMS)
	defer x.sol.Close()
	defer func() {
		if p := recover(); p != nil {
			if os.Getenv("NV_PANIC") != "" {
				panic(p)
			}
			r.Error = fmt.Sprintf("verifier failure: %v", p)
		}
		for _, k := range x.order {
			r.Obligations = append(r.Obligations, x.obls[k])
		}
		r.Inlined, r.Modelled, r.Used = keys(x.inlined), keys(x.modelled), keys(x.usedC)
		r.Paths, r.Returns = x.paths, x.returns
		r.Seconds = time.Since(t0).Seconds()
		r.SolverSecs, r.Queries = x.sol.time.Seconds(), x.sol.queries
		r.VCs, r.Fallback = x.vcTotal, x.fallback
		r.XDone, r.XAgree, r.XUnknown, r.XDisagree = xDone, xAgree, xUnknown, xDisagree
	}()
	if ct.lemma {
		if err := x.proveLemma(ct, fns); err != "" {
			r.Error = err
		}
		return r
	}
	if ct.frame != nil {
		x.root = ct
		x.proveFrame(ct.frame)
		return r
	}
	fn := fns[name]
	if fn == nil {
		fn = x.funcNamed(name)
	}
	if fn == nil {
		r.Error = "the function no longer exists"
		return r
	}
	if fn.Blocks == nil {
		r.Error = "the function has no body"
		return r
	}
	if err := x.verifyFn(ct, fn); err != "" {
		r.Error = err
	} else if x.returns == 0 && len(ct.ensures) > 0 {
		r.Error = "vacuous: no return of the function is reachable"
	} else if x.paths == 0 {
		r.Error = "vacuous: no path through the function is feasible"
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: ninepv verify|check|lookup ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	con := fs.String("contracts", "/verif/contracts", "contracts")
	onlyS := fs.String("only", "", "properties")
	fnsS := fs.String("fns", "", "functions")
	out := fs.String("json", "", "write reports")
	scratch := fs.String("scratch", "", "scratch directory")
	gen := fs.String("gen", "", "file that replaces protocol/genout.go")
	tmo := fs.Int("timeout", 2000, "solver timeout per query, ms")
	prop := fs.String("prop", "", "property (check)")
	verif := fs.String("verif", "/verif", "home of the framework (check)")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int("seed", 1, "seed")
	fs.BoolVar(&debugFail, "debug", false, "print failures")
	fs.BoolVar(&crossCheck, "cross", false, "cross-check with cvc5")
	dump := fs.Bool("dump", false, "print the SSA form")
	fs.Parse(os.Args[2:])
	if os.Args[1] == "check" {
		os.Exit(check(*verif, *repo, *prop, *tier, *seed))
	}
	sc := *scratch
	if sc == "" {
		sc, _ = os.MkdirTemp("", "ninepv")
		defer os.RemoveAll(sc)
	}
	var overlay map[string][]byte
	if *gen != "" {
		b, err := os.ReadFile(*gen)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		overlay = map[string][]byte{filepath.Join(*repo, "protocol/genout.go"): b,
			filepath.Join(sc, "gopath/src", modPath, "protocol/genout.go"): b}
	}
	if os.Args[1] == "worker" {
		worker(*repo, *con, sc, overlay, *tmo)
		return
	}
	prog, pkgs, err := loadRepo(*repo, sc, overlay)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.RemoveAll(sc)
		os.Exit(3)
	}
	spec := loadAll(*con)
	fns := allFuncs(prog, pkgs)
	var only map[string]bool
	if *onlyS != "" {
		only = map[string]bool{}
		for _, p := range strings.Split(*onlyS, ",") {
			only[p] = true
		}
	}
	var names []string
	if *fnsS != "" {
		names = strings.Split(*fnsS, ",")
	} else {
		names = spec.order
	}
	if *dump {
		for _, n := range names {
			if fns[n] != nil {
				fns[n].WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", n)
			}
		}
		return
	}
	var reps []*FnReport
	bad := 0
	for _, n := range names {
		r := verifyOne(prog, pkgs, spec, fns, n, only, *tmo)
		reps = append(reps, r)
		nf := 0
		for _, o := range r.Obligations {
			if o.Failed > 0 {
				nf++
			}
		}
		if r.Error != "" || nf > 0 {
			bad++
		}
		if *out == "" {
			fmt.Printf("%-40s obligations %d vcs %d failed %d paths %d returns %d %.1fs (solver %.1fs, %d queries, %d fallback) %s\n", n, len(r.Obligations), r.VCs, nf, r.Paths, r.Returns, r.Seconds, r.SolverSecs, r.Queries, r.Fallback, r.Error)
			for _, o := range r.Obligations {
				if o.Failed > 0 {
					fmt.Printf("    FAILED %s (%d of %d): %s\n", o.Label, o.Failed, o.VCs, o.Detail)
				}
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(reps, "", " ")
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	os.RemoveAll(sc)
	if bad > 0 {
		os.Exit(1)
	}
}

func loadAll(dir string) *Spec {
	spec, err := loadSpecs(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	codecContracts(spec)
	return spec
}

func methodTypes(t types.Type) []types.Type {
	if types.IsInterface(t) {
		return nil
	}
	return []types.Type{t, types.NewPointer(t)}
}

var mainSolver = func() string {
	if s := os.Getenv("NV_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}()
