package main

// Proof obligations and solver queries.  Quantifiers are eliminated before a
// query: those to be proved become arbitrary constants, those assumed are
// instantiated at the index terms that occur on the path (sound: instances
// follow from the universal fact).

import (
	"context"
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"time"
)

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.op == "forall"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t] = r
	return r
}

// skolemise: foralls in negative position (pol=false means the term occurs
// negated) become constants.
func skolem(t *Term, pol bool, cands *[]*Term) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.op {
	case "not":
		return Not(skolem(t.args[0], !pol, cands))
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, skolem(a, pol, cands))
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "forall":
		if !pol {
			c := Fresh("sk", t.args[0].sort)
			*cands = append(*cands, c)
			return skolem(Subst(t.args[1], map[*Term]*Term{t.args[0]: c}), pol, cands)
		}
		return t
	case "ite":
		c, a, b := t.args[0], t.args[1], t.args[2]
		return skolem(And(Implies(c, a), Implies(Not(c), b)), pol, cands)
	case "=":
		a, b := t.args[0], t.args[1]
		return skolem(And(Implies(a, b), Implies(b, a)), pol, cands)
	}
	panic("skolem: quantifier under " + t.op)
}

var instMemo = map[[2]*Term]*Term{}

func instantiate(t *Term, cands []*Term) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.op {
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, instantiate(a, cands))
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "forall":
		var as []*Term
		for _, c := range cands {
			if c.sort != t.args[0].sort {
				continue
			}
			k := [2]*Term{t, c}
			r, ok := instMemo[k]
			if !ok {
				r = Subst(t.args[1], map[*Term]*Term{t.args[0]: c})
				instMemo[k] = r
			}
			as = append(as, instantiate(r, cands))
		}
		return And(as...)
	case "not":
		// after skolemisation every remaining quantifier is universal in
		// total polarity, so weakening it to instances is sound anywhere
		return Not(instantiate(t.args[0], cands))
	}
	panic("instantiate: quantifier under " + t.op)
}

// recursive specification functions: name -> unfolding at an index
type recDef struct {
	base func(args []*Term) *Term                // value at 0 (args without the index)
	step func(args []*Term, j, prev *Term) *Term // value at j+1
}

var recDefs = map[string]recDef{}

// axiom generators look at the applications in a query
type axiomGen func(apps []*Term) []*Term

var axiomGens []axiomGen

var appsMemo = map[*Term][]*Term{}

func cmp64(t *Term) bool {
	return (t.op == "bvult" || t.op == "bvslt") && t.args[0].sort == S64 && (t.args[0].op == "bvadd" || t.args[1].op == "bvadd" || t.args[0].op == "bvmul" || t.args[1].op == "bvmul")
}

// posNeg splits a linear 64-bit term into P - N with small coefficients.
func posNeg(t *Term) (pos, neg *Term, atoms []*Term, ok bool) {
	acc := map[*Term]uint64{}
	var c uint64
	linear(t, 1, acc, &c)
	pa, na := map[*Term]uint64{}, map[*Term]uint64{}
	for a, k := range acc {
		switch {
		case k == 0:
			continue
		case int64(k) > 0 && k < 256:
			pa[a] = k
		case int64(k) < 0 && -k < 256:
			na[a] = -k
		default:
			return nil, nil, nil, false
		}
		atoms = append(atoms, a)
	}
	var pc, nc uint64
	if int64(c) >= 0 {
		pc = c
	} else {
		nc = -c
	}
	if pc >= maxLen || nc >= maxLen || len(atoms) > 64 {
		return nil, nil, nil, false
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	return fromLinear(pa, pc, 64), fromLinear(na, nc, 64), atoms, true
}

func init() {
	// comparisons of differences, without subtraction (exact for operands
	// below 2^40)
	axiomGens = append(axiomGens, func(apps []*Term) []*Term {
		var out []*Term
		for _, a := range apps {
			if !cmp64(a) {
				continue
			}
			pl, nl, al, ok1 := posNeg(a.args[0])
			pr, nr, ar, ok2 := posNeg(a.args[1])
			if !ok1 || !ok2 || (nl == I64(0) && nr == I64(0) && a.op == "bvult") {
				continue
			}
			var hyp []*Term
			for _, t := range append(al, ar...) {
				hyp = append(hyp, Ult(t, I64(maxLen)))
			}
			if a.op == "bvult" {
				hyp = append(hyp, Ule(nl, pl), Ule(nr, pr))
			}
			c := mk(Term{op: "=", sort: SBool, args: orderPair(a, Ult(Add(pl, nr), Add(pr, nl)))})
			if a == Ult(Add(pl, nr), Add(pr, nl)) {
				continue
			}
			out = append(out, Implies(And(hyp...), c))
		}
		return out
	})
}

func smallMul(t *Term) bool {
	return t.op == "bvmul" && t.sort == S64 && t.args[0].isBV() && t.args[0].val > 1 && t.args[0].val < 256
}

func collectApps(fs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" || (t.op == "var" && t.sort == SStr) || (t.op == "select" && t.args[0].op == "app" && t.args[0].name == "bytesof") || smallMul(t) || cmp64(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

// assemble builds the quantifier-free query for the path plus extra formulas.
func (x *Exec) assemble(st *State, extra ...*Term) []*Term {
	cands := append([]*Term(nil), st.cands...)
	fs := append([]*Term(nil), st.path...)
	var qs []*Term
	for _, q := range st.quants {
		qs = append(qs, skolem(q, true, &cands))
	}
	var ex []*Term
	for _, e := range extra {
		s := skolem(e, true, &cands)
		if s.op == "and" {
			ex = append(ex, s.args...)
		} else {
			ex = append(ex, s)
		}
	}
	uniq := map[*Term]bool{}
	var cs []*Term
	for _, c := range cands {
		if !uniq[c] {
			uniq[c] = true
			cs = append(cs, c)
		}
	}
	for _, q := range qs {
		fs = append(fs, instantiate(q, cs))
	}
	for _, e := range ex {
		fs = append(fs, instantiate(e, cs))
	}
	fs = append(fs, refFacts(fs)...)
	// unfold recursive definitions and add axioms, to a small fixpoint
	added := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		apps := collectApps(fs)
		var more []*Term
		add := func(t *Term) {
			if t != True && !added[t] {
				added[t] = true
				more = append(more, t)
			}
		}
		if round < 2 {
			for _, t := range unfoldings(apps, cs) {
				add(t)
			}
		}
		for _, g := range axiomGens {
			for _, t := range g(apps) {
				add(t)
			}
		}
		if len(more) == 0 {
			break
		}
		fs = append(fs, more...)
	}
	return fs
}

// refFacts: references read from the heap before an allocation are not the
// allocated one; stated for those used to read arrays that have been updated
// at an allocated reference (elsewhere the simplifier has decided it).
func refFacts(fs []*Term) []*Term {
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	var out []*Term
	var fact func(i *Term)
	fact = func(i *Term) {
		if have[i] {
			return
		}
		have[i] = true
		if i.op == "ite" {
			fact(i.args[1])
			fact(i.args[2])
			return
		}
		if i.op == "select" && i.args[0].op == "store" {
			fact(Select(i.args[0].args[0], i.args[1]))
		}
		if b, ok := boundOf(i); ok && i.op != "int" {
			out = append(out, mk(Term{op: "<int", sort: SBool, args: []*Term{i, IntLit(b)}}))
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[0].op == "store" && t.args[1].sort == SInt && t.args[1].op != "int" {
			for a := t.args[0]; a.op == "store"; a = a.args[0] {
				if a.args[1].op == "int" {
					fact(t.args[1])
					break
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

func unfoldings(apps, cands []*Term) []*Term {
	type group struct {
		name string
		args []*Term
		sort Sort
	}
	groups := map[string]*group{}
	idx := map[string]map[*Term]bool{}
	var order []string
	for _, a := range apps {
		if _, ok := recDefs[a.name]; !ok || a.op != "app" {
			continue
		}
		n := len(a.args)
		key := a.name
		for _, p := range a.args[:n-1] {
			key += fmt.Sprintf(",%d", p.id)
		}
		if groups[key] == nil {
			groups[key] = &group{a.name, a.args[:n-1], a.sort}
			idx[key] = map[*Term]bool{}
			order = append(order, key)
		}
		j := a.args[n-1]
		idx[key][j] = true
		idx[key][Sub(j, I64(1))] = true
	}
	var out []*Term
	for _, key := range order {
		g := groups[key]
		d := recDefs[g.name]
		f := func(j *Term) *Term { return App(g.name, g.sort, append(append([]*Term(nil), g.args...), j)...) }
		out = append(out, Eq(f(I64(0)), d.base(g.args)))
		for _, c := range cands {
			if c.sort == S64 {
				idx[key][c] = true
			}
		}
		var js []*Term
		for j := range idx[key] {
			js = append(js, j)
		}
		sort.Slice(js, func(a, b int) bool { return js[a].id < js[b].id })
		for _, j := range js {
			if j.isBV() && j.val > 1<<40 {
				continue
			}
			nx := Eq(f(Add(j, I64(1))), d.step(g.args, j, f(j)))
			out = append(out, Implies(Ult(j, I64(maxLen)), nx))
		}
	}
	return out
}

func init() {
	axiomGens = append(axiomGens, func(apps []*Term) []*Term {
		var out []*Term
		for _, a := range apps {
			if a.op != "app" && a.op != "var" && a.op != "select" {
				continue
			}
			if a.op == "var" {
				if s, ok := litBytes[a]; ok {
					out = append(out, Eq(App("slen", S64, a), I64(int64(len(s)))))
				}
				continue
			}
			switch a.name {
			case "slen":
				out = append(out, Ult(a, I64(maxLen)))
			case "mkstr":
				out = append(out, Eq(App("slen", S64, a), a.args[2]))
			case "strcat":
				out = append(out, Eq(App("slen", S64, a), Add(App("slen", S64, a.args[0]), App("slen", S64, a.args[1]))))
			}
			if a.sort == SInt && strings.HasPrefix(a.name, "box:") {
				out = append(out, Not(mk(Term{op: "=", sort: SBool, args: orderPair(a, Nil)})))
			}
		}
		return out
	})
}
func init() {
	// multiplication by a small constant is monotone (no overflow below 2^40)
	axiomGens = append(axiomGens, func(apps []*Term) []*Term {
		var out []*Term
		for _, a := range apps {
			if a.op != "bvmul" {
				continue
			}
			c := a.args[0]
			p := a.args[1]
			out = append(out, Implies(Ult(p, I64(maxLen)), Ult(a, I64(maxLen<<8))))
			for _, b := range apps {
				if b.op != "bvmul" || b.args[0] != c || b == a {
					continue
				}
				q := b.args[1]
				out = append(out, Implies(And(Ult(p, q), Ult(q, I64(maxLen))), Ule(Add(a, c), b)))
			}
		}
		return out
	})
}

func orderPair(a, b *Term) []*Term {
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (x *Exec) query(st *State, extra ...*Term) string {
	return x.sol.Check(x.assemble(st, extra...))
}

func inter(a []string, m map[string]bool) bool {
	if m == nil {
		return true
	}
	for _, p := range a {
		if m[p] {
			return true
		}
	}
	return false
}

// prove discharges goal on the current path and records the obligation.
func (x *Exec) prove(st *State, goal *Term, label string, props []string, pos token.Pos) bool {
	if st.dry > 0 {
		return true
	}
	if !inter(props, x.only) {
		return true
	}
	fn := x.root.name
	lab := label
	if pos.IsValid() {
		lab += " (" + x.posStr(pos) + ")"
	}
	key := fn + " / " + lab
	o := x.obls[key]
	if o == nil {
		o = &Obligation{Fn: fn, Label: lab, Props: props}
		x.obls[key] = o
		x.order = append(x.order, key)
	}
	o.VCs++
	x.vcTotal++
	if goal == True {
		if o.Backend == "" {
			o.Backend = "simplifier"
		}
		return true
	}
	ok, be := x.valid(st, goal)
	if ok {
		if o.Backend == "" || o.Backend == "simplifier" {
			o.Backend = be
		}
		return true
	}
	o.Failed++
	if o.Failed == 1 {
		o.Detail = be + "; path: " + strings.Join(st.trail, ", ")
		if be != "unknown" {
			o.Model = x.modelOf(st, goal)
		}
		if debugFail {
			fmt.Printf("FAIL %s\n  %s\n  goal %s\n", key, o.Detail, goal.str(12))
			for k, v := range o.Model {
				fmt.Printf("    %s = %s\n", k, v)
			}
		}
	}
	return false
}

var debugFail bool

// valid reports whether goal follows on this path, and the back end that said so.
func (x *Exec) valid(st *State, goal *Term) (bool, string) {
	if goal == True || st.inPath[goal] {
		return true, "simplifier"
	}
	goal = splitForall(goal)
	if goal.op == "and" {
		be := "simplifier"
		for _, g := range goal.args {
			ok, b := x.valid(st, g)
			if !ok {
				return false, b
			}
			if b != "simplifier" {
				be = b
			}
		}
		return true, be
	}
	fs := x.assemble(st, Not(goal))
	r := x.sol.Check(fs)
	if crossCheck && r == "unsat" {
		xcheck(fs)
	}
	switch r {
	case "unsat":
		return true, mainSolver
	case "sat":
		return false, "refuted by " + mainSolver
	}
	x.fallback++
	sc := toScript(fs)
	if d := os.Getenv("NV_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, x.fallback), []byte("; "+goal.str(6)+"\n"+sc), 0644)
	}
	t0 := time.Now()
	r, b := race(sc, time.Duration(fallbackSecs)*time.Second, []string{"z3-new", "-in"}, []string{"cvc5", "--lang=smt2"})
	if r == "unknown" && retrySecs > 0 {
		// once more with other seeds and all the time left, so that a busy
		// machine does not turn a slow proof into an alarm
		t1 := time.Now()
		r, b = race(sc, time.Duration(retrySecs)*time.Second, []string{"z3-new", "-in", "smt.random_seed=7"}, []string{"z3-new", "-in"}, []string{"cvc5", "--lang=smt2", "--seed=5"})
		retrySecs -= int(time.Since(t1).Seconds())
	}
	x.sol.time += time.Since(t0)
	switch r {
	case "unsat":
		return true, b
	case "sat":
		return false, "refuted by " + b
	}
	return false, "unknown"
}

// splitForall distributes a universal quantifier over the conjunction under it.
func splitForall(g *Term) *Term {
	if g.op != "forall" {
		return g
	}
	v, body := g.args[0], g.args[1]
	if body.op == "and" {
		var as []*Term
		for _, a := range body.args {
			as = append(as, splitForall(ForallT(v, a)))
		}
		return And(as...)
	}
	if body.op == "or" {
		for i, d := range body.args {
			if d.op != "and" || hasQuant(d) {
				continue
			}
			var as []*Term
			for _, a := range d.args {
				ds := append([]*Term(nil), body.args...)
				ds[i] = a
				as = append(as, ForallT(v, Or(ds...)))
			}
			return And(as...)
		}
	}
	return g
}
func race(sc string, to time.Duration, bs ...[]string) (string, string) {
	type ans struct{ r, b string }
	ch := make(chan ans, len(bs))
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	for _, b := range bs {
		b := b
		go func() { ch <- ans{oneShotCtx(ctx, sc, b[0], b[1:]...), b[0]} }()
	}
	for range bs {
		a := <-ch
		if a.r == "sat" || a.r == "unsat" {
			return a.r, a.b
		}
	}
	return "unknown", ""
}

var fallbackSecs = 30

// retrySecs is what one worker may spend on second attempts.
var retrySecs = 90
var crossCheck bool
var xDone, xAgree, xUnknown, xDisagree int

func xcheck(fs []*Term) {
	xDone++
	switch oneShot(toScript(fs), 20*time.Second, "cvc5", "--lang=smt2") {
	case "unsat":
		xAgree++
	case "sat":
		xDisagree++
	default:
		xUnknown++
	}
}

func (x *Exec) modelOf(st *State, goal *Term) map[string]string {
	if x.rootSt == nil {
		return nil
	}
	fs := x.assemble(st, Not(goal))
	var names []string
	var ts []*Term
	var add func(n string, v Value)
	add = func(n string, v Value) {
		switch v := v.(type) {
		case Sc:
			if v.t.sort.width() > 0 || v.t.sort == SBool {
				names = append(names, n)
				ts = append(ts, v.t)
			}
		case SliceV:
			names = append(names, "len("+n+")")
			ts = append(ts, v.len)
		case StrV:
			names = append(names, "len("+n+")")
			ts = append(ts, v.len)
		case StructV:
			for i, f := range v.fs {
				add(fmt.Sprintf("%s.%d", n, i), f)
			}
		}
	}
	var ks []string
	for k := range x.rootSt.params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(k, x.rootSt.params[k].v)
	}
	if len(ts) == 0 {
		return nil
	}
	vs := x.sol.Values(fs, ts)
	out := map[string]string{}
	for i, n := range names {
		out[n] = vs[i]
	}
	return out
}
