package main

// Loops.  A loop whose condition is decided by constants is followed as it
// is; any other is cut at its header: the header state stands for the start of
// an arbitrary iteration k, with everything the body changes made arbitrary
// except for what is proved to hold at every iteration (changes found by
// running the body; facts by checking that they hold initially and are
// preserved).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type loopInst struct {
	loop *Loop
	cut  bool
	dry  bool
	iter int
	k    *Term
	ci   *cutInfo
}

const (
	phiConst = iota
	phiAffine
	phiHavoc
	phiOwned
)

type cutInfo struct {
	phis               []*ssa.Phi
	class              map[*ssa.Phi]int
	stepOf             map[*ssa.Phi]*Term
	entryPhi           map[*ssa.Phi]Value
	mods               map[string]map[*Term]bool
	whole              map[string]bool
	entryHeap          map[string]*Term
	entryNext          int
	k                  *Term
	cands              []*candInv
	evNames            map[string]bool
	havocVars          map[*Term]bool
	havocFrom, havocTo int
	condOver           *Term
	condK              *Term // header condition as a function of k, if it is one
	leaves             []eqLeaf
}

// candInv: a candidate invariant; at evaluates it in a state for counter kv.
type candInv struct {
	name  string
	props []string
	user  bool
	at    func(st *State, kv *Term) (*Term, bool)
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := x.loopsOf[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[c] {
						continue
					}
					l.body[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	x.loopsOf[fn] = m
	return m
}

func (x *Exec) loopControl(st *State, f *Frame, from, nb *ssa.BasicBlock) bool {
	for n := len(f.loops); n > 0 && !f.loops[n-1].loop.body[nb]; n = len(f.loops) {
		if f.loops[n-1].dry {
			return false
		}
		f.loops = f.loops[:n-1]
	}
	L := x.loops(f.fn)[nb]
	if L == nil {
		return true
	}
	var top *loopInst
	if n := len(f.loops); n > 0 {
		top = f.loops[n-1]
	}
	if top != nil && top.loop == L {
		if top.cut {
			if top.dry {
				x.collectBack(st, top)
				return false
			}
			x.backEdge(st, top)
			return false
		}
		top.iter++
		if top.iter < 100 && x.headConst(st) {
			return true
		}
		f.loops = f.loops[:len(f.loops)-1]
		return x.cutLoop(st, f, L)
	}
	if x.headConst(st) {
		f.loops = append(f.loops, &loopInst{loop: L})
		return true
	}
	return x.cutLoop(st, f, L)
}

// headCond evaluates the condition at the end of the header block, without
// side effects on st.
func (x *Exec) headCond(st *State) (c *Term, neg bool) {
	f := st.top()
	hb := f.blk
	last, ok := hb.Instrs[len(hb.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	s := st.clone()
	s.dry++
	depth := len(s.frames)
	w := x.work
	x.work = nil
	defer func() {
		x.work = w
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				c = nil
				return
			}
			panic(r)
		}
	}()
	for {
		if len(s.frames) < depth {
			return nil, false
		}
		t := s.top()
		if len(s.frames) == depth {
			if t.blk != hb {
				return nil, false
			}
			if t.pc == len(hb.Instrs)-1 {
				L := x.loops(f.fn)[hb]
				return x.val(s, last.Cond).(Sc).t, L != nil && !L.body[hb.Succs[0]]
			}
		}
		if !x.step(s) || len(x.work) > 0 || s.panic != "" {
			return nil, false
		}
	}
}

func (x *Exec) headConst(st *State) bool {
	c, _ := x.headCond(st)
	return c != nil && c.isConst()
}

func (x *Exec) cutLoop(st *State, f *Frame, L *Loop) bool {
	ci := &cutInfo{class: map[*ssa.Phi]int{}, stepOf: map[*ssa.Phi]*Term{}, entryPhi: map[*ssa.Phi]Value{},
		mods: map[string]map[*Term]bool{}, whole: map[string]bool{}, entryNext: st.next, evNames: map[string]bool{}}
	for _, in := range L.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ci.phis = append(ci.phis, p)
		ci.entryPhi[p] = f.env[p]
	}
	ci.entryHeap = st.snapshot()
	user := x.userInvs(st, f, L, ci)
	// drop what does not hold on entry
	var cs []*candInv
	for _, c := range user {
		t, ok := c.at(st, I64(0))
		if !ok {
			continue
		}
		if ok, _ := x.valid(st, t); ok {
			cs = append(cs, c)
		} else if debugLoop {
			fmt.Printf("loop %s: %s does not hold on entry\n", x.posStr(loopPos(L)), c.name)
		}
	}
	ci.cands = cs
	autoDone := false
	for round := 0; ; round++ {
		if round > 60 {
			unsup("loop at %s does not stabilise", x.posStr(loopPos(L)))
		}
		h := x.headerState(st, ci, true)
		var backs []*State
		save := x.collectBack
		x.collectBack = func(b *State, li *loopInst) { backs = append(backs, b) }
		w := x.work
		x.work = nil
		hh := h.clone()
		x.run(hh)
		x.work = w
		x.collectBack = save
		changed := false
		for _, b := range backs {
			if x.weaken(ci, h, b, st) {
				changed = true
			}
			for _, e := range b.events[len(h.events):] {
				ci.evNames[e.name] = true
				if e.names != nil {
					for n := range e.names {
						ci.evNames[n] = true
					}
				}
			}
		}
		if changed {
			continue
		}
		if !autoDone {
			autoDone = true
			if x.autoCands(ci, st, h) {
				continue
			}
		}
		// candidates preserved?
		var keep []*candInv
		for _, c := range ci.cands {
			good := true
			for _, b := range backs {
				t, ok := c.at(b, Add(ci.k, I64(1)))
				if !ok {
					good = false
					break
				}
				if v, be := x.valid(b, t); !v {
					good = false
					if debugLoop {
						fmt.Printf("loop %s: %s not preserved (%s): %s\n", x.posStr(loopPos(L)), c.name, be, t.str(8))
					}
					break
				}
			}
			if good {
				keep = append(keep, c)
			}
		}
		if len(keep) != len(ci.cands) {
			ci.cands = keep
			continue
		}
		break
	}
	if debugLoop {
		var ns []string
		for _, c := range ci.cands {
			ns = append(ns, c.name)
		}
		fmt.Printf("loop %s: mods %v whole %v invariants %v cond %v\n", x.posStr(loopPos(L)), modNames(ci.mods), sortedKeys(ci.whole), ns, ci.condK)
		for _, p := range ci.phis {
			fmt.Printf("   phi %s %s class %d entry %v\n", p.Name(), p.Comment, ci.class[p], ci.entryPhi[p])
		}
	}
	if x.root != nil && x.root.terminates != nil && st.dry == 0 {
		x.termination(st, ci, L)
	}
	h := x.headerState(st, ci, false)
	*st = *h
	return true
}

func modNames(m map[string]map[*Term]bool) []string {
	var out []string
	for k, v := range m {
		for t := range v {
			out = append(out, k+"@"+t.String())
		}
	}
	sort.Strings(out)
	return out
}

func loopPos(L *Loop) token.Pos {
	for _, in := range L.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range L.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

var debugLoop = os.Getenv("NV_LOOP") != ""

// termination: the loop condition bounds the iteration counter.
func (x *Exec) termination(st *State, ci *cutInfo, L *Loop) {
	k := Fresh("kt", S64)
	goal := False
	if ci.condK != nil {
		goal = Implies(Subst(ci.condK, map[*Term]*Term{ci.condOver: k}), Ult(k, I64(maxLen+1)))
	}
	s := st.clone()
	s.assume(Ult(k, I64(1<<62)))
	x.prove(s, goal, "loop terminates", x.root.terminates, loopPos(L))
}

// headerState builds the state at the start of iteration k.
func (x *Exec) headerState(st *State, ci *cutInfo, dry bool) *State {
	h := st.clone()
	f := h.top()
	k := Fresh("k", S64)
	ci.k = k
	ci.havocVars = map[*Term]bool{}
	h.assume(Ult(k, I64(maxLen)))
	h.cand(k)
	h.cand(Add(k, I64(1)))
	seq0 := freshSeq
	for _, p := range ci.phis {
		e := ci.entryPhi[p]
		switch ci.class[p] {
		case phiAffine:
			et := e.(Sc).t
			w := et.sort.width()
			kk := k
			if w < 64 {
				kk = Extract(w-1, 0, k)
			}
			f.env[p] = Sc{Add(et, Bin("bvmul", ci.stepOf[p], kk))}
		case phiHavoc:
			f.env[p] = x.fresh(h, "phi."+p.Comment, p.Type())
		case phiOwned:
			s := e.(SliceV)
			r := h.newRef()
			for _, l := range leafSpecs(s.base, s.elem) {
				c := h.comp(l.key, compSort(true, l.sort))
				fv := Fresh("own", SArr(S64, l.sort))
				refBound[fv] = int64(h.next)
				h.heap[l.key] = Store(c, r, fv)
			}
			n, cp := Fresh("len."+p.Comment, S64), Fresh("cap."+p.Comment, S64)
			v := SliceV{r, I64(0), n, cp, s.base, s.elem}
			h.wellFormed(v)
			f.env[p] = v
		}
	}
	var keys []string
	for key := range ci.mods {
		keys = append(keys, key)
	}
	for key := range ci.whole {
		if ci.mods[key] == nil {
			keys = append(keys, key)
		}
	}
	sort.Strings(keys)
	var bufs []struct {
		key string
		ref *Term
	}
	for _, key := range keys {
		c := h.heap[key]
		if ci.whole[key] {
			v := Fresh("H:"+key, c.sort)
			refBound[v] = int64(h.next)
			h.heap[key] = v
			continue
		}
		var refs []*Term
		for r := range ci.mods[key] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		_, es := c.sort.arr()
		for _, r := range refs {
			v := Fresh("H:"+key, es)
			refBound[v] = int64(h.next)
			c = Store(c, r, v)
			if strings.HasSuffix(key, "#bref") {
				bufs = append(bufs, struct {
					key string
					ref *Term
				}{key, r})
			}
			if strings.HasSuffix(key, "#blen") || strings.HasSuffix(key, "#boff") || strings.HasSuffix(key, "#len") {
				h.assume(Ult(v, I64(maxLen)))
			}
		}
		h.heap[key] = c
	}
	for _, b := range bufs { // buffers own their storage
		r := h.newRef()
		x.setBytesArr(h, r, Fresh("bufown", SArr(S64, S8)))
		h.heap[b.key] = Store(h.heap[b.key], b.ref, r)
	}
	for i := seq0 + 1; i <= freshSeq; i++ {
		freshIDs[i] = ci
	}
	ci.havocFrom, ci.havocTo = seq0+1, freshSeq
	li := &loopInst{loop: x.loops(f.fn)[f.blk], cut: true, dry: dry, k: k, ci: ci}
	f.loops = append(f.loops, li)
	h.evBase = len(h.events)
	names := map[string]bool{}
	for n := range ci.evNames {
		names[n] = true
	}
	h.events = append(h.events, &Event{name: "*loop*", names: names, next: int(h.next)})
	h.evBase = len(h.events)
	if dry {
		h.dry++
	}
	for _, c := range ci.cands {
		if t, ok := c.at(h, k); ok {
			h.assume(t)
		}
	}
	h.trail = append(h.trail, x.posStr(loopPos(li.loop))+" loop")
	return h
}

var freshIDs = map[int]*cutInfo{}

func mentions(t *Term, pred func(*Term) bool, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "var" && pred(t) {
		return true
	}
	for _, a := range t.args {
		if mentions(a, pred, seen) {
			return true
		}
	}
	return false
}

// freshNo extracts the sequence number of a fresh symbol, 0 if none.
func freshNo(t *Term) int {
	i := strings.LastIndexByte(t.name, '!')
	if i < 0 {
		return 0
	}
	n := 0
	for _, c := range t.name[i+1:] {
		if c < '0' || c > '9' {
			return 0
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// loopDependent: the term mentions symbols created at or after the header.
func (ci *cutInfo) loopDependent(t *Term) bool {
	kn := freshNo(ci.k)
	return mentions(t, func(v *Term) bool { return freshNo(v) >= kn }, map[*Term]bool{})
}

func (x *Exec) weaken(ci *cutInfo, h, b, entry *State) bool {
	changed := false
	k1 := Add(ci.k, I64(1))
	bf := b.top()
	for _, p := range ci.phis {
		nv := bf.env[p]
		switch ci.class[p] {
		case phiConst:
			if x.sameValue(b, nv, ci.entryPhi[p], p.Type()) {
				continue
			}
			changed = true
			if s, ok := nv.(Sc); ok && s.t.sort.width() > 0 {
				d := Sub(s.t, ci.entryPhi[p].(Sc).t)
				if d.isBV() {
					ci.class[p] = phiAffine
					ci.stepOf[p] = d
					continue
				}
			}
			ci.class[p] = phiHavoc
			if s, ok := nv.(SliceV); ok {
				if s.ref.op == "int" && int64(s.ref.val) >= int64(ci.entryNext) || s.ref.op == "ite" {
					ci.class[p] = phiOwned
				}
			}
		case phiAffine:
			et := ci.entryPhi[p].(Sc).t
			w := et.sort.width()
			kk := k1
			if w < 64 {
				kk = Extract(w-1, 0, k1)
			}
			want := Add(et, Bin("bvmul", ci.stepOf[p], kk))
			if nv.(Sc).t == want {
				continue
			}
			if ok, _ := x.valid(b, Eq(nv.(Sc).t, want)); ok {
				continue
			}
			ci.class[p] = phiHavoc
			changed = true
		case phiOwned:
			s := nv.(SliceV)
			for _, r := range iteLeaves(s.ref) {
				if !(r.op == "int" && int64(r.val) >= int64(ci.entryNext)) {
					ci.class[p] = phiHavoc
					changed = true
					break
				}
			}
		}
	}
	var keys []string
	for key := range b.heap {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		old, ok := h.heap[key]
		if !ok {
			old = Var("H0:"+key, b.heap[key].sort)
		}
		if b.heap[key] == old || ci.whole[key] {
			continue
		}
		refs, whole := diffRefs(b.heap[key], old)
		for _, r := range refs {
			if r.op == "int" && int64(r.val) >= int64(ci.entryNext) {
				continue
			}
			if ci.loopDependent(r) {
				whole = true
				continue
			}
			if ci.mods[key][r] {
				continue
			}
			if ci.mods[key] == nil {
				ci.mods[key] = map[*Term]bool{}
			}
			ci.mods[key][r] = true
			if _, ok := entry.heap[key]; !ok {
				entry.heap[key] = Var("H0:"+key, b.heap[key].sort)
				refBound[entry.heap[key]] = 1
			}
			changed = true
		}
		if whole {
			ci.whole[key] = true
			if _, ok := entry.heap[key]; !ok {
				entry.heap[key] = Var("H0:"+key, b.heap[key].sort)
				refBound[entry.heap[key]] = 1
			}
			changed = true
		}
	}
	return changed
}

func iteLeaves(t *Term) []*Term {
	if t.op == "ite" {
		return append(iteLeaves(t.args[1]), iteLeaves(t.args[2])...)
	}
	return []*Term{t}
}

func (x *Exec) sameValue(st *State, a, b Value, t types.Type) bool {
	switch av := a.(type) {
	case iterV:
		bv, ok := b.(iterV)
		return ok && av.id == bv.id
	case TupleV:
		return false
	case PtrV:
		bv := b.(PtrV)
		return av.ref == bv.ref && av.base == bv.base && av.idx == bv.idx
	}
	la, lb := x.toLeaves(a, t), x.toLeaves(b, t)
	for i := range la {
		if la[i] == lb[i] {
			continue
		}
		if ok, _ := x.valid(st, Eq(la[i], lb[i])); !ok {
			return false
		}
	}
	return true
}

func diffRefs(n, old *Term) (refs []*Term, whole bool) {
	// every array the old one was stored over, with the indices stored since
	since := map[*Term]int{}
	var chain []*Term
	for o := old; ; o = o.args[0] {
		since[o] = len(chain)
		if o.op != "store" {
			break
		}
		chain = append(chain, o.args[1])
	}
	var rec func(n *Term) ([]*Term, bool)
	rec = func(n *Term) ([]*Term, bool) {
		if k, ok := since[n]; ok {
			return append([]*Term(nil), chain[:k]...), false
		}
		switch n.op {
		case "store":
			r, w := rec(n.args[0])
			return append(r, n.args[1]), w
		case "ite":
			r1, w1 := rec(n.args[1])
			r2, w2 := rec(n.args[2])
			return append(r1, r2...), w1 || w2
		}
		return nil, true
	}
	return rec(n)
}

type eqLeaf struct {
	name  string
	get   func(st *State) *Term
	sort  Sort
	ghost bool
}

// autoCands adds candidate invariants the tool finds itself: the loop
// condition held in the previous iteration; a changed variable equals a
// changed ghost or other variable.
func (x *Exec) autoCands(ci *cutInfo, st, h *State) bool {
	n0 := len(ci.cands)
	hc := h.clone()
	if c, neg := x.headCond(hc); c != nil {
		if neg {
			c = Not(c)
		}
		kn := freshNo(ci.k)
		dep := mentions(c, func(v *Term) bool { return freshNo(v) > kn }, map[*Term]bool{})
		if !dep && c != True {
			k := ci.k
			ci.condK = c
			ci.cands = append(ci.cands, &candInv{name: "previous condition", at: func(s *State, kv *Term) (*Term, bool) {
				return Or(Eq(kv, I64(0)), Subst(c, map[*Term]*Term{k: Sub(kv, I64(1))})), true
			}})
			// keep condK expressed in the symbol of later headers
			ci.condOver = k
		}
	}
	// a variable that follows the iteration count one behind
	for _, p := range ci.phis {
		if w, _ := intType(p.Type()); ci.class[p] == phiHavoc && w == 64 {
			p := p
			ci.cands = append(ci.cands, &candInv{name: p.Comment + " == k-1", at: func(s *State, kv *Term) (*Term, bool) {
				v, ok := s.top().env[p].(Sc)
				if !ok {
					return nil, false
				}
				return Or(Eq(kv, I64(0)), Eq(v.t, Sub(kv, I64(1)))), true
			}})
		}
	}
	// a slice that grows by one in every iteration
	for _, p := range ci.phis {
		if e, ok := ci.entryPhi[p].(SliceV); ok && ci.class[p] != phiConst {
			p, n0 := p, e.len
			ci.cands = append(ci.cands, &candInv{name: "len(" + p.Comment + ") == k + start", at: func(s *State, kv *Term) (*Term, bool) {
				v, ok := s.top().env[p].(SliceV)
				if !ok {
					return nil, false
				}
				return Eq(v.len, Add(n0, kv)), true
			}})
		}
	}
	// equalities
	var ls []eqLeaf
	for _, p := range ci.phis {
		if ci.class[p] != phiHavoc {
			continue
		}
		p := p
		specs := leafSpecs("", p.Type())
		for i, l := range specs {
			i := i
			ls = append(ls, eqLeaf{p.Comment + l.key, func(s *State) *Term { return x.toLeaves(s.top().env[p], p.Type())[i] }, l.sort, false})
		}
	}
	for key, refs := range ci.mods {
		key := key
		if strings.HasPrefix(key, "E:") || strings.HasPrefix(key, "M:") || strings.HasPrefix(key, "I:") {
			continue
		}
		for r := range refs {
			r := r
			_, es := st.heap[key].sort.arr()
			ls = append(ls, eqLeaf{key, func(s *State) *Term { return Select(s.heap[key], r) }, es, strings.HasPrefix(key, "G:")})
		}
	}
	for key := range ci.whole {
		key := key
		if strings.HasPrefix(key, "GV:") {
			ls = append(ls, eqLeaf{key, func(s *State) *Term { return s.heap[key] }, st.heap[key].sort, true})
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].name < ls[j].name })
	entry := st.clone()
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			a, b := ls[i], ls[j]
			if a.sort != b.sort || a.sort.isArr() || !(a.ghost || b.ghost) {
				continue
			}
			ea, eb := a.get(entry), b.get(entry)
			if ok, _ := x.valid(entry, Eq(ea, eb)); !ok {
				continue
			}
			ci.cands = append(ci.cands, &candInv{name: a.name + " == " + b.name, at: func(s *State, kv *Term) (*Term, bool) {
				return Eq(a.get(s), b.get(s)), true
			}})
		}
	}
	return len(ci.cands) > n0
}

// backEdge: end of an iteration in the real run.
func (x *Exec) backEdge(st *State, li *loopInst) {
	k1 := Add(li.k, I64(1))
	for _, c := range li.ci.cands {
		if !c.user {
			continue
		}
		t, ok := c.at(st, k1)
		if !ok {
			continue
		}
		x.prove(st, t, "loop invariant: "+c.name, c.props, 0)
	}
	x.checkSteps(st, li)
}
