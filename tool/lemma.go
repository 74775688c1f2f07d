package main

// Round-trip lemmas over the codec contracts: the layout the encoders promise
// satisfies the validity condition of the decoders, and what the decoders
// return for it is what was encoded.

import (
	"golang.org/x/tools/go/ssa"
)

func (x *Exec) proveLemma(ct *Contract, fns map[string]*ssa.Function) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = r.msg
			case specErr:
				err = r.msg
			default:
				panic(r)
			}
		}
	}()
	x.root = ct
	c := ct.native.(*codecContract)
	enc := "protocol.Marshal" + c.kind + "Pkt"
	prop := []string{"C02"}
	if c.dir {
		enc = "protocol.Marshaldir"
		prop = []string{"C04"}
	}
	// the lemma is about these two contracts: a check that uses it verifies them
	x.usedC[enc] = true
	x.usedC["protocol.Un"+"m"+enc[len("protocol.M"):]] = true
	fn := fns[enc]
	if fn == nil {
		return "no function " + enc
	}
	st := &State{heap: map[string]*Term{}, inPath: map[*Term]bool{}, next: 1}
	var vs []Value
	var tag *Term
	for i, p := range fn.Params {
		v := x.fresh(st, p.Name(), p.Type())
		switch {
		case i == 0:
		case c.dir:
			vs = dirValues(v)
		case i == 1:
			tag = v.(Sc).t
		default:
			vs = append(vs, v)
		}
	}
	cs := c.contents(x, st, vs)
	sum := I64(0)
	for i, f := range cs {
		st.assume(fits1(f))
		switch c.fields[i] {
		case fNames:
			st.assume(Ult(npos(f, 17, f.n), I64(1<<32)))
			st.assume(allJ(0, f.n, func(j *Term) *Term { return Ult(npos(f, 17, j), I64(1<<32)) }))
		case fStr:
			sum = Add(sum, f.s.len)
		}
	}
	M := StrV{arr: Fresh("msg", SArr(S64, S8)), off: Fresh("off", S64), len: Fresh("len", S64)}
	st.assume(Ult(M.off, I64(maxLen)))
	st.assume(Ult(M.len, I64(maxLen)))
	var S StrV
	var start *Term
	if c.dir {
		st.assume(Ule(sum, I64(0xFFFF-2-47+2)))
		fp, end := layout(M, I64(2), cs)
		for _, p := range fp {
			st.assume(p.t)
		}
		st.assume(Eq(Add(ZExt(le(M.arr, M.off, 2), 64), I64(2)), end))
		// what follows the entry is arbitrary
		st.assume(Ule(end, M.len))
		S, start = M, I64(2)
		conds, ds, dend := decode(S, start, c.fields)
		for _, k := range conds {
			x.prove(st, k, "round trip: the encoding is a valid entry", prop, 0)
		}
		for i := range cs {
			x.prove(st, sameContent(cs[i], ds[i]), "round trip: every field comes back", prop, 0)
		}
		x.prove(st, Eq(dend, end), "round trip: exactly the entry is consumed", prop, 0)
		return ""
	}
	for _, p := range fullLayout(c.kind, M, tag, cs) {
		st.assume(p.t)
	}
	S = StrV{arr: M.arr, off: Add(M.off, I64(5)), len: Sub(M.len, I64(5))}
	if x.query(st) == "unsat" {
		return "the layout is contradictory"
	}
	for _, f := range cs {
		if f.k != fNames {
			continue
		}
		// by induction: the decoder's j-th position is the encoder's
		f := f
		same := func(j *Term) *Term {
			return And(Eq(Add(spos(S, 12, j), I64(5)), npos(f, 17, j)), Ule(I64(17), npos(f, 17, j)))
		}
		x.prove(st, same(I64(0)), "round trip: positions agree (base)", prop, 0)
		s := st.clone()
		j := Fresh("j", S64)
		s.cand(j)
		s.assume(Ult(j, f.n))
		s.assume(same(j))
		x.prove(s, same(Add(j, I64(1))), "round trip: positions agree (step)", prop, 0)
		// ends are ordered: needed for "no string reaches beyond the end"
		mono := func(j *Term) *Term {
			return Ule(npos(f, 17, Sub(f.n, j)), npos(f, 17, f.n))
		}
		x.prove(st, mono(I64(0)), "round trip: positions grow (base)", prop, 0)
		s2 := st.clone()
		i := Fresh("i", S64)
		s2.cand(i)
		s2.cand(Sub(Sub(f.n, i), I64(1)))
		s2.assume(Ult(i, f.n))
		s2.assume(mono(i))
		x.prove(s2, mono(Add(i, I64(1))), "round trip: positions grow (step)", prop, 0)
		b := boundVar(S64, 0)
		b1 := Add(b, I64(1))
		st.assume(ForallT(b, Implies(Ult(b, f.n), And(same(b), Ule(npos(f, 17, b), npos(f, 17, f.n)), same(b1), Ule(npos(f, 17, b1), npos(f, 17, f.n))))))
		st.assume(And(same(f.n), same(I64(0))))
		st.cand(I64(0))
		st.cand(f.n)
	}
	x.prove(st, Eq(le(S.arr, S.off, 2), tag), "round trip: the tag comes back", prop, 0)
	x.prove(st, Ule(I64(2), S.len), "round trip: the encoding is a valid body", prop, 0)
	conds, ds, dend := decode(S, I64(2), c.fields)
	for _, k := range conds {
		x.prove(st, k, "round trip: the encoding is a valid body", prop, 0)
	}
	for i := range cs {
		x.prove(st, sameContent(cs[i], ds[i]), "round trip: every field comes back", prop, 0)
	}
	x.prove(st, Eq(dend, S.len), "round trip: the whole message is consumed", prop, 0)
	return ""
}
