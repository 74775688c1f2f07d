package main

// Terms: a hash-consed SMT term language (bit-vectors up to 64 bits, Int
// references, arrays, an uninterpreted string sort) with a small simplifier.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int" // object references; 0 is nil
	SStr  Sort = "Str" // immutable byte strings, up to content equality
)

func SBV(n int) Sort { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }

var (
	S8  = SBV(8)
	S16 = SBV(16)
	S32 = SBV(32)
	S64 = SBV(64)
)

func SArr(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

func (s Sort) width() int {
	t := string(s)
	if strings.HasPrefix(t, "(_ BitVec ") {
		n, _ := strconv.Atoi(strings.TrimSuffix(t[len("(_ BitVec "):], ")"))
		return n
	}
	return 0
}
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

// split an array sort into index and element sort
func (s Sort) arr() (Sort, Sort) {
	t := string(s)
	t = t[len("(Array ") : len(t)-1]
	d := 0
	for i, c := range t {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	id   int
	op   string
	args []*Term
	sort Sort
	name string // var / app name
	val  uint64 // bv constant, or int constant (as int64)
	hi   int    // extract hi, or extension amount
	lo   int
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatUint(t.val, 16))
	if t.hi != 0 || t.lo != 0 {
		fmt.Fprintf(&sb, "|%d,%d", t.hi, t.lo)
	}
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termSeq++
	n := new(Term)
	*n = t
	n.id = termSeq
	termTab[k] = n
	return n
}

var (
	True  = mk(Term{op: "true", sort: SBool})
	False = mk(Term{op: "false", sort: SBool})
)

func Var(name string, s Sort) *Term { return mk(Term{op: "var", name: name, sort: s}) }

var freshSeq int

func Fresh(prefix string, s Sort) *Term {
	freshSeq++
	return Var(fmt.Sprintf("%s!%d", prefix, freshSeq), s)
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}
func BV(v uint64, w int) *Term { return mk(Term{op: "bv", val: v & mask(w), sort: SBV(w)}) }
func I64(v int64) *Term        { return BV(uint64(v), 64) }
func IntLit(v int64) *Term     { return mk(Term{op: "int", val: uint64(v), sort: SInt}) }

var Nil = IntLit(0)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func App(name string, s Sort, args ...*Term) *Term {
	return mk(Term{op: "app", name: name, sort: s, args: args})
}
func (t *Term) isConst() bool {
	return t.op == "bv" || t.op == "int" || t.op == "true" || t.op == "false"
}
func (t *Term) isBV() bool { return t.op == "bv" }

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk(Term{op: "not", sort: SBool, args: []*Term{a}})
}

func nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk(Term{op: op, sort: SBool, args: out})
}
func And(xs ...*Term) *Term    { return nary("and", True, False, xs) }
func Or(xs ...*Term) *Term     { return nary("or", False, True, xs) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s %s: %s %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a.sort == SInt {
		if refDistinct != nil && (refDistinct(a, b) || refDistinct(b, a)) {
			return False
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1] == Nil && p[0].op == "app" && strings.HasPrefix(p[0].name, "box:") {
				return False
			}
		}
	}
	if a.sort == SStr && a.op == "var" && b.op == "var" && strings.HasPrefix(a.name, "lit:") && strings.HasPrefix(b.name, "lit:") {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort.width() > 0 {
		d := Sub(a, b)
		if d.isBV() {
			return Bool(d.val == 0)
		}
		// zext(x) = const
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op == "zext" && p[1].isBV() {
				in := p[0].args[0]
				if p[1].val > mask(in.sort.width()) {
					return False
				}
				return Eq(in, BV(p[1].val, in.sort.width()))
			}
		}
		if a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
			return Eq(a.args[0], b.args[0])
		}
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == "ite" && p[1].isConst() && (p[0].args[1].isConst() || p[0].args[2].isConst()) {
			x := p[0]
			return Ite(x.args[0], Eq(x.args[1], p[1]), Eq(x.args[2], p[1]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: "=", sort: SBool, args: []*Term{a, b}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- bit-vectors: sums are kept in linear normal form ----

func linear(t *Term, k uint64, acc map[*Term]uint64, c *uint64) {
	switch t.op {
	case "bv":
		*c += k * t.val
	case "bvadd":
		for _, a := range t.args {
			linear(a, k, acc, c)
		}
	case "bvmul":
		if t.args[0].isBV() {
			linear(t.args[1], k*t.args[0].val, acc, c)
			return
		}
		acc[t] += k
	default:
		acc[t] += k
	}
}
func fromLinear(acc map[*Term]uint64, c uint64, w int) *Term {
	m := mask(w)
	var ts []*Term
	for t, k := range acc {
		if k&m != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := acc[t] & m
		if k == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk(Term{op: "bvmul", sort: SBV(w), args: []*Term{BV(k, w), t}}))
		}
	}
	if c&m != 0 || len(out) == 0 {
		out = append(out, BV(c, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{op: "bvadd", sort: SBV(w), args: out})
}
func Add(xs ...*Term) *Term {
	w := xs[0].sort.width()
	acc := map[*Term]uint64{}
	var c uint64
	for _, x := range xs {
		if x.sort.width() != w {
			panic(fmt.Sprintf("Add: widths %s %s", xs[0].sort, x.sort))
		}
		linear(x, 1, acc, &c)
	}
	return fromLinear(acc, c, w)
}
func Sub(a, b *Term) *Term {
	w := a.sort.width()
	if b.sort.width() != w {
		panic("Sub widths")
	}
	acc := map[*Term]uint64{}
	var c uint64
	linear(a, 1, acc, &c)
	linear(b, ^uint64(0), acc, &c)
	return fromLinear(acc, c, w)
}
func MulC(k uint64, a *Term) *Term {
	acc := map[*Term]uint64{}
	var c uint64
	linear(a, k, acc, &c)
	return fromLinear(acc, c, a.sort.width())
}

func sx(v uint64, w int) int64 {
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func Bin(op string, a, b *Term) *Term {
	w := a.sort.width()
	if w == 0 || b.sort != a.sort {
		panic(fmt.Sprintf("Bin %s: sorts %s %s", op, a.sort, b.sort))
	}
	m := mask(w)
	switch op {
	case "bvadd":
		return Add(a, b)
	case "bvsub":
		return Sub(a, b)
	case "bvmul":
		if a.isBV() {
			return MulC(a.val, b)
		}
		if b.isBV() {
			return MulC(b.val, a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(Term{op: op, sort: a.sort, args: []*Term{a, b}})
	}
	if a.isBV() && b.isBV() {
		x, y := a.val, b.val
		switch op {
		case "bvand":
			return BV(x&y, w)
		case "bvor":
			return BV(x|y, w)
		case "bvxor":
			return BV(x^y, w)
		case "bvshl":
			if y >= uint64(w) {
				return BV(0, w)
			}
			return BV(x<<y, w)
		case "bvlshr":
			if y >= uint64(w) {
				return BV(0, w)
			}
			return BV(x>>y, w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return BV(uint64(sx(x, w)>>y), w)
		case "bvudiv":
			if y != 0 {
				return BV(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return BV(x%y, w)
			}
		case "bvsdiv":
			if y != 0 {
				return BV(uint64(sx(x, w)/sx(y, w)), w)
			}
		case "bvsrem":
			if y != 0 {
				return BV(uint64(sx(x, w)%sx(y, w)), w)
			}
		}
	}
	// division of an unknown quantity (a clock reading): nothing but that it is
	// a function of its operands is used
	if (op == "bvsdiv" || op == "bvudiv") && w == 64 && a.op == "app" && b.isBV() && b.val&(b.val-1) != 0 {
		return App(op+"64", S64, a, b)
	}
	switch op {
	case "bvand":
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].isBV() {
				if p[0].val == 0 {
					return BV(0, w)
				}
				if p[0].val == m {
					return p[1]
				}
				// low mask on zext
				if p[1].op == "zext" {
					iw := p[1].args[0].sort.width()
					return ZExt(Bin("bvand", p[1].args[0], BV(p[0].val, iw)), w)
				}
			}
		}
		if a == b {
			return a
		}
	case "bvor", "bvxor":
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].isBV() && p[0].val == 0 {
				return p[1]
			}
		}
		if a == b {
			if op == "bvor" {
				return a
			}
			return BV(0, w)
		}
	case "bvshl", "bvlshr", "bvashr":
		if b.isBV() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != "bvashr" {
				return BV(0, w)
			}
			if op == "bvlshr" {
				k := int(b.val)
				return ZExt(Extract(w-1, k, a), w)
			}
			if op == "bvshl" {
				// x<<k = concat(extract(w-1-k,0,x), 0_k)
				k := int(b.val)
				if a.op == "zext" && a.args[0].sort.width()+k <= w {
					return ZExt(Concat(a.args[0], BV(0, k)), w)
				}
			}
		}
	case "bvudiv":
		if b.isBV() && b.val != 0 && b.val&(b.val-1) == 0 {
			return Bin("bvlshr", a, BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case "bvurem":
		if b.isBV() && b.val != 0 && b.val&(b.val-1) == 0 {
			return Bin("bvand", a, BV(b.val-1, w))
		}
	}
	if op == "bvor" {
		// disjoint byte assembling: zext(x) | zext(concat(y,0_k)) with width(x)<=k
		if r := orDisjoint(a, b, w); r != nil {
			return r
		}
		if r := orDisjoint(b, a, w); r != nil {
			return r
		}
	}
	if op == "bvand" || op == "bvor" || op == "bvxor" {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

func stripZ(t *Term) *Term {
	if t.op == "zext" {
		return t.args[0]
	}
	return t
}
func orDisjoint(lo, hi *Term, w int) *Term {
	l, h := stripZ(lo), stripZ(hi)
	if h.op == "concat" && h.args[1].isBV() && h.args[1].val == 0 {
		k := h.args[1].sort.width()
		if l.sort.width() <= k {
			return ZExt(Concat(h.args[0], ZExt(l, k)), w)
		}
	}
	return nil
}

func Concat(hi, lo *Term) *Term {
	w := hi.sort.width() + lo.sort.width()
	if hi.isBV() && lo.isBV() {
		return BV(hi.val<<uint(lo.sort.width())|lo.val, w)
	}
	if hi.isBV() && hi.val == 0 {
		return ZExt(lo, w)
	}
	if hi.op == "extract" && lo.op == "extract" && hi.args[0] == lo.args[0] && hi.lo == lo.hi+1 {
		return Extract(hi.hi, lo.lo, hi.args[0])
	}
	// concat(a, concat(b,c)) -> concat(concat(a,b),c) to merge extracts
	if lo.op == "concat" {
		return Concat(Concat(hi, lo.args[0]), lo.args[1])
	}
	if hi.op == "concat" && hi.args[1].op == "extract" && lo.op == "extract" && hi.args[1].args[0] == lo.args[0] && hi.args[1].lo == lo.hi+1 {
		return Concat(hi.args[0], Extract(hi.args[1].hi, lo.lo, lo.args[0]))
	}
	return mk(Term{op: "concat", sort: SBV(w), args: []*Term{hi, lo}})
}

func ZExt(a *Term, w int) *Term {
	aw := a.sort.width()
	if aw == w {
		return a
	}
	if aw > w {
		panic("ZExt shrink")
	}
	if a.isBV() {
		return BV(a.val, w)
	}
	if a.op == "zext" {
		return ZExt(a.args[0], w)
	}
	return mk(Term{op: "zext", sort: SBV(w), args: []*Term{a}, hi: w - aw})
}
func SExt(a *Term, w int) *Term {
	aw := a.sort.width()
	if aw == w {
		return a
	}
	if a.isBV() {
		return BV(uint64(sx(a.val, aw)), w)
	}
	if a.op == "zext" {
		return ZExt(a.args[0], w)
	}
	return mk(Term{op: "sext", sort: SBV(w), args: []*Term{a}, hi: w - aw})
}
func Extract(hi, lo int, a *Term) *Term {
	aw := a.sort.width()
	if lo == 0 && hi == aw-1 {
		return a
	}
	w := hi - lo + 1
	if w <= 0 || hi >= aw {
		panic(fmt.Sprintf("Extract %d %d of %d", hi, lo, aw))
	}
	switch a.op {
	case "bv":
		return BV(a.val>>uint(lo), w)
	case "extract":
		return Extract(hi+a.lo, lo+a.lo, a.args[0])
	case "zext", "sext":
		in := a.args[0]
		iw := in.sort.width()
		if hi < iw {
			return Extract(hi, lo, in)
		}
		if a.op == "zext" {
			if lo >= iw {
				return BV(0, w)
			}
			return ZExt(Extract(iw-1, lo, in), w)
		}
	case "concat":
		l := a.args[1]
		lw := l.sort.width()
		if hi < lw {
			return Extract(hi, lo, l)
		}
		if lo >= lw {
			return Extract(hi-lw, lo-lw, a.args[0])
		}
		return Concat(Extract(hi-lw, 0, a.args[0]), Extract(lw-1, lo, l))
	case "bvand", "bvor", "bvxor":
		return Bin(a.op, Extract(hi, lo, a.args[0]), Extract(hi, lo, a.args[1]))
	case "bvashr":
		if a.args[1].isBV() {
			k := int(a.args[1].val)
			if hi+k < aw {
				return Extract(hi+k, lo+k, a.args[0])
			}
		}
	case "ite":
		if a.args[1].isBV() || a.args[2].isBV() {
			return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
		}
	case "bvadd":
		if lo == 0 {
			xs := make([]*Term, len(a.args))
			for i, x := range a.args {
				xs[i] = Extract(hi, 0, x)
			}
			return Add(xs...)
		}
	case "bvmul":
		if lo == 0 && a.args[0].isBV() {
			return MulC(a.args[0].val, Extract(hi, 0, a.args[1]))
		}
	}
	return mk(Term{op: "extract", sort: SBV(w), args: []*Term{a}, hi: hi, lo: lo})
}

func maxVal(t *Term) uint64 { // upper bound as unsigned
	w := t.sort.width()
	switch t.op {
	case "bv":
		return t.val
	case "zext":
		return maxVal(t.args[0])
	case "ite":
		a, b := maxVal(t.args[1]), maxVal(t.args[2])
		if a > b {
			return a
		}
		return b
	case "bvand":
		a, b := maxVal(t.args[0]), maxVal(t.args[1])
		if a < b {
			return a
		}
		return b
	}
	return mask(w)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isBV() && b.isBV() {
		return Bool(a.val < b.val)
	}
	if b.isBV() && b.val == 0 {
		return False
	}
	if b.isBV() && maxVal(a) < b.val {
		return True
	}
	if a.isBV() && a.val >= maxVal(b) {
		return False
	}
	if a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
		return Ult(a.args[0], b.args[0])
	}
	return mk(Term{op: "bvult", sort: SBool, args: []*Term{a, b}})
}
func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Slt(a, b *Term) *Term {
	w := a.sort.width()
	if a == b {
		return False
	}
	if a.isBV() && b.isBV() {
		return Bool(sx(a.val, w) < sx(b.val, w))
	}
	top := uint64(1) << uint(w-1)
	ma, mb := maxVal(a), maxVal(b)
	if ma < top && mb < top { // both non-negative
		return Ult(a, b)
	}
	return mk(Term{op: "bvslt", sort: SBool, args: []*Term{a, b}})
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

// ---- arrays ----

// distinctIdx reports whether two index terms are certainly different.
func distinctIdx(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a != b
	}
	if a.sort.width() > 0 {
		d := Sub(a, b)
		return d.isBV() && d.val != 0
	}
	return false
}

type selKey struct{ a, i *Term }

var selMemo = map[selKey]*Term{}

// refDistinct is set by the executor: path-independent knowledge that two Int
// references differ (e.g. a fresh allocation and a symbol that predates it).
var refDistinct func(a, b *Term) bool

func Select(a, i *Term) *Term {
	k := selKey{a, i}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := select1(a, i)
	selMemo[k] = r
	return r
}
func select1(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctIdx(a.args[1], i) || (i.sort == SInt && refDistinct != nil && refDistinct(a.args[1], i)) {
				a = a.args[0]
				continue
			}
			if overSplice(a) {
				return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
			}
		case "constarr":
			return a.args[0]
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case "splice":
			base, at, src, so, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			d := Sub(i, at)
			c := Ult(d, n)
			if c == False {
				a = base
				continue
			}
			if c == True {
				return Select(src, Add(so, d))
			}
			return Ite(c, Select(src, Add(so, d)), Select(base, i))
		}
		break
	}
	_, es := a.sort.arr()
	return mk(Term{op: "select", sort: es, args: []*Term{relevant(a, i), i}})
}

// relevant drops the stores of a chain that cannot be at i.
func relevant(a, i *Term) *Term {
	if a.op != "store" || i.sort != SInt {
		return a
	}
	b := relevant(a.args[0], i)
	if distinctIdx(a.args[1], i) || (refDistinct != nil && refDistinct(a.args[1], i)) {
		return b
	}
	if b == a.args[0] {
		return a
	}
	return mk(Term{op: "store", sort: a.sort, args: []*Term{b, a.args[1], a.args[2]}})
}

func overSplice(a *Term) bool {
	for a.op == "store" {
		a = a.args[0]
	}
	return a.op == "splice" || a.op == "ite" || a.op == "constarr"
}
func Store(a, i, v *Term) *Term {
	_, es := a.sort.arr()
	if es != v.sort {
		panic(fmt.Sprintf("Store: %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func ConstArr(idx Sort, v *Term) *Term {
	return mk(Term{op: "constarr", sort: SArr(idx, v.sort), args: []*Term{v}})
}

// Splice is the array equal to base except that positions [at, at+n) hold
// src[so ...].
func Splice(base, at, src, so, n *Term) *Term {
	if n.isBV() && n.val == 0 {
		return base
	}
	return mk(Term{op: "splice", sort: base.sort, args: []*Term{base, at, src, so, n}})
}

// Forall binds a canonical variable (named by sort and nesting depth) in body.
func ForallT(v *Term, body *Term) *Term {
	if body == True {
		return True
	}
	if !occurs(v, body, map[*Term]bool{}) {
		return body
	}
	return mk(Term{op: "forall", sort: SBool, args: []*Term{v, body}})
}
func occurs(v, t *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if occurs(v, a, seen) {
			return true
		}
	}
	return false
}

// Subst replaces variables by terms, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return subst(t, m, map[*Term]*Term{})
}
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.op == "forall" {
		// bound variables are globally distinct per nesting depth, no capture
		r := ForallT(t.args[0], subst(t.args[1], m, memo))
		memo[t] = r
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "bvadd":
		return Add(as...)
	case "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return Bin(t.op, as[0], as[1])
	case "bvult":
		return Ult(as[0], as[1])
	case "bvslt":
		return Slt(as[0], as[1])
	case "concat":
		return Concat(as[0], as[1])
	case "zext":
		return ZExt(as[0], t.sort.width())
	case "sext":
		return SExt(as[0], t.sort.width())
	case "extract":
		return Extract(t.hi, t.lo, as[0])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "constarr":
		i, _ := t.sort.arr()
		return ConstArr(i, as[0])
	case "splice":
		return Splice(as[0], as[1], as[2], as[3], as[4])
	case "forall":
		return ForallT(as[0], as[1])
	case "app":
		return App(t.name, t.sort, as...)
	case "<int":
		return IntLt(as[0], as[1])
	}
	panic("rebuild " + t.op)
}

func IntLt(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return Bool(int64(a.val) < int64(b.val))
	}
	return mk(Term{op: "<int", sort: SBool, args: []*Term{a, b}})
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case "var":
		return t.name
	case "bv":
		return fmt.Sprintf("%d:%d", t.val, t.sort.width())
	case "int":
		return fmt.Sprintf("@%d", int64(t.val))
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "..."
	}
	n := t.op
	if t.op == "app" {
		n = t.name
	}
	if t.op == "extract" {
		n = fmt.Sprintf("extract[%d:%d]", t.hi, t.lo)
	}
	var ss []string
	for _, a := range t.args {
		ss = append(ss, a.str(d-1))
	}
	return "(" + n + " " + strings.Join(ss, " ") + ")"
}
