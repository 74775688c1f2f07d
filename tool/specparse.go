package main

// Parser for contract files (see /verif/contracts/README for the language).

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type Expr struct {
	op   string // num str id call sel index slice un bin forall let tuple
	s    string
	n    int64
	args []*Expr
	typ  string
}

func (e *Expr) String() string {
	switch e.op {
	case "num":
		return fmt.Sprint(e.n)
	case "str":
		return strconv.Quote(e.s)
	case "id":
		return e.s
	case "sel":
		return e.args[0].String() + "." + e.s
	case "call":
		var as []string
		for _, a := range e.args[1:] {
			as = append(as, a.String())
		}
		return e.args[0].String() + "(" + strings.Join(as, ", ") + ")"
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "un":
		return e.s + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.s + " " + e.args[1].String() + ")"
	case "forall":
		return "forall " + e.s + " " + e.typ + " :: " + e.args[0].String()
	case "let":
		return "let " + e.s + " = " + e.args[0].String() + " in " + e.args[1].String()
	}
	return e.op
}

var tokRe = regexp.MustCompile(`^(\s+|//.*|0x[0-9a-fA-F]+|[0-9]+|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)'|[A-Za-z_][A-Za-z0-9_]*|<==>|==>|::|&&|\|\||==|!=|<=|>=|<<|>>|&\^|[-+*/%&|^!<>()\[\].,:=?{}])`)

type parser struct {
	toks []string
	p    int
	src  string
}

func lexSpec(s string) []string {
	var out []string
	src := s
	for len(s) > 0 {
		m := tokRe.FindString(s)
		if m == "" {
			panic(fmt.Sprintf("contract syntax: %q in %q", s, src))
		}
		s = s[len(m):]
		if strings.TrimSpace(m) == "" || strings.HasPrefix(m, "//") {
			continue
		}
		out = append(out, m)
	}
	return out
}
func (p *parser) peek() string {
	if p.p < len(p.toks) {
		return p.toks[p.p]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.p++; return t }
func (p *parser) expect(t string) {
	if g := p.next(); g != t {
		panic(fmt.Sprintf("contract syntax: expected %q, got %q in %q", t, g, p.src))
	}
}

func parseExpr(s string) *Expr {
	p := &parser{toks: lexSpec(s), src: s}
	e := p.expr(0)
	if p.p != len(p.toks) {
		panic(fmt.Sprintf("contract syntax: trailing %q in %q", p.peek(), s))
	}
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7, "&^": 7}

func (p *parser) expr(min int) *Expr {
	switch p.peek() {
	case "forall":
		p.next()
		v := p.next()
		var t string
		for p.peek() != "::" {
			t += p.next()
		}
		p.expect("::")
		return &Expr{op: "forall", s: v, typ: t, args: []*Expr{p.expr(0)}}
	case "let":
		p.next()
		v := p.next()
		p.expect("=")
		e := p.expr(0)
		p.expect("in")
		return &Expr{op: "let", s: v, args: []*Expr{e, p.expr(0)}}
	}
	l := p.unary()
	for {
		op := p.peek()
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		q := pr + 1
		if op == "==>" {
			q = pr
		}
		r := p.expr(q)
		l = &Expr{op: "bin", s: op, args: []*Expr{l, r}}
	}
}
func (p *parser) unary() *Expr {
	switch t := p.peek(); t {
	case "!", "-", "^", "*":
		p.next()
		return &Expr{op: "un", s: t, args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t == "(":
		e = p.expr(0)
		p.expect(")")
	case t == "":
		panic("contract syntax: unexpected end of " + p.src)
	case t[0] == '"':
		s, _ := strconv.Unquote(t)
		e = &Expr{op: "str", s: s}
	case t[0] == '\'':
		r, _, _, _ := strconv.UnquoteChar(t[1:len(t)-1], '\'')
		e = &Expr{op: "num", n: int64(r)}
	case t[0] >= '0' && t[0] <= '9':
		n, err := strconv.ParseUint(t, 0, 64)
		if err != nil {
			panic(err)
		}
		e = &Expr{op: "num", n: int64(n)}
	case t == "[":
		// a slice type used as conversion or type argument: []T
		p.expect("]")
		n := "[]" + p.next()
		if p.peek() == "." {
			p.next()
			n += "." + p.next()
		}
		e = &Expr{op: "id", s: n}
	default:
		e = &Expr{op: "id", s: t}
	}
	for {
		switch p.peek() {
		case ".":
			p.next()
			e = &Expr{op: "sel", s: p.next(), args: []*Expr{e}}
		case "(":
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}}
			for p.peek() != ")" {
				c.args = append(c.args, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			e = c
		case "[":
			p.next()
			var lo, hi *Expr
			if p.peek() != ":" {
				lo = p.expr(0)
			}
			if p.peek() == ":" {
				p.next()
				if p.peek() != "]" {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, lo}}
		default:
			return e
		}
	}
}

// ---- contracts ----

type Clause struct {
	props []string
	label string
	e     *Expr
}
type RuleStmt struct {
	kind string // assert assume check set havoc
	Clause
	lhs *Expr
}
type Rule struct {
	event    string
	params   []string
	rets     []string
	stmts    []RuleStmt
	mayPanic bool
	open     bool
}
type Contract struct {
	name       string
	params     []string
	results    []string
	requires   []Clause
	ensures    []Clause
	onpanic    []Clause
	invs       []Clause
	steps      []Clause
	rules      []*Rule
	noPanic    []string
	terminates []string
	spawn      bool
	goes       bool // says which goroutines are started
	use        bool
	native     nativeContract
	file       string
	props      map[string]bool
	lemma      bool
	optional   bool
	frame      *frameDecl
}
type Macro struct {
	params []string
	body   *Expr
}
type UFDecl struct {
	args []string
	res  string
}
type Spec struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	ghosts    map[string]string
	ufs       map[string]UFDecl
	globals   map[string][]Clause // facts about package variables
	files     []string
}

func parseClause(s string) Clause {
	s = strings.TrimSpace(s)
	var c Clause
	if strings.HasPrefix(s, "[C") || strings.HasPrefix(s, "[]") {
		i := strings.Index(s, "]")
		c.props = strings.Fields(strings.ReplaceAll(s[1:i], ",", " "))
		s = strings.TrimSpace(s[i+1:])
	}
	if i := strings.Index(s, ": "); i > 0 && !strings.Contains(s[:i], "::") && labelRe.MatchString(s[:i]) && s[i:i+2] != "::" && s[i-1] != ':' {
		c.label = s[:i]
		s = strings.TrimSpace(s[i+2:])
	}
	c.e = parseExpr(s)
	if c.label == "" {
		c.label = s
	}
	return c
}

var labelRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9 _',/-]*$`)

var kwords = map[string]bool{"def": true, "ghost": true, "contract": true, "use": true, "spawn": true, "nopanic": true, "terminates": true,
	"requires": true, "ensures": true, "onpanic": true, "inv": true, "step": true, "on": true, "assert": true, "assume": true, "check": true,
	"set": true, "havoc": true, "maypanic": true, "open": true, "uf": true, "global": true, "include": true, "template": true, "lemma": true, "optional": true, "writers": true, "users": true, "confined": true, "threads": true}

func splitArgs(s string) []string {
	var out []string
	for _, a := range strings.Split(s, ",") {
		a = strings.TrimSpace(a)
		if a != "" {
			out = append(out, a)
		}
	}
	return out
}

// header "name(params) (results)"; name may itself contain parentheses.
func parseHeader(s string) (string, []string, []string) {
	s = strings.TrimSpace(s)
	var groups []string
	// peel trailing groups
	for strings.HasSuffix(s, ")") && len(groups) < 2 {
		d := 0
		i := len(s) - 1
		for ; i >= 0; i-- {
			if s[i] == ')' {
				d++
			}
			if s[i] == '(' {
				d--
				if d == 0 {
					break
				}
			}
		}
		g := s[i+1 : len(s)-1]
		if i == 0 { // receiver of a method without parameter list
			break
		}
		groups = append([]string{g}, groups...)
		s = strings.TrimSpace(s[:i])
	}
	var ps, rs []string
	if len(groups) > 0 {
		ps = splitArgs(groups[0])
	}
	if len(groups) > 1 {
		rs = splitArgs(groups[1])
	}
	return s, ps, rs
}

func loadSpecs(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string]string{}, ufs: map[string]UFDecl{}, globals: map[string][]Clause{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.files = append(sp.files, f)
		sp.parse(filepath.Base(f), string(b))
	}
	return sp, nil
}

func (sp *Spec) parse(file, text string) {
	// templates: "template NAME a b c" ... "end" expanded by "include NAME x y z"
	templates := map[string][]string{}
	tparams := map[string][]string{}
	var lines []string
	raw := strings.Split(text, "\n")
	for i := 0; i < len(raw); i++ {
		t := strings.TrimSpace(raw[i])
		if strings.HasPrefix(t, "template ") {
			fl := strings.Fields(t)
			var body []string
			for i++; strings.TrimSpace(raw[i]) != "end"; i++ {
				body = append(body, raw[i])
			}
			templates[fl[1]] = body
			tparams[fl[1]] = fl[2:]
			continue
		}
		if strings.HasPrefix(t, "include ") {
			rest := strings.TrimSpace(strings.TrimPrefix(t, "include "))
			parts := strings.Split(rest, "|")
			name := strings.TrimSpace(parts[0])
			body, ok := templates[name]
			if !ok {
				panic("contract: no template " + name)
			}
			var exp []string
			for _, b := range body {
				for j, p := range tparams[name] {
					v := ""
					if j+1 < len(parts) {
						v = strings.TrimSpace(parts[j+1])
					}
					b = strings.ReplaceAll(b, "$"+p, v)
				}
				exp = append(exp, b)
			}
			raw = append(raw[:i+1:i+1], append(exp, raw[i+1:]...)...) // may include others
			continue
		}
		lines = append(lines, raw[i])
	}
	var logical []string
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '\t' })[0]
		if kwords[w] {
			logical = append(logical, t)
		} else {
			if len(logical) == 0 {
				panic("contract: stray line " + t)
			}
			logical[len(logical)-1] += " " + t
		}
	}
	var ct *Contract
	var rule *Rule
	for _, l := range logical {
		w, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i > 0 {
			w, rest = l[:i], strings.TrimSpace(l[i:])
		}
		if ct != nil && (w == "ensures" || w == "on") && strings.Contains(rest, "go:") {
			ct.goes = true
		}
		switch w {
		case "def":
			i := strings.Index(rest, "=")
			n, ps, _ := parseHeader(rest[:i])
			sp.macros[n] = &Macro{ps, parseExpr(rest[i+1:])}
		case "ghost":
			f := strings.Fields(rest)
			sp.ghosts[f[0]] = f[1]
		case "uf":
			i := strings.LastIndex(rest, " ")
			n, ps, _ := parseHeader(rest[:i])
			sp.ufs[n] = UFDecl{ps, rest[i+1:]}
		case "global":
			i := strings.Index(rest, " ")
			sp.globals[rest[:i]] = append(sp.globals[rest[:i]], parseClause(rest[i+1:]))
		case "contract", "lemma":
			n, ps, rs := parseHeader(rest)
			if sp.contracts[n] != nil {
				ct = sp.contracts[n]
				rule = nil
				continue
			}
			ct = &Contract{name: n, params: ps, results: rs, file: file, props: map[string]bool{}, lemma: w == "lemma"}
			rule = nil
			sp.contracts[n] = ct
			sp.order = append(sp.order, n)
		case "confined", "threads":
			// confined [props] name : root functions
			// threads [props] pkg.Type : once F G ; ctor F ; covered field field
			i := strings.Index(rest, "]")
			ps := strings.Fields(strings.ReplaceAll(strings.Trim(rest[:i], "[ "), ",", " "))
			j := strings.Index(rest, " : ")
			nm := strings.TrimSpace(rest[i+1 : j])
			fd := &frameDecl{field: nm, kind: w, props: ps}
			ct = &Contract{name: map[string]string{"confined": "sharing by ", "threads": "threads using "}[w] + nm, file: file, props: map[string]bool{}, frame: fd}
			ct.addProps(ps)
			if w == "confined" {
				for _, a := range strings.Split(rest[j+3:], ",") {
					fd.allowed = append(fd.allowed, strings.TrimSpace(a))
				}
			} else {
				for _, part := range strings.Split(rest[j+3:], ";") {
					ws := strings.Fields(part)
					switch ws[0] {
					case "once":
						fd.once = ws[1:]
					case "ctor":
						fd.ctor = ws[1:]
					case "covered":
						fd.covered = ws[1:]
					}
				}
			}
			rule = nil
			sp.contracts[ct.name] = ct
			sp.order = append(sp.order, ct.name)
		case "writers", "users":
			// writers [props] pkg.Type.field : functions
			i := strings.Index(rest, "]")
			ps := strings.Fields(strings.ReplaceAll(strings.Trim(rest[:i], "[ "), ",", " "))
			j := strings.Index(rest, " : ")
			fl := strings.TrimSpace(rest[i+1 : j])
			ct = &Contract{name: w + " of " + fl, file: file, props: map[string]bool{}, frame: &frameDecl{field: fl, writers: w == "writers", props: ps}}
			ct.addProps(ps)
			for _, a := range strings.Split(rest[j+3:], ",") {
				ct.frame.allowed = append(ct.frame.allowed, strings.TrimSpace(a))
			}
			rule = nil
			sp.contracts[ct.name] = ct
			sp.order = append(sp.order, ct.name)
		case "use":
			ct.use = true
		case "optional":
			ct.optional = true
		case "spawn":
			ct.spawn = true
		case "nopanic":
			ct.noPanic = strings.Fields(strings.Trim(rest, "[]"))
			ct.addProps(ct.noPanic)
		case "terminates":
			ct.terminates = strings.Fields(strings.Trim(rest, "[]"))
			ct.addProps(ct.terminates)
		case "requires":
			ct.requires = append(ct.requires, parseClause(rest))
		case "ensures":
			c := parseClause(rest)
			ct.addProps(c.props)
			ct.ensures = append(ct.ensures, c)
		case "onpanic":
			c := parseClause(rest)
			ct.addProps(c.props)
			ct.onpanic = append(ct.onpanic, c)
		case "inv":
			ct.invs = append(ct.invs, parseClause(rest))
		case "step":
			c := parseClause(rest)
			ct.addProps(c.props)
			ct.steps = append(ct.steps, c)
		case "on":
			n, ps, rs := parseHeader(rest)
			rule = &Rule{event: n, params: ps, rets: rs}
			ct.rules = append(ct.rules, rule)
		case "assert", "check", "assume":
			c := parseClause(rest)
			ct.addProps(c.props)
			rule.stmts = append(rule.stmts, RuleStmt{kind: w, Clause: c})
		case "set":
			i := topEq(rest)
			rule.stmts = append(rule.stmts, RuleStmt{kind: "set", lhs: parseExpr(rest[:i]), Clause: Clause{e: parseExpr(rest[i+1:])}})
		case "havoc":
			rule.stmts = append(rule.stmts, RuleStmt{kind: "havoc", Clause: Clause{e: parseExpr(rest)}})
		case "maypanic":
			rule.mayPanic = true
		case "open":
			rule.open = true
		}
	}
}

func topEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[', '(':
			d++
		case ']', ')':
			d--
		case '=':
			if d == 0 {
				return i
			}
		}
	}
	panic("contract: set without =: " + s)
}

func (c *Contract) addProps(ps []string) {
	for _, p := range ps {
		c.props[p] = true
	}
}
