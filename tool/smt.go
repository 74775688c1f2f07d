package main

// SMT back end: an incremental z3 process whose assertion stack follows the
// path being explored, plus one-shot fallbacks on other solvers.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted formulas, one push level each
	defs    map[*Term]bool
	decls   map[string]bool
	buf     bytes.Buffer
	queries int
	time    time.Duration
	timeout int // ms
	bin     string
	cache   map[string]string
}

func NewSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS, cache: map[string]string{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.stack = nil
	s.defs = map[*Term]bool{}
	s.decls = map[string]bool{}
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n(declare-sort Str 0)\n", s.timeout)
}
func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

// emitter writes a term as SMT-LIB, defining shared nodes.
type emitter interface {
	declare(name string, args []Sort, res Sort)
	defined(t *Term) bool
	define(t *Term, body string)
}

func leaf(t *Term, e emitter) (string, bool) {
	switch t.op {
	case "true", "false":
		return t.op, true
	case "bv":
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.width()), true
	case "int":
		v := int64(t.val)
		if v < 0 {
			return fmt.Sprintf("(- %d)", -v), true
		}
		return fmt.Sprint(v), true
	case "var":
		e.declare(t.name, nil, t.sort)
		return smtName(t.name), true
	case "splice":
		// only reached when a spliced array is used as a value (string
		// identity): left uninterpreted
		n := fmt.Sprintf("splice!%d", t.id)
		e.declare(n, nil, t.sort)
		return smtName(n), true
	}
	return "", false
}

func emit(t *Term, e emitter) string {
	if s, ok := leaf(t, e); ok {
		return s
	}
	if t.op == "forall" {
		panic("emit: quantifier")
	}
	if e.defined(t) {
		return fmt.Sprintf("t%d", t.id)
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = emit(a, e)
	}
	var b string
	j := strings.Join(as, " ")
	switch t.op {
	case "app":
		ss := make([]Sort, len(t.args))
		for i, a := range t.args {
			ss[i] = a.sort
		}
		e.declare(t.name, ss, t.sort)
		if len(as) == 0 {
			b = smtName(t.name)
		} else {
			b = "(" + smtName(t.name) + " " + j + ")"
		}
	case "extract":
		b = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, j)
	case "zext":
		b = fmt.Sprintf("((_ zero_extend %d) %s)", t.hi, j)
	case "sext":
		b = fmt.Sprintf("((_ sign_extend %d) %s)", t.hi, j)
	case "constarr":
		b = fmt.Sprintf("((as const %s) %s)", t.sort, j)
	case "<int":
		b = "(< " + j + ")"
	default:
		b = "(" + t.op + " " + j + ")"
	}
	e.define(t, b)
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) declare(name string, args []Sort, res Sort) {
	if s.decls[name] {
		return
	}
	s.decls[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(as, " "), res)
}
func (s *Solver) defined(t *Term) bool { return s.defs[t] }
func (s *Solver) define(t *Term, body string) {
	s.defs[t] = true
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, t.sort, body)
}
func (s *Solver) push(f *Term) {
	str := emit(f, s)
	s.buf.WriteString("(push 1)\n")
	fmt.Fprintf(&s.buf, "(assert %s)\n", str)
	s.stack = append(s.stack, f)
}
func (s *Solver) popTo(n int) {
	k := len(s.stack) - n
	if k <= 0 {
		return
	}
	fmt.Fprintf(&s.buf, "(pop %d)\n", k)
	s.stack = s.stack[:n]
}

// Check decides satisfiability of the conjunction of fs: "sat", "unsat" or
// "unknown".
func (s *Solver) Check(fs []*Term) string {
	var gs []*Term
	seen := map[*Term]bool{}
	var key strings.Builder
	for _, f := range fs {
		if f == False {
			return "unsat"
		}
		if f == True || seen[f] {
			continue
		}
		if seen[Not(f)] {
			return "unsat"
		}
		seen[f] = true
		gs = append(gs, f)
		fmt.Fprintf(&key, "%d,", f.id)
	}
	if r, ok := s.cache[key.String()]; ok {
		return r
	}
	t0 := time.Now()
	s.sync(gs)
	s.buf.WriteString("(check-sat)\n")
	r := s.roundtrip()
	s.queries++
	s.time += time.Since(t0)
	if r != "sat" && r != "unsat" && r != "unknown" && r != "timeout" {
		panic("solver said: " + r)
	}
	if r == "timeout" {
		r = "unknown"
	}
	s.cache[key.String()] = r
	return r
}

func (s *Solver) sync(gs []*Term) {
	i := 0
	for i < len(gs) && i < len(s.stack) && gs[i] == s.stack[i] {
		i++
	}
	s.popTo(i)
	for ; i < len(gs); i++ {
		s.push(gs[i])
	}
}

func (s *Solver) roundtrip() string {
	if _, err := s.in.Write(s.buf.Bytes()); err != nil {
		panic(err)
	}
	s.buf.Reset()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line
	}
}

// Values returns the model values of ts after a sat answer for fs.
func (s *Solver) Values(fs []*Term, ts []*Term) []string {
	out := make([]string, len(ts))
	delete(s.cache, "")
	var gs []*Term
	seen := map[*Term]bool{}
	for _, f := range fs {
		if f != True && !seen[f] {
			seen[f] = true
			gs = append(gs, f)
		}
	}
	s.sync(gs)
	var names []string
	for _, t := range ts {
		names = append(names, emit(t, s))
	}
	s.buf.WriteString("(check-sat)\n")
	if s.roundtrip() != "sat" {
		return out
	}
	for i, n := range names {
		fmt.Fprintf(&s.buf, "(get-value (%s))\n", n)
		if _, err := s.in.Write(s.buf.Bytes()); err != nil {
			return out
		}
		s.buf.Reset()
		depth, started := 0, false
		var sb strings.Builder
		for !started || depth > 0 {
			c, err := s.out.ReadByte()
			if err != nil {
				return out
			}
			sb.WriteByte(c)
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		v := strings.TrimSpace(sb.String())
		v = strings.TrimPrefix(v, "((")
		v = strings.TrimPrefix(v, n)
		v = strings.TrimSuffix(v, "))")
		out[i] = strings.TrimSpace(v)
	}
	return out
}

// one-shot script for fallback solvers and cross-checking
type script struct {
	decls map[string]bool
	defs  map[*Term]bool
	b     bytes.Buffer
}

func (s *script) declare(name string, args []Sort, res Sort) {
	if s.decls[name] {
		return
	}
	s.decls[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	fmt.Fprintf(&s.b, "(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(as, " "), res)
}
func (s *script) defined(t *Term) bool { return s.defs[t] }
func (s *script) define(t *Term, body string) {
	s.defs[t] = true
	fmt.Fprintf(&s.b, "(define-fun t%d () %s %s)\n", t.id, t.sort, body)
}

func toScript(fs []*Term) string {
	s := &script{decls: map[string]bool{}, defs: map[*Term]bool{}}
	s.b.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n")
	for _, f := range fs {
		x := emit(f, s)
		fmt.Fprintf(&s.b, "(assert %s)\n", x)
	}
	s.b.WriteString("(check-sat)\n")
	return s.b.String()
}

func oneShot(scriptText string, timeout time.Duration, bin string, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	return oneShotCtx(ctx, scriptText, bin, args...)
}

func oneShotCtx(ctx context.Context, scriptText string, bin string, args ...string) string {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(scriptText)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l
		}
	}
	return "unknown"
}
