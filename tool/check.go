package main

// The per-property driver: which contracts a property needs, running the
// verifier over them in parallel, the evidence file and the verdict.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// contracts a property's own contracts rely on, where fewer than all contracts
// used by callers matter for it (nil: all).
var depOverride = map[string][]string{
	"C05": {"protocol.MarshalRerrorPkt"},
	"C24": {}, // only that encoders and decoders return
}

// slow contracts first, so that the workers finish together
var slowFirst = []string{"protocol.Dispatch", "protocol.UnmarshalTwalkPkt", "protocol.UnmarshalRwalkPkt", "protocol.MarshalTwalkPkt", "protocol.MarshalRwalkPkt"}

func relevant2(spec *Spec, prop string) []string {
	var out []string
	for _, n := range spec.order {
		ct := spec.contracts[n]
		if ct.props[prop] {
			out = append(out, n)
		}
	}
	return out
}

type job struct {
	Fn   string
	Only string
}

type pool struct {
	jobs chan job
	out  chan *FnReport
	wg   sync.WaitGroup
}

func runWorker(self, repo, contracts, gen string, cross bool, jobs <-chan job, out chan<- *FnReport, limit time.Duration) {
	var cmd *exec.Cmd
	var in io.WriteCloser
	var rd *bufio.Reader
	var sc string
	start := func() error {
		sc, _ = os.MkdirTemp("", "ninepv")
		args := []string{"worker", "-repo", repo, "-contracts", contracts, "-scratch", sc}
		if gen != "" {
			args = append(args, "-gen", gen)
		}
		if cross {
			args = append(args, "-cross")
		}
		cmd = exec.Command(self, args...)
		in, _ = cmd.StdinPipe()
		o, _ := cmd.StdoutPipe()
		cmd.Stderr = os.Stderr
		rd = bufio.NewReaderSize(o, 1<<20)
		return cmd.Start()
	}
	stop := func() {
		if cmd != nil {
			in.Close()
			cmd.Process.Kill()
			cmd.Wait()
			os.RemoveAll(sc)
			cmd = nil
		}
	}
	defer stop()
	for j := range jobs {
		if cmd == nil {
			if err := start(); err != nil {
				out <- &FnReport{Name: j.Fn, Error: "verifier: " + err.Error()}
				cmd = nil
				continue
			}
		}
		b, _ := json.Marshal(j)
		in.Write(append(b, '\n'))
		type res struct {
			r   *FnReport
			err error
		}
		ch := make(chan res, 1)
		go func() {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				ch <- res{nil, err}
				return
			}
			r := &FnReport{}
			err = json.Unmarshal(line, r)
			ch <- res{r, err}
		}()
		select {
		case r := <-ch:
			if r.err != nil {
				out <- &FnReport{Name: j.Fn, Error: "verifier: " + r.err.Error()}
				stop()
				continue
			}
			out <- r.r
		case <-time.After(limit):
			out <- &FnReport{Name: j.Fn, Error: fmt.Sprintf("not verified within %v", limit)}
			stop()
		}
	}
}

func verifyAll(verif, repo, gen string, jobs []job, cross bool, limit time.Duration) map[string]*FnReport {
	self, _ := os.Executable()
	rank := map[string]int{}
	for i, n := range slowFirst {
		rank[n] = len(slowFirst) - i
	}
	sort.SliceStable(jobs, func(a, b int) bool { return rank[jobs[a].Fn] > rank[jobs[b].Fn] })
	ch := make(chan job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	out := make(chan *FnReport, len(jobs))
	var wg sync.WaitGroup
	for i := 0; i < 8 && i < len(jobs); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runWorker(self, repo, filepath.Join(verif, "contracts"), gen, cross, ch, out, limit)
		}()
	}
	wg.Wait()
	close(out)
	res := map[string]*FnReport{}
	for r := range out {
		res[r.Name] = r
	}
	return res
}

type failure struct {
	fn, label, detail string
	model             map[string]string
}

func check(verif, repo, prop, tier string, seed int) int {
	t0 := time.Now()
	if prop == "" {
		fmt.Fprintln(os.Stderr, "no property")
		return 2
	}
	spec := loadAll(filepath.Join(verif, "contracts"))
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	sc, err := os.MkdirTemp("", "ninepv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(sc)
	if _, _, err := loadRepo(repo, sc, nil); err != nil {
		fmt.Fprintln(os.Stderr, "the repository does not build:", err)
		return 2
	}
	var fails []failure
	gen := ""
	own := relevant2(spec, prop)
	if prop == "C23" {
		g, out, err := regenerate(repo, sc)
		if err != nil {
			fails = append(fails, failure{fn: "protocol/gen.go", label: "the generator runs and its output compiles", detail: err.Error() + "\n" + out})
		} else {
			gen = g
			for _, n := range spec.order {
				ct := spec.contracts[n]
				if ct.native != nil && !strings.HasSuffix(n, "dir") || n == "protocol.Dispatch" {
					own = append(own, n)
				}
			}
		}
	}
	if len(own) == 0 && len(fails) == 0 {
		fmt.Fprintln(os.Stderr, "no contract mentions", prop)
		return 2
	}
	cross := tier == "thorough"
	limit := 500 * time.Second
	if cross {
		limit = 3 * time.Hour
	}
	results := map[string]*FnReport{}
	todo := own
	done := map[string]bool{}
	isOwn := map[string]bool{}
	for _, n := range own {
		isOwn[n] = true
	}
	// the contracts the own ones use are only known after a run, except that
	// the codec ones can be started at once
	for round := 0; len(todo) > 0; round++ {
		var jobs []job
		for _, n := range todo {
			if done[n] {
				continue
			}
			done[n] = true
			j := job{Fn: n}
			if isOwn[n] && prop != "C23" {
				j.Only = prop
			}
			jobs = append(jobs, j)
		}
		todo = nil
		for n, r := range verifyAll(verif, repo, gen, jobs, cross, limit) {
			results[n] = r
			us := r.Used
			if o, ok := depOverride[prop]; ok {
				us = inter2(us, o)
			}
			if prop == "C23" {
				us = nil
			}
			for _, u := range us {
				if !done[u] {
					todo = append(todo, u)
				}
			}
		}
		sort.Strings(todo)
		todo = uniq(todo)
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	nobl, ndis, nvc, nq, nfb := 0, 0, 0, 0, 0
	var solver float64
	inl, mod := map[string]bool{}, map[string]bool{}
	backs := map[string]int{}
	var fnsEv []map[string]interface{}
	x := [4]int{}
	for _, n := range names {
		r := results[n]
		if r.Error != "" {
			nobl++
			fails = append(fails, failure{fn: n, label: "the contract can be decided", detail: r.Error})
		}
		d := 0
		for _, o := range r.Obligations {
			nobl++
			if o.Failed == 0 {
				ndis++
				d++
				backs[o.Backend]++
			} else {
				fails = append(fails, failure{n, o.Label, o.Detail, o.Model})
			}
		}
		if r.Error == "" && len(r.Obligations) == 0 {
			fails = append(fails, failure{fn: n, label: "the contract has obligations", detail: "no obligation was generated"})
		}
		nvc += r.VCs
		nq += r.Queries
		nfb += r.Fallback
		solver += r.SolverSecs
		x[0] += r.XDone
		x[1] += r.XAgree
		x[2] += r.XUnknown
		x[3] += r.XDisagree
		if r.XDisagree > 0 {
			fails = append(fails, failure{fn: n, label: "the second solver agrees", detail: "cvc5 found a model of a query z3 refuted"})
		}
		for _, i := range r.Inlined {
			inl[i] = true
		}
		for _, m := range r.Modelled {
			mod[m] = true
		}
		fnsEv = append(fnsEv, map[string]interface{}{"function": n, "obligations": len(r.Obligations), "discharged": d, "vcs": r.VCs,
			"paths": r.Paths, "solver_s": round2(r.SolverSecs), "seconds": round2(r.Seconds), "uses_contracts_of": r.Used})
	}
	cov := map[string]interface{}{
		"obligations":              nobl,
		"discharged":               ndis,
		"verification_conditions":  nvc,
		"checker_cmd":              fmt.Sprintf("bash scripts/check.sh %s", prop),
		"functions_under_contract": fnsEv,
		"inlined_functions":        keys(inl),
		"back_ends":                backs,
		"solver_queries":           nq,
		"solver_fallbacks":         nfb,
		"solver_s":                 round2(solver),
		"trusted_base":             append(trustedBase(), "models of library functions: "+strings.Join(keys(mod), ", ")),
	}
	if cross {
		cov["cross_checked_with_cvc5"] = map[string]int{"queries": x[0], "agree": x[1], "no_answer": x[2], "disagree": x[3]}
	}
	if prop >= "C15" && prop <= "C21" {
		n, err := checkPathAxioms()
		if err != nil {
			fmt.Fprintln(os.Stderr, "the verifier's axioms are wrong:", err)
			return 2
		}
		cov["path_axioms_tried"] = map[string]interface{}{"level": "bounded", "cases": n, "bound": fmt.Sprintf("all strings up to length %d over {/, ., a}, against package path", axiomLen)}
	}
	verdict := 0
	line := ""
	var hres *harnessResult
	if len(fails) > 0 || tier == "thorough" {
		hres = runHarness(verif, repo, prop, tier, seed, fails)
		if hres != nil {
			cov["replay_harness"] = hres.summary()
		}
	}
	if len(fails) > 0 || (hres != nil && hres.found != "") {
		verdict = 1
		rp := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is not established for the current source\n\n", prop)
		for _, f := range fails {
			fmt.Fprintf(&b, "FAILED OBLIGATION  %s / %s\n  %s\n", f.fn, f.label, f.detail)
			if len(f.model) > 0 {
				var ks []string
				for k := range f.model {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				fmt.Fprintf(&b, "  counterexample of the solver:\n")
				for _, k := range ks {
					fmt.Fprintf(&b, "    %s = %s\n", k, f.model[k])
				}
			}
		}
		tail := " no-failing-input-found"
		if hres != nil {
			fmt.Fprintf(&b, "\nREPLAY against the real code (%s):\n%s\n", hres.cmd, hres.out)
			if hres.found != "" {
				tail = ""
				fmt.Fprintf(&b, "\nFAILING INPUT: %s\n", hres.found)
			}
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		for i, f := range fails {
			if i == 8 {
				fmt.Printf("... and %d more failed obligations\n", len(fails)-i)
				break
			}
			fmt.Printf("failed obligation: %s / %s: %s\n", f.fn, f.label, firstLine(f.detail))
		}
		if hres != nil && hres.found != "" {
			fmt.Printf("failing input: %s\n", hres.found)
		}
		line = fmt.Sprintf("VIOLATION property=%s replay=%s%s", prop, rp, tail)
	}
	for _, k := range knownFindings(verif, prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptions(prop), "wall_s": round2(time.Since(t0).Seconds()), "violations": verdict,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), eb, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if line != "" {
		fmt.Println(line)
	} else {
		fmt.Printf("%s: %d of %d obligations discharged over %d functions under contract (%d verification conditions, %.1f s)\n", prop, ndis, nobl, len(names), nvc, time.Since(t0).Seconds())
	}
	return verdict
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func inter2(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}
func uniq(a []string) []string {
	var out []string
	for i, x := range a {
		if i == 0 || a[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// knownFindings lists the recorded findings ("finding: property=<id> ...").
func knownFindings(verif, prop string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			out = append(out, strings.TrimPrefix(l, p))
		}
	}
	return out
}

func regenerate(repo, sc string) (string, string, error) {
	d := filepath.Join(sc, "gen", "src", modPath)
	if err := os.MkdirAll(filepath.Dir(d), 0755); err != nil {
		return "", "", err
	}
	if out, err := exec.Command("cp", "-a", repo, d).CombinedOutput(); err != nil {
		return "", string(out), err
	}
	cmd := exec.Command("go", "run", "gen.go")
	cmd.Dir = filepath.Join(d, "protocol")
	cmd.Env = append(os.Environ(), "GOENV=off", "GOPATH="+filepath.Join(sc, "gen"), "GO111MODULE=off", "GOFLAGS=", "GOWORK=off",
		"GOPROXY=off", "GOTOOLCHAIN=local", "GOTELEMETRY=off", "PWD="+cmd.Dir)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", string(out), fmt.Errorf("go run gen.go: %v", err)
	}
	b, err := exec.Command("cp", filepath.Join(d, "protocol/genout.go"), filepath.Join(sc, "genout.go")).CombinedOutput()
	if err != nil {
		return "", string(b), err
	}
	// the output has to compile with the rest of the package
	cmd = exec.Command("go", "build", modPath+"/protocol")
	cmd.Dir = filepath.Join(d, "protocol")
	cmd.Env = append(os.Environ(), "GOENV=off", "GOPATH="+filepath.Join(sc, "gen"), "GO111MODULE=off", "GOFLAGS=", "GOWORK=off",
		"GOPROXY=off", "GOTOOLCHAIN=local", "GOTELEMETRY=off", "PWD="+cmd.Dir)
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", string(o), fmt.Errorf("the generated code does not compile: %v", err)
	}
	return filepath.Join(sc, "genout.go"), string(out), nil
}

// ---- replay on the real code ----

type harnessResult struct {
	found, out, cmd string
	secs            float64
	cases           string
}

func (h *harnessResult) summary() map[string]interface{} {
	return map[string]interface{}{"cmd": h.cmd, "seconds": round2(h.secs), "failing_input": h.found, "cases": h.cases}
}

// runHarness searches the real code for an input that shows the violation,
// starting from the solver's counterexamples.
func runHarness(verif, repo, prop, tier string, seed int, fails []failure) *harnessResult {
	sh := filepath.Join(verif, "harness", "run.sh")
	if _, err := os.Stat(sh); err != nil {
		return nil
	}
	t0 := time.Now()
	var models []map[string]string
	for _, f := range fails {
		if len(f.model) > 0 {
			m := map[string]string{"function": f.fn}
			for k, v := range f.model {
				m[k] = v
			}
			models = append(models, m)
		}
	}
	mb, _ := json.Marshal(models)
	mf, err := os.CreateTemp("", "models")
	if err != nil {
		return nil
	}
	mf.Write(mb)
	mf.Close()
	os.Chmod(mf.Name(), 0644)
	defer os.Remove(mf.Name())
	cmd := exec.Command("bash", sh, prop)
	cmd.Env = append(os.Environ(), "NV_REPO="+repo, "NV_MODELS="+mf.Name(), "NV_TIER="+tier, fmt.Sprintf("NV_SEED=%d", seed))
	out, err := cmd.CombinedOutput()
	h := &harnessResult{out: string(out), cmd: "bash harness/run.sh " + prop, secs: time.Since(t0).Seconds()}
	if len(h.out) > 20000 {
		h.out = h.out[:20000]
	}
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "FAILING "+prop+":"); i >= 0 && h.found == "" {
			h.found = strings.TrimSpace(l[i+len("FAILING "+prop+":"):])
		}
		if i := strings.Index(l, "CASES "); i >= 0 {
			h.cases = strings.TrimSpace(l[i+6:])
		}
	}
	if err == nil {
		h.found = ""
	}
	return h
}

func worker(repo, con, sc string, overlay map[string][]byte, tmo int) {
	prog, pkgs, err := loadRepo(repo, sc, overlay)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	spec := loadAll(con)
	fns := allFuncs(prog, pkgs)
	sc2 := bufio.NewScanner(os.Stdin)
	sc2.Buffer(make([]byte, 1<<20), 1<<20)
	for sc2.Scan() {
		var j job
		if json.Unmarshal(sc2.Bytes(), &j) != nil {
			os.Exit(2)
		}
		var only map[string]bool
		if j.Only != "" {
			only = map[string]bool{j.Only: true}
		}
		r := verifyOne(prog, pkgs, spec, fns, j.Fn, only, tmo)
		b, _ := json.Marshal(r)
		os.Stdout.Write(append(b, '\n'))
	}
}
