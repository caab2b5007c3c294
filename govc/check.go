package main

// The checks: one property, all its units, its replay harness, its evidence.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Harness is an in-package test added by overlay: the executable contract.
type Harness struct {
	Pkg   string // directory below /repo
	Name  string // package name
	File  string // file below /verif/harness
	Test  string
	Files map[string]string // further overlay files: destination -> source
}

type Property struct {
	ID      string
	Trusted []string
	Assume  []string
	Bounded []string // what the harness checks in place of a proof
	Harness []Harness
	Gen     func(dir string, h []Harness) ([]Harness, error)
}

var properties = map[string]*Property{}

func property(p *Property) { properties[p.ID] = p }

var (
	repoDir  = envOr("GOVC_REPO", "/repo")
	verifDir = envOr("GOVC_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type world struct {
	name string
	load func(e *Engine) error
}

type hfail struct {
	Fail     string `json:"fail"`
	Input    string `json:"input"`
	Observed string `json:"observed"`
	Harness  string `json:"harness"`
}

type hres struct {
	fails    []hfail
	evals    int
	distinct int
	samples  []any
	err      string
	out      string
}

func (r *hres) add(o hres) {
	r.fails = append(r.fails, o.fails...)
	r.evals += o.evals
	r.distinct += o.distinct
	r.samples = append(r.samples, o.samples...)
	if o.err != "" {
		r.err = o.err
		r.out = o.out
	}
}

func runHarness(h Harness, tmp string, hints []string, tier string, seed int) (res hres) {
	util, err := os.ReadFile(verifDir + "/harness/util.go.txt")
	if err != nil {
		res.err = err.Error()
		return
	}
	dir, _ := os.MkdirTemp(tmp, "h")
	u := strings.Replace(string(util), "package PKG", "package "+h.Name, 1)
	os.WriteFile(dir+"/util_test.go", []byte(u), 0644)
	rep := map[string]string{
		filepath.Join(repoDir, h.Pkg, "zz_govc_util_test.go"): dir + "/util_test.go",
	}
	if h.File != "" {
		rep[filepath.Join(repoDir, h.Pkg, "zz_govc_test.go")] = verifDir + "/harness/" + h.File
	}
	for d, s := range h.Files {
		rep[d] = s
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(dir+"/overlay.json", ov, 0644)
	os.WriteFile(dir+"/hints", []byte(strings.Join(hints, "\n")), 0644)
	lim := 240 * time.Second
	if tier == "thorough" {
		lim = 900 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", dir+"/overlay.json", "-count=1", "-vet=off", "-timeout", fmt.Sprint(lim-5*time.Second), "-run", "^"+h.Test+"$", "./"+h.Pkg)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOVC_OUT="+dir+"/out", "GOVC_HINTS="+dir+"/hints", "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "GOVC_TMP="+dir)
	out, rerr := cmd.CombinedOutput()
	res.out = string(out)
	ended := false
	if f, err := os.Open(dir + "/out"); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var m struct {
				hfail
				Evaluations *int  `json:"evaluations"`
				Distinct    int   `json:"distinct"`
				Samples     []any `json:"samples"`
			}
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			if m.Evaluations != nil {
				ended = true
				res.evals, res.distinct, res.samples = *m.Evaluations, m.Distinct, m.Samples
			} else if m.Fail != "" {
				m.hfail.Harness = h.Test
				res.fails = append(res.fails, m.hfail)
			}
		}
		f.Close()
	}
	if rerr != nil && len(res.fails) == 0 || !ended && len(res.fails) == 0 {
		if ctx.Err() != nil || strings.Contains(res.out, "panic: test timed out") {
			res.err = "harness did not finish in time"
		} else if strings.Contains(res.out, "fatal error:") || strings.Contains(res.out, "panic:") {
			// a crash that recover cannot catch is an observation of the real code
			res.fails = append(res.fails, hfail{Fail: "the process crashed", Observed: tail(res.out, 3000), Harness: h.Test})
		} else {
			res.err = fmt.Sprintf("harness failed to run: %v", rerr)
		}
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type finding struct {
	fixed bool
	prop  string
	text  string
}

// knownFindings: lines `KNOWN-FINDING: property=<id> [<key>] text` and
// `fixed: property=<id> <commit> text`.
func knownFindings() (out []finding) {
	b, _ := os.ReadFile(verifDir + "/known_findings.txt")
	for _, l := range strings.Split(string(b), "\n") {
		if t, ok := strings.CutPrefix(l, "KNOWN-FINDING: property="); ok {
			p, rest, _ := strings.Cut(t, " ")
			out = append(out, finding{prop: p, text: rest})
		}
	}
	return
}

func (f finding) key() string {
	if a, b := strings.Index(f.text, "["), strings.Index(f.text, "]"); a == 0 && b > 0 {
		return f.text[1:b]
	}
	return ""
}

var litRe = regexp.MustCompile(`"(?:[^"]|"")*"|\(- \d+\)|\b\d+\b`)

// modelHints: the string and integer literals of a counterexample.
func modelHints(model string, hints map[string]bool) {
	for _, m := range litRe.FindAllString(model, 200) {
		if m[0] == '"' {
			hints[strconv.Quote(smtUnescape(m[1:len(m)-1]))] = true
			continue
		}
		m = strings.TrimSuffix(strings.Replace(m, "(- ", "-", 1), ")")
		if _, err := strconv.ParseInt(m, 10, 64); err == nil {
			hints[m] = true
		}
	}
}

var smtEscRe = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})`)

// smtUnescape: SMT string text to the byte string it denotes here (one
// character per byte).
func smtUnescape(s string) string {
	s = strings.ReplaceAll(s, `""`, `"`)
	return smtEscRe.ReplaceAllStringFunc(s, func(m string) string {
		x := strings.Trim(m[2:], "{}")
		n, _ := strconv.ParseInt(x, 16, 32)
		if n < 256 {
			return string([]byte{byte(n)})
		}
		return "?"
	})
}

func cmdCheck(id, tier string, seed int) int {
	t0 := time.Now()
	p := properties[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	// replay harness in parallel with the proof
	hs := p.Harness
	if p.Gen != nil {
		if hs, err = p.Gen(tmp, hs); err != nil {
			fmt.Println("harness:", err)
			return 2
		}
	}
	os.Setenv("GOVC_STOP", tmp+"/stop")
	first := make([]chan hres, len(hs))
	for i, h := range hs {
		first[i] = make(chan hres, 1)
		go func(i int, h Harness) {
			r := runHarness(h, tmp, nil, tier, seed)
			for _, f := range r.fails {
				if !slices.ContainsFunc(knownFindings(), func(k finding) bool { return k.prop == id && k.key() == "input "+f.Fail }) {
					// the violation is shown on the real code: the proof is not continued
					os.WriteFile(stopFile(), nil, 0644)
				}
			}
			first[i] <- r
		}(i, h)
	}
	units, err := verifyProperty(id, tier)
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	var hr hres
	for i := range first {
		hr.add(<-first[i])
	}
	type bad struct {
		Unit, Kind, Obligation, Where, Status, Output, Goal string
		Path                                                []string
	}
	var bads []bad
	hints := map[string]bool{}
	obls, disch, trivial := 0, 0, 0
	solver := time.Duration(0)
	var under []string
	specs, models, inl, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	loops, invs, paths := 0, 0, 0
	backends := map[string]int{}
	for _, u := range units {
		if u.Err != "" {
			bads = append(bads, bad{Unit: u.ID, Kind: "unit", Obligation: "contract can be established", Status: "undecided", Output: u.Err})
		}
		trivial += u.Trivial
		loops += u.Loops
		invs += u.InvObls
		paths += u.Paths
		under = append(under, fmt.Sprintf("%s (%s): %d obligations, %d paths, %d loops", u.ID, u.Func, len(u.Obls), u.Paths, u.Loops))
		for _, s := range u.Specs {
			specs[s] = true
		}
		for _, s := range u.Models {
			models[s] = true
		}
		for _, s := range u.Inlined {
			inl[s] = true
		}
		for _, s := range u.Notes {
			notes[s] = true
		}
		for _, o := range u.Obls {
			if o.Prop != "" && o.Prop != id || o.Kind == "pool" && id != "C14" && contains(u.Props, "C14") {
				continue
			}
			obls++
			solver += o.Res.Time
			if o.OK {
				disch++
				backends[o.Res.Solver]++
			} else {
				modelHints(o.Res.Model, hints)
				bads = append(bads, bad{Unit: u.ID, Kind: o.Kind, Obligation: o.Name, Where: o.Loc, Status: o.Res.Status, Output: tail(o.Res.Model, 4000), Goal: o.GoalS, Path: o.Trace})
			}
		}
	}
	known := map[string]finding{}
	for _, f := range knownFindings() {
		if f.prop == id {
			known[f.key()] = f
		}
	}
	if len(units) == 0 && obls == 0 && len(hs) == 0 {
		fmt.Println("no units under contract for", id)
		return 2
	}
	for i := 0; i < len(bads); {
		if k := bads[i].Unit + "/" + bads[i].Obligation; known[k].prop != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k].text)
			delete(known, k)
			known[k+"#"] = finding{}
			bads = append(bads[:i], bads[i+1:]...)
			continue
		}
		i++
	}
	for i := 0; i < len(hr.fails); {
		if k := "input " + hr.fails[i].Fail; known[k].prop != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k].text)
			delete(known, k)
			hr.fails = append(hr.fails[:i], hr.fails[i+1:]...)
			continue
		}
		i++
	}
	// counterexamples drive a second, hinted run
	if len(bads) > 0 && len(hr.fails) == 0 && hr.err == "" && len(hints) > 0 {
		var hl []string
		for h := range hints {
			hl = append(hl, h)
		}
		sort.Strings(hl)
		for _, h := range hs {
			r := runHarness(h, tmp, hl, tier, seed+1)
			hr.fails = append(hr.fails, r.fails...)
		}
	}
	if hr.err != "" && len(bads) == 0 && len(hr.fails) == 0 {
		fmt.Println(hr.err)
		fmt.Println(tail(hr.out, 3000))
		return 2
	}
	viol := 0
	if len(bads) > 0 || len(hr.fails) > 0 {
		viol = 1
		os.MkdirAll(verifDir+"/evidence/replay", 0755)
		path := fmt.Sprintf("%s/evidence/replay/%s.json", verifDir, id)
		n := bads
		if len(n) > 25 {
			n = n[:25]
		}
		rep := map[string]any{"property": id, "failed_obligations": n, "failed_obligation_count": len(bads), "failing_inputs_on_real_code": hr.fails,
			"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, id)}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0644)
		for _, x := range n {
			fmt.Printf("failed obligation: %s: %s: %s [%s] %s\n", x.Unit, x.Kind, x.Obligation, x.Where, x.Status)
			if x.Kind == "unit" {
				fmt.Println("   ", x.Output)
			}
		}
		for _, f := range hr.fails {
			fmt.Printf("failing input: %s: %s: %s\n", f.Fail, clip(f.Input, 400), clip(f.Observed, 600))
		}
		suffix := ""
		if len(hr.fails) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, suffix)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": append(append([]string{}, commonAssumptions...), p.Assume...),
		"coverage": map[string]any{
			"obligations": obls, "discharged": disch, "checker_cmd": "cd /verif && ./check.sh " + id,
			"trusted_base":                             append(append([]string{}, commonTrusted...), p.Trusted...),
			"discharged_by_backend":                    backends,
			"discharged_by_simplifier_before_counting": trivial,
			"invariant_obligations":                    invs,
			"loops_with_inferred_invariants":           loops,
			"paths":                                    paths,
			"solver_time_s":                            solver.Seconds(),
			"units_under_contract":                     under,
			"functions_verified_in_callers_context":    sortedKeys(inl),
			"callee_contracts_used":                    sortedKeys(specs),
			"assumed_library_contracts":                sortedKeys(models),
			"notes":                                    sortedKeys(notes),
			"bounded_cross_check": map[string]any{
				"rule":                "executable form of the same contracts run against the real code by go test -overlay on boundary, exhaustive-small and seeded random inputs; bounded, not counted as proved",
				"evaluations":         hr.evals,
				"distinct_nontrivial": hr.distinct,
				"samples":             firstN(hr.samples, 5),
				"stands_in_for":       p.Bounded,
			},
		},
	}
	os.MkdirAll(verifDir+"/evidence", 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(verifDir+"/evidence/"+id+".json", b, 0644)
	fmt.Printf("%s: %d obligations, %d discharged (+%d by simplification), %d units, harness %d cases, %.1fs\n", id, obls, disch, trivial, len(units), hr.evals, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func firstN(a []any, n int) []any {
	if len(a) > n {
		return a[:n]
	}
	return a
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var commonTrusted = []string{
	"govc (this verifier): go/ssa translation, symbolic executor, simplifier, axioms of its string/sequence theory",
	"golang.org/x/tools/go/ssa and the Go type checker",
	"z3 5.x (z3-new), z3 4.8.12, cvc5 1.1.2",
}

var commonAssumptions = []string{
	"64-bit signed arithmetic is treated as mathematical (lengths and indexes do not reach 2^63); narrower and unsigned conversions are exact",
	"termination is not proved",
	"library functions behave as the assumed contracts listed under assumed_library_contracts say",
	"no data races: each call is verified as a sequential execution",
}

// unitsOf: the contracts carrying a property, world by world.
func unitsOf(id string, each func(e *Engine, n int, s *Spec)) error {
	n := 0
	for _, w := range worlds {
		if !w.props[id] {
			continue
		}
		e := NewEngine()
		if err := w.load(e); err != nil {
			return err
		}
		var specs []*Spec
		for _, f := range w.specs {
			specs = append(specs, f(e)...)
		}
		for _, s := range specs {
			for _, p := range s.Props {
				if p == id {
					if s.Optional && s.Fn(e) == nil {
						break // a helper that no longer exists: its callers are verified without its contract
					}
					each(e, n, s)
					n++
					break
				}
			}
		}
	}
	return nil
}

const workers = 4

// stopFile exists once the harness has shown a violation on the real code.
func stopFile() string { return os.Getenv("GOVC_STOP") }

func stopped() bool {
	if stopFile() == "" {
		return false
	}
	_, err := os.Stat(stopFile())
	return err == nil
}

// cmdWorker verifies every workers-th unit and prints the results.
func cmdWorker(id, tier string, shard int) int {
	if tier == "thorough" {
		stage1, stage2 = 5*time.Second, 60*time.Second
	}
	solverSem = make(chan struct{}, 3)
	retryUntil = time.Now().Add(150 * time.Second)
	out := json.NewEncoder(os.Stdout)
	err := unitsOf(id, func(e *Engine, n int, s *Spec) {
		if n%workers != shard || stopped() {
			return
		}
		r := e.Verify(s)
		for _, o := range r.Obls {
			if !o.OK {
				o.GoalS = clip(o.Goal.String(), 2000)
			}
		}
		out.Encode(r)
	})
	if err != nil {
		out.Encode(&UnitResult{Err: "load: " + err.Error()})
		return 2
	}
	out.Encode(&UnitResult{ID: "@end"})
	return 0
}

// verifyProperty runs every unit carrying the property, in worker processes
// (each sees the same units in the same order on every run).
func verifyProperty(id, tier string) (out []*UnitResult, err error) {
	lim := 780 * time.Second
	if tier == "thorough" {
		lim = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	res := make([][]*UnitResult, workers)
	errs := make([]error, workers)
	parallel(workers, func(i int) {
		cmd := exec.CommandContext(ctx, self, "worker", id, tier, strconv.Itoa(i))
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		so, err := cmd.StdoutPipe()
		if err != nil {
			errs[i] = err
			return
		}
		if err := cmd.Start(); err != nil {
			errs[i] = err
			return
		}
		dec := json.NewDecoder(so)
		ended := false
		for {
			u := &UnitResult{}
			if err := dec.Decode(u); err != nil {
				break
			}
			if u.ID == "@end" {
				ended = true
				break
			}
			if strings.HasPrefix(u.Err, "load: ") {
				errs[i] = fmt.Errorf("%s", u.Err)
			}
			res[i] = append(res[i], u)
		}
		cmd.Wait()
		if !ended && errs[i] == nil {
			res[i] = append(res[i], &UnitResult{ID: fmt.Sprintf("units of worker %d", i), Err: "not all units were decided in time"})
		}
	})
	for i := range res {
		if errs[i] != nil {
			return nil, errs[i]
		}
	}
	for k := 0; ; k++ {
		any := false
		for i := range res {
			if k < len(res[i]) {
				out = append(out, res[i][k])
				any = true
			}
		}
		if !any {
			break
		}
	}
	return
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
