package main

// From (assumptions, goal) to SMT-LIB text, ground unfolding of recursive spec
// functions, ground instantiation of lemmas, and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RecDef is a recursively defined specification function.
type RecDef struct {
	Name string
	Ret  *Sort
	Body func(a []*Term) *Term
	Fuel int
}

// Lemma is a universally quantified fact used by ground instantiation.  It is
// either proved (Proof != nil: obligations generated by the lemma's owner) or
// an axiom about an uninterpreted library function (Axiom = true).
type Lemma struct {
	Name  string
	Vars  []*Term
	Pats  [][]*Term // alternatives of multi-patterns
	Body  *Term
	Axiom bool
	Why   string
}

type Theory struct {
	Recs   map[string]*RecDef
	Lemmas []*Lemma
	mu     sync.Mutex
}

func NewTheory() *Theory { return &Theory{Recs: map[string]*RecDef{}} }

func (th *Theory) Rec(name string, ret *Sort, fuel int, body func(a []*Term) *Term) func(a ...*Term) *Term {
	th.mu.Lock()
	th.Recs[name] = &RecDef{name, ret, body, fuel}
	th.mu.Unlock()
	return func(a ...*Term) *Term { return App(name, ret, a...) }
}

func (th *Theory) AddLemma(l *Lemma) { th.mu.Lock(); th.Lemmas = append(th.Lemmas, l); th.mu.Unlock() }

func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "forall" {
		return
	}
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	f(t)
}

func match(p, t *Term, vars map[*Term]bool, b map[*Term]*Term) bool {
	if vars[p] {
		if x, ok := b[p]; ok {
			return x == t
		}
		if p.Sort != t.Sort {
			return false
		}
		b[p] = t
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || p.Sort != t.Sort || len(p.Args) != len(t.Args) {
		return p == t
	}
	if p.Op == "int" {
		return p == t
	}
	for i := range p.Args {
		if !match(p.Args[i], t.Args[i], vars, b) {
			return false
		}
	}
	return true
}

// closure adds ground facts implied by definitions and lemmas.
func (th *Theory) closure(fs, foralls []*Term, exclude map[string]bool, rounds int) []*Term {
	seen := map[*Term]bool{}
	var terms []*Term
	var facts []*Term
	factSet := map[*Term]bool{}
	level := map[*Term]int{}
	cur := 0
	addTerm := func(t *Term) {
		terms = append(terms, t)
		level[t] = cur
	}
	push := func(f *Term) {
		if hasForall(f) {
			f = skolem(f, true)
		}
		if f == True || factSet[f] {
			return
		}
		factSet[f] = true
		facts = append(facts, f)
		collect(f, seen, addTerm)
	}
	for _, f := range fs {
		collect(f, seen, addTerm)
	}
	done := map[string]bool{}
	unfolded := map[*Term]bool{}
	idx := map[*Term]bool{}
	th.mu.Lock()
	lemmas := append([]*Lemma(nil), th.Lemmas...)
	th.mu.Unlock()
	for round := 1; round <= rounds; round++ {
		cur = round
		snapshot := append([]*Term(nil), terms...)
		n0 := len(facts)
		byHead := map[string][]*Term{}
		for _, t := range snapshot {
			byHead[t.Op+"|"+t.Name] = append(byHead[t.Op+"|"+t.Name], t)
			if len(foralls) > 0 {
				var ix *Term
				switch {
				case (t.Op == "seq.nth" || t.Op == "str.at") && level[t] <= 3:
					ix = t.Args[1]
				case t.Op == "var" && strings.HasPrefix(t.Name, "sk!"):
					ix = t
				}
				if ix != nil && !idx[ix] {
					idx[ix] = true
					for _, f := range foralls {
						push(inst(f, ix))
					}
				}
			}
			switch t.Op {
			case "seq.nth":
				if !unfolded[t] && level[t] <= 3 {
					unfolded[t] = true
					s, i := t.Args[0], t.Args[1]
					if s.Op == "seq.++" {
						off := I(0)
						for _, p := range s.Args {
							push(Implies(And(Le(off, i), Lt(i, Add(off, Len(p)))), Eq(t, Nth(p, Sub(i, off)))))
							off = Add(off, Len(p))
						}
					} else if s.Op == "seq.extract" {
						push(Implies(And(Le(I(0), i), Lt(i, s.Args[2]), Le(I(0), s.Args[1]), Lt(Add(s.Args[1], i), Len(s.Args[0]))), Eq(t, Nth(s.Args[0], Add(s.Args[1], i)))))
					}
				}
			case "str.substr", "str.at", "seq.extract":
				if s := t.Args[0]; !unfolded[t] && level[t] <= 3 && (s.Op == "str.substr" || s.Op == "seq.extract") {
					unfolded[t] = true
					u, o, m, a := s.Args[0], s.Args[1], s.Args[2], t.Args[1]
					n := I(1)
					var flat *Term
					if t.Op == "str.at" {
						flat = CharAt(u, Add(o, a))
					} else {
						n = t.Args[2]
						flat = Extract(u, Add(o, a), n)
					}
					push(Implies(And(Le(I(0), o), Le(I(0), a), Le(I(0), n), Le(Add(a, n), m), Le(Add(o, m), Len(u))), Eq(t, flat)))
				}
			case "app":
				if th.Recs[t.Name] != nil && !unfolded[t] {
					r := th.Recs[t.Name]
					if level[t] < r.Fuel || allLit(t.Args) && level[t] < 40 {
						unfolded[t] = true
						push(Eq(t, r.Body(t.Args)))
					}
				}
				if strings.HasPrefix(t.Name, "box!") && !unfolded[t] {
					unfolded[t] = true
					ty := t.Name[4:]
					push(Eq(App("typeof", IntS, t), I(typeID(ty))))
					push(Eq(App("unbox!"+ty, t.Args[0].Sort, t), t.Args[0]))
				}
			case "str.to_code":
				if !unfolded[t] {
					unfolded[t] = true
					push(Le(t, I(255)))
				}
			case "mod":
				if !unfolded[t] && t.Args[1].IsInt() && t.Args[1].Int.Sign() > 0 {
					unfolded[t] = true
					push(Le(I(0), t))
					push(Lt(t, t.Args[1]))
				}
			}
		}
		for _, l := range lemmas {
			if exclude[l.Name] {
				continue
			}
			vars := map[*Term]bool{}
			for _, v := range l.Vars {
				vars[v] = true
			}
			for _, mp := range l.Pats {
				var rec func(i int, b map[*Term]*Term)
				rec = func(i int, b map[*Term]*Term) {
					if i == len(mp) {
						k := l.Name
						for _, v := range l.Vars {
							if b[v] == nil {
								return
							}
							k += fmt.Sprintf(",%d", b[v].id)
						}
						if done[k] {
							return
						}
						done[k] = true
						push(Subst(l.Body, b))
						return
					}
					for _, t := range byHead[mp[i].Op+"|"+mp[i].Name] {
						if level[t] > 3 {
							continue
						}
						nb := map[*Term]*Term{}
						for k, v := range b {
							nb[k] = v
						}
						if match(mp[i], t, vars, nb) {
							rec(i+1, nb)
						}
					}
				}
				rec(0, map[*Term]*Term{})
			}
		}
		if len(facts) == n0 {
			break
		}
		if len(facts) > 4000 {
			break
		}
	}
	return facts
}

func allLit(ts []*Term) bool {
	any := false
	for _, t := range ts {
		if t.Op == "int" || t.Op == "str" {
			any = true
		} else if t.Op != "seq.empty" && !(t.Op == "seq.unit") && !(t.Op == "seq.++") {
			return false
		}
	}
	return any
}

// ---- text

func emitQuery(fs []*Term, getModel bool) string {
	s, _ := emitNamed(fs, getModel)
	return s
}

func emitNamed(fs []*Term, getModel bool) (string, map[*Term]string) {
	var decls, body bytes.Buffer
	declared := map[string]bool{}
	var emitSort func(s *Sort)
	emitSort = func(s *Sort) {
		switch s.Kind {
		case SSeq:
			emitSort(s.Elem)
		case SArr:
			emitSort(s.Key)
			emitSort(s.Elem)
		case SNamed:
			if !declared["s:"+s.Name] {
				declared["s:"+s.Name] = true
				fmt.Fprintf(&decls, "(declare-sort %s 0)\n", smtName(s.Name))
			}
		case SData:
			if !declared["s:"+s.Name] {
				declared["s:"+s.Name] = true
				for _, f := range s.Fields {
					emitSort(f.Sort)
				}
				fmt.Fprintf(&decls, "(declare-datatypes ((%s 0)) (((%s", smtName(s.Name), smtName(s.Ctor))
				for _, f := range s.Fields {
					fmt.Fprintf(&decls, " (%s %s)", smtName(f.Name), sortText(f.Sort))
				}
				fmt.Fprintf(&decls, "))))\n")
			}
		}
	}
	names := map[*Term]string{}
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.Op == "forall" {
			fmt.Fprintf(&decls, "(declare-const |forall!%d| Bool)\n", t.id)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		emitSort(t.Sort)
		switch t.Op {
		case "var":
			if !declared["v:"+t.Name] {
				declared["v:"+t.Name] = true
				nm := smtName(t.Name)
				if !getModel {
					// canonical names, so that equal queries hit the cache
					nm = fmt.Sprintf("v%d", len(names))
					names[t] = nm
				}
				fmt.Fprintf(&decls, "(declare-const %s %s)\n", nm, sortText(t.Sort))
			}
		case "app":
			isData := t.Sort.Kind == SData && t.Name == t.Sort.Ctor
			if len(t.Args) == 1 && t.Args[0].Sort.Kind == SData {
				for _, f := range t.Args[0].Sort.Fields {
					if f.Name == t.Name {
						isData = true
					}
				}
			}
			if !isData && !declared["f:"+t.Name] {
				declared["f:"+t.Name] = true
				fmt.Fprintf(&decls, "(declare-fun %s (", smtName(t.Name))
				for i, a := range t.Args {
					if i > 0 {
						decls.WriteByte(' ')
					}
					decls.WriteString(sortText(a.Sort))
				}
				fmt.Fprintf(&decls, ") %s)\n", sortText(t.Sort))
			}
		}
		order = append(order, t)
	}
	for _, f := range fs {
		walk(f)
	}
	n := 0
	for _, t := range order {
		if refs[t] > 1 && len(t.Args) > 0 {
			n++
			nm := fmt.Sprintf("$%d", n)
			var b strings.Builder
			t.printTop(&b, names)
			fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", nm, sortText(t.Sort), b.String())
			names[t] = nm
		}
	}
	for _, f := range fs {
		var b strings.Builder
		f.print(&b, names)
		fmt.Fprintf(&body, "(assert %s)\n", b.String())
	}
	s := "(set-logic ALL)\n" + decls.String() + body.String() + "(check-sat)\n"
	if getModel {
		s = "(set-option :produce-models true)\n" + s + "(get-model)\n"
	}
	return s, names
}

func sortText(s *Sort) string {
	switch s.Kind {
	case SSeq:
		return "(Seq " + sortText(s.Elem) + ")"
	case SArr:
		return "(Array " + sortText(s.Key) + " " + sortText(s.Elem) + ")"
	case SNamed, SData:
		return smtName(s.Name)
	}
	return s.Name
}

// ---- solving

type Result struct {
	Status   string // "unsat","sat","unknown"
	Solver   string
	Model    string
	Time     time.Duration
	TimedOut bool
}

func forgetUndecided() {
	qcache.Range(func(k, v any) bool {
		if v.(Result).Status == "unknown" {
			qcache.Delete(k)
		}
		return true
	})
}

type SolverStats struct {
	Queries   int64
	TimeNanos int64
	ByBackend sync.Map
}

var stats SolverStats
var solverSem = make(chan struct{}, 8)
var qcache sync.Map

var (
	stageQ = 600 * time.Millisecond  // loop-invariant candidates from the default templates
	stageA = 1500 * time.Millisecond // all candidates of a loop at once
	stage1 = 2 * time.Second
	stage2 = 12 * time.Second
)

func runSolver(ctx context.Context, name, text string, to time.Duration) Result {
	var cmd *exec.Cmd
	ms := to.Milliseconds()
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:4000")
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang", "smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-")
	}
	cmd.Stdin = strings.NewReader(text)
	cmd.WaitDelay = time.Second
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	st := time.Now()
	cctx, cancel := context.WithTimeout(ctx, to+3*time.Second)
	defer cancel()
	if err := cmd.Start(); err != nil {
		return Result{Status: "unknown", Solver: name, Model: err.Error()}
	}
	doneC := make(chan struct{})
	go func() {
		select {
		case <-cctx.Done():
			cmd.Process.Kill()
		case <-doneC:
		}
	}()
	cmd.Wait()
	close(doneC)
	d := time.Since(st)
	atomic.AddInt64(&stats.Queries, 1)
	atomic.AddInt64(&stats.TimeNanos, int64(d))
	if p := os.Getenv("GOVC_SLOW"); p != "" && d > 250*time.Millisecond {
		f, _ := os.CreateTemp(p, fmt.Sprintf("%04d_*.smt2", d.Milliseconds()))
		f.WriteString("; " + strings.SplitN(out.String(), "\n", 2)[0] + "\n" + text)
		f.Close()
	}
	o := out.String()
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		m := ""
		if first == "sat" {
			m = o
		}
		return Result{Status: first, Solver: name, Model: m, Time: d}
	}
	if strings.Contains(first, "error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, first)
		f, _ := os.CreateTemp("", "govc_err_*.smt2")
		f.WriteString(text)
		f.Close()
		fmt.Fprintln(os.Stderr, "  query in", f.Name())
	}
	return Result{Status: "unknown", Solver: name, Model: o, Time: d}
}

// solveEqs uses the top-level equations of fs to eliminate variables (and to
// replace terms known to equal a literal), so that the simplifying
// constructors see through them.  The equations used are returned.
func solveEqs(fs []*Term) (out, used []*Term) {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, f := range fs {
		add(f)
	}
	occurs := func(v, t *Term) bool {
		hit := false
		collect(t, map[*Term]bool{}, func(u *Term) {
			if u == v {
				hit = true
			}
		})
		return hit
	}
	for pass := 0; pass < 12; pass++ {
		m := map[*Term]*Term{}
		touched := map[*Term]bool{} // variables in picked equations
		taken := map[int]bool{}
		for i, p := range flat {
			if p.Op != "=" {
				continue
			}
			a, b := p.Args[0], p.Args[1]
			var v, r *Term
			switch {
			case a.Sort == IntS:
				l := linOf(Sub(a, b))
				for t, k := range l.m {
					if t.Op != "var" || (k.CmpAbs(big.NewInt(1)) != 0) {
						continue
					}
					rest := Sub(t, l.term())
					if k.Sign() < 0 {
						rest = Add(t, l.term())
					}
					if !occurs(t, rest) && (v == nil || t.id > v.id) {
						v, r = t, rest
					}
				}
				if v == nil && (isLit(a) != isLit(b)) {
					if isLit(a) {
						a, b = b, a
					}
					if a.Op == "app" || a.Op == "str.to_code" || a.Op == "seq.nth" {
						v, r = a, b
					}
				}
			case isLit(a) != isLit(b):
				if isLit(a) {
					a, b = b, a
				}
				if a.Op == "var" || a.Op == "app" {
					v, r = a, b
				}
			case b.Op == "var" && !occurs(b, a):
				v, r = b, a
			case a.Op == "var" && !occurs(a, b):
				v, r = a, b
			}
			if v == nil {
				continue
			}
			clash := false
			vars := map[*Term]bool{}
			collect(p, map[*Term]bool{}, func(u *Term) {
				if u.Op == "var" || u == v {
					vars[u] = true
					if touched[u] {
						clash = true
					}
				}
			})
			if clash {
				continue
			}
			for u := range vars {
				touched[u] = true
			}
			m[v] = r
			taken[i] = true
		}
		if len(m) == 0 {
			break
		}
		memo := map[*Term]*Term{}
		var next []*Term
		for i, f := range flat {
			if taken[i] {
				used = append(used, f)
				if v := f; v != nil && !elim(f, m) {
					next = append(next, f) // a term, not a variable: keep the equation
				}
				continue
			}
			g := substMemo(f, m, memo)
			if g == True {
				continue
			}
			if g == False {
				return []*Term{False}, used
			}
			next = append(next, g)
		}
		flat = nil
		for _, f := range next {
			add(f)
		}
	}
	return flat, used
}

// elim: the equation was used to eliminate a variable (it is then redundant).
func elim(eq *Term, m map[*Term]*Term) bool {
	hit := false
	collect(eq, map[*Term]bool{}, func(u *Term) {
		if u.Op == "var" && m[u] != nil {
			hit = true
		}
	})
	return hit
}

// CheckAll: does pc imply every goal?  "unsat" when it does; "sat" with the
// goals falsified by the model found.
func (th *Theory) CheckAll(pc, goals []*Term) (string, []bool) {
	if And(pc...) == False {
		return "unsat", nil
	}
	// the goals take part in the elimination behind opaque propositions
	var gp []*Term
	for i, g := range goals {
		gp = append(gp, mk("goal!", fmt.Sprint(i), BoolS, nil, g))
	}
	sol, _ := solveEqs(append(append([]*Term(nil), pc...), gp...))
	if len(sol) == 1 && sol[0] == False {
		return "unsat", nil
	}
	pc = nil
	goals = append([]*Term(nil), goals...)
	for _, t := range sol {
		if t.Op == "goal!" {
			i, _ := strconv.Atoi(t.Name)
			goals[i] = t.Args[0]
			continue
		}
		pc = append(pc, t)
	}
	parts, foralls := splitForalls(pc)
	var neg []*Term // skolemised negations
	for _, g := range goals {
		gr, fa := splitForalls([]*Term{Not(g)})
		if len(fa) > 0 {
			return "unknown", nil
		}
		neg = append(neg, And(gr...))
	}
	facts := th.closure(append(append([]*Term(nil), parts...), neg...), foralls, nil, 6)
	for _, f := range facts {
		if f == False {
			return "unsat", nil
		}
	}
	base := append(append([]*Term(nil), parts...), facts...)
	// what the ground stage refutes needs no model
	full := neg
	var refuted []bool
	if len(neg) > 0 {
		u, ref, _ := groundFacts(parts, facts, neg, false)
		if u {
			return "unsat", nil
		}
		refuted = ref
		neg = nil
		for i, n := range full {
			if !ref[i] {
				neg = append(neg, n)
			}
		}
		if len(neg) == 0 {
			return "unsat", nil
		}
	}
	var ps, defs []*Term
	for i, n := range neg {
		p := Var(fmt.Sprintf("neg!%d", i), BoolS)
		ps = append(ps, p)
		defs = append(defs, mk("=", "", BoolS, nil, p, n))
	}
	all := append(append(base, defs...), Or(ps...))
	text, names := emitNamed(all, false)
	var q strings.Builder
	q.WriteString("(set-option :produce-models true)\n" + text + "(get-value (")
	for _, p := range ps {
		q.WriteString(names[p] + " ")
	}
	q.WriteString("))\n")
	h := sha256.Sum256([]byte(q.String()))
	var r Result
	if c, ok := qcache.Load(h); ok {
		r = c.(Result)
	} else {
		solverSem <- struct{}{}
		r = runSolver(context.Background(), "z3-new", q.String(), stageA)
		<-solverSem
		qcache.Store(h, r)
	}
	if r.Status != "sat" {
		return r.Status, refuted
	}
	f := make([]bool, len(goals))
	k := 0
	for i := range full {
		if refuted != nil && refuted[i] {
			continue
		}
		f[i] = strings.Contains(r.Model, "("+names[ps[k]]+" true)")
		k++
	}
	return "sat", f
}

// splitForalls separates quantified hypotheses from ground formulas and
// skolemises negated ones.
func splitForalls(fs []*Term) (ground, foralls []*Term) {
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				add(a)
			}
			return
		case "forall":
			foralls = append(foralls, t)
			return
		case "or":
			for i, a := range t.Args {
				if a.Op == "forall" {
					rest := append(append([]*Term{}, t.Args[:i]...), t.Args[i+1:]...)
					add(Forall(func(k *Term) *Term { return Or(append(rest, inst(a, k))...) }))
					return
				}
			}
		case "=>":
			if t.Args[1].Op == "forall" {
				add(Forall(func(k *Term) *Term { return Implies(t.Args[0], inst(t.Args[1], k)) }))
				return
			}
		case "not":
			switch u := t.Args[0]; u.Op {
			case "or":
				for _, a := range u.Args {
					add(Not(a))
				}
				return
			case "=>":
				add(u.Args[0])
				add(Not(u.Args[1]))
				return
			}
		}
		ground = append(ground, t)
	}
	for _, f := range fs {
		add(skolem(f, true))
	}
	return
}

// skolem replaces the quantifiers that occur negatively in an asserted formula
// by an instance at a fresh constant.
func skolem(t *Term, pos bool) *Term {
	if !hasForall(t) {
		return t
	}
	switch t.Op {
	case "forall":
		if !pos {
			return skolem(inst(t, Var(fmt.Sprintf("sk!%d", t.id), IntS)), pos)
		}
	case "not":
		return Not(skolem(t.Args[0], !pos))
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, skolem(a, pos))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		return Implies(skolem(t.Args[0], !pos), skolem(t.Args[1], pos))
	}
	return t
}

var forallMemo sync.Map

func hasForall(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 || t.Sort != BoolS {
		return false
	}
	if v, ok := forallMemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.Args {
		if hasForall(a) {
			r = true
			break
		}
	}
	forallMemo.Store(t, r)
	return r
}

// Check satisfiability of the conjunction fs (with theory closure).
func (th *Theory) Check(fs []*Term, exclude map[string]bool, quick bool, wantModel bool) Result {
	c := And(fs...)
	if c == False {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	if c == True {
		return Result{Status: "sat", Solver: "simplifier"}
	}
	fs, used := solveEqs(fs)
	if len(fs) == 1 && fs[0] == False {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	parts, foralls := splitForalls(fs)
	if wantModel {
		parts = append(parts, used...)
	}
	var all []*Term
	if !quick {
		t0 := time.Now()
		u, nb, _, facts, _, _ := th.ground(append(append([]*Term(nil), parts...), foralls...), nil, exclude, 3)
		if u {
			return Result{Status: "unsat", Solver: "z3-new (ground)", Time: time.Since(t0)}
		}
		all = append(nb, facts...)
		if wantModel {
			if r := solve(all, stage1, false, false); r.Status == "unsat" {
				return r
			}
			if os.Getenv("GOVC_GROUND") != "" {
				for _, f := range nb {
					fmt.Fprintln(os.Stderr, "ground base:", f)
				}
				for _, f := range facts {
					fmt.Fprintln(os.Stderr, "ground fact:", f)
				}
			}
			// not refuted: the original formulas, for a model
			all = append(append([]*Term(nil), parts...), th.closure(parts, foralls, exclude, 6)...)
		}
	} else {
		facts := th.closure(parts, foralls, exclude, 6)
		all = append(append([]*Term(nil), parts...), facts...)
		for _, f := range facts {
			if f == False {
				return Result{Status: "unsat", Solver: "simplifier"}
			}
		}
		if r := groundCheck(all); r != "" {
			return Result{Status: r, Solver: "z3-new (ground)"}
		}
	}
	if quick {
		return solve(all, stageQ, false, wantModel)
	}
	return solve(all, stage1, true, wantModel)
}

// solve runs the portfolio.
func solve(all []*Term, to time.Duration, portfolio, wantModel bool) Result {
	text := emitQuery(all, wantModel)
	h := sha256.Sum256([]byte(fmt.Sprint(portfolio) + text))
	if r, ok := qcache.Load(h); ok {
		return r.(Result)
	}
	solverSem <- struct{}{}
	r := runSolver(context.Background(), "z3-new", text, to)
	<-solverSem
	if r.Status == "unknown" && portfolio {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan Result, 3)
		for _, s := range []string{"cvc5", "z3", "z3-new"} {
			go func(s string) {
				solverSem <- struct{}{}
				defer func() { <-solverSem }()
				if ctx.Err() != nil {
					ch <- Result{Status: "unknown"}
					return
				}
				ch <- runSolver(ctx, s, text, stage2)
			}(s)
		}
		for i := 0; i < 3; i++ {
			x := <-ch
			if x.Status != "unknown" {
				r = x
				break
			}
		}
		cancel()
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" && r.Status != "unsat" {
		os.WriteFile(fmt.Sprintf("%s/%x.%s.smt2", d, h[:6], r.Status), []byte(text), 0644)
	}
	qcache.Store(h, r)
	return r
}

func backendCount(name string) {
	v, _ := stats.ByBackend.LoadOrStore(name, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

func backendMap() map[string]int64 {
	m := map[string]int64{}
	stats.ByBackend.Range(func(k, v any) bool { m[k.(string)] = *(v.(*int64)); return true })
	return m
}

// ---- type ids

var (
	tidMu  sync.Mutex
	tidTab = map[string]int64{}
)

func typeID(name string) int64 {
	tidMu.Lock()
	defer tidMu.Unlock()
	if v, ok := tidTab[name]; ok {
		return v
	}
	v := int64(len(tidTab) + 1)
	tidTab[name] = v
	return v
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
