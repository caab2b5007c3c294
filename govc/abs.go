package main

// The ground stage: the query with strings and sequences as uninterpreted
// sorts and their operations as uninterpreted functions with a few ground
// axioms.  Unsatisfiable here means unsatisfiable; anything else is passed on
// (simplified by the literals the ground query entails).

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type absProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var absPool = make(chan *absProc, 64)

func startAbs() *absProc {
	cmd := exec.Command("z3-new", "-in", "-smt2", "-memory:2000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil
	}
	if cmd.Start() != nil {
		return nil
	}
	return &absProc{cmd, in, bufio.NewReaderSize(out, 1<<16)}
}

// absRun sends one script and returns its output lines.
func absRun(script string, to time.Duration) ([]string, bool) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	var p *absProc
	select {
	case p = <-absPool:
	default:
		p = startAbs()
	}
	if p == nil {
		return nil, false
	}
	st := time.Now()
	type res struct {
		lines []string
		ok    bool
	}
	ch := make(chan res, 1)
	go func() {
		go io.WriteString(p.in, "(reset)\n"+script+"\n(echo \"@done\")\n")
		var ls []string
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{ls, false}
				return
			}
			l = strings.TrimSpace(l)
			if strings.Trim(l, "\"") == "@done" {
				ch <- res{ls, true}
				return
			}
			ls = append(ls, l)
		}
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(to):
	}
	atomic.AddInt64(&stats.Queries, 1)
	atomic.AddInt64(&stats.TimeNanos, int64(time.Since(st)))
	if r.ok {
		absPool <- p
	} else {
		if d := os.Getenv("GOVC_ABSDUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/fail%d.smt2", d, time.Now().UnixNano()), []byte(script), 0644)
		}
		p.cmd.Process.Kill()
		go p.cmd.Wait()
	}
	return r.lines, r.ok
}

type absEmit struct {
	decls, body bytes.Buffer
	declared    map[string]bool
	fns         map[string]string
	names       map[*Term]string
	lits        map[*Sort][]string
	lossy       bool
	n           int
}

func newAbsEmit() *absEmit {
	return &absEmit{declared: map[string]bool{}, fns: map[string]string{}, names: map[*Term]string{}, lits: map[*Sort][]string{}}
}

func (a *absEmit) sort(s *Sort) string {
	switch s.Kind {
	case SStr, SSeq:
		n := "A!" + sanitize(s.Name)
		if !a.declared["s:"+n] {
			a.declared["s:"+n] = true
			fmt.Fprintf(&a.decls, "(declare-sort %s 0)\n(declare-fun len!%s (%s) Int)\n(declare-const empty!%s %s)\n(assert (= (len!%s empty!%s) 0))\n", n, n, n, n, n, n, n)
		}
		return n
	case SArr:
		return "(Array " + a.sort(s.Key) + " " + a.sort(s.Elem) + ")"
	case SNamed:
		if !a.declared["s:"+s.Name] {
			a.declared["s:"+s.Name] = true
			fmt.Fprintf(&a.decls, "(declare-sort %s 0)\n", smtName(s.Name))
		}
		return smtName(s.Name)
	case SData:
		if !a.declared["s:"+s.Name] {
			a.declared["s:"+s.Name] = true
			var fs []string
			for _, f := range s.Fields {
				fs = append(fs, fmt.Sprintf("(%s %s)", smtName(f.Name), a.sort(f.Sort)))
			}
			fmt.Fprintf(&a.decls, "(declare-datatypes ((%s 0)) (((%s %s))))\n", smtName(s.Name), smtName(s.Ctor), strings.Join(fs, " "))
		}
		return smtName(s.Name)
	}
	return s.Name
}

// fn declares an uninterpreted function for an operation.
func (a *absEmit) fn(name string, ret *Sort, args []*Term) string {
	var ss []string
	for _, x := range args {
		ss = append(ss, a.sort(x.Sort))
	}
	full := "f:" + name + "/" + strings.Join(ss, ",") + "/" + ret.Name
	k, ok := a.fns[full]
	if !ok {
		k = fmt.Sprintf("f%d", len(a.fns))
		a.fns[full] = k
		fmt.Fprintf(&a.decls, "(declare-fun %s (%s) %s)\n", k, strings.Join(ss, " "), a.sort(ret))
	}
	return k
}

func (a *absEmit) ax(f string, args ...any) {
	fmt.Fprintf(&a.body, "(assert "+f+")\n", args...)
}

func (a *absEmit) lenOf(t *Term) string {
	return "(len!" + a.sort(t.Sort) + " " + a.term(t) + ")"
}

// term names a term, emitting its definition and the ground axioms about it.
func (a *absEmit) term(t *Term) string {
	if n, ok := a.names[t]; ok {
		return n
	}
	var args []string
	if t.Op != "forall" {
		for _, x := range t.Args {
			args = append(args, a.term(x))
		}
	}
	so := a.sort(t.Sort)
	app := func(f string) string {
		if len(args) == 0 {
			return f
		}
		return "(" + f + " " + strings.Join(args, " ") + ")"
	}
	var text string
	post := func() {}
	switch t.Op {
	case "bool":
		text = t.Name
	case "int":
		text = t.Int.String()
		if t.Int.Sign() < 0 {
			text = "(- " + t.Int.String()[1:] + ")"
		}
	case "var":
		text = fmt.Sprintf("v%d", len(a.names))
		fmt.Fprintf(&a.decls, "(declare-const %s %s)\n", text, so)
	case "forall":
		text = fmt.Sprintf("v%d", len(a.names))
		fmt.Fprintf(&a.decls, "(declare-const %s Bool)\n", text)
		a.lossy = true
	case "str", "seq.empty":
		a.lossy = true
		if t.Op == "seq.empty" || t.Name == "" {
			text = "empty!" + so
			break
		}
		text = fmt.Sprintf("v%d", len(a.names))
		fmt.Fprintf(&a.decls, "(declare-const %s %s)\n", text, so)
		if len(t.Name) == 1 {
			code := a.fn("str.to_code", IntS, []*Term{t})
			n := text
			post = func() { a.ax("(= (%s %s) %d)", code, n, t.Name[0]) }
		}
		n := text
		p := post
		post = func() { p(); a.ax("(= (len!%s %s) %d)", so, n, len(t.Name)) }
		a.lits[t.Sort] = append(a.lits[t.Sort], text)
	case "not", "and", "or", "=>", "=", "ite", "+", "-", "<=", "<", "select", "store", "distinct":
		text = app(t.Op)
	case "*":
		if t.Args[0].IsInt() || t.Args[1].IsInt() {
			text = app("*")
		} else {
			a.lossy = true
			text = app(a.fn("mul", IntS, t.Args))
		}
	case "div", "mod":
		if t.Args[1].IsInt() && t.Args[1].Int.Sign() > 0 {
			text = app(t.Op)
		} else {
			a.lossy = true
			text = app(a.fn(t.Op, IntS, t.Args))
		}
	case "str.++", "seq.++":
		a.lossy = true
		f := a.fn("cat", t.Sort, []*Term{t, t})
		text = args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			text = fmt.Sprintf("(%s %s %s)", f, args[i], text)
		}
		post = func() {
			var ls []string
			for _, x := range t.Args {
				ls = append(ls, a.lenOf(x))
			}
			a.ax("(= %s (+ %s))", a.lenOf(t), strings.Join(ls, " "))
		}
	case "str.len", "seq.len":
		a.lossy = true
		text = "(len!" + a.sort(t.Args[0].Sort) + " " + args[0] + ")"
	case "app":
		isData := t.Sort.Kind == SData && t.Name == t.Sort.Ctor
		if len(t.Args) == 1 && t.Args[0].Sort.Kind == SData {
			for _, f := range t.Args[0].Sort.Fields {
				if f.Name == t.Name {
					isData = true
				}
			}
		}
		if isData {
			text = app(smtName(t.Name))
		} else {
			text = app(a.fn("app."+t.Name, t.Sort, t.Args))
		}
	default:
		a.lossy = true
		text = app(a.fn("op."+t.Op+"."+t.Name, t.Sort, t.Args))
		switch t.Op {
		case "str.substr", "seq.extract":
			post = func() {
				l, u, o, m := a.lenOf(t), a.lenOf(t.Args[0]), args[1], args[2]
				a.ax("(=> (and (<= 0 %s) (<= 0 %s) (<= (+ %s %s) %s)) (= %s %s))", o, m, o, m, u, l, m)
				a.ax("(<= %s %s)", l, u)
				a.ax("(=> (<= %s 0) (= %s 0))", m, l)
				a.ax("(=> (and (= %s 0) (= %s %s)) (= %s %s))", o, m, u, a.names[t], args[0])
			}
		case "str.at":
			post = func() {
				l, u := a.lenOf(t), a.lenOf(t.Args[0])
				a.ax("(= %s (ite (and (<= 0 %s) (< %s %s)) 1 0))", l, args[1], args[1], u)
				a.ax("(=> (and (= %s 1) (= %s 0)) (= %s %s))", u, args[1], a.names[t], args[0])
			}
		case "str.to_code":
			post = func() {
				n := a.names[t]
				a.ax("(and (<= (- 1) %s) (<= %s 255) (= (<= 0 %s) (= %s 1)))", n, n, n, a.lenOf(t.Args[0]))
			}
		case "str.from_code":
			post = func() {
				code := a.fn("str.to_code", IntS, []*Term{t})
				a.ax("(=> (and (<= 0 %s) (<= %s 255)) (and (= %s 1) (= (%s %s) %s)))", args[0], args[0], a.lenOf(t), code, a.names[t], args[0])
			}
		case "seq.unit":
			post = func() { a.ax("(= %s 1)", a.lenOf(t)) }
		case "str.prefixof", "seq.prefixof", "str.suffixof":
			post = func() { a.ax("(=> %s (<= %s %s))", a.names[t], a.lenOf(t.Args[0]), a.lenOf(t.Args[1])) }
		case "str.contains":
			post = func() { a.ax("(=> %s (<= %s %s))", a.names[t], a.lenOf(t.Args[1]), a.lenOf(t.Args[0])) }
		case "str.indexof":
			post = func() {
				n := a.names[t]
				a.ax("(and (<= (- 1) %s) (=> (<= 0 %s) (<= (+ %s %s) %s)))", n, n, n, a.lenOf(t.Args[1]), a.lenOf(t.Args[0]))
			}
		}
	}
	if len(t.Args) > 0 && t.Op != "forall" {
		a.n++
		nm := fmt.Sprintf("$%d", a.n)
		fmt.Fprintf(&a.body, "(define-fun %s () %s %s)\n", nm, so, text)
		text = nm
	}
	a.names[t] = text
	if isSeqLike(t.Sort) {
		a.ax("(and (<= 0 (len!%s %s)) (=> (= (len!%s %s) 0) (= %s empty!%s)))", so, text, so, text, text, so)
	}
	post()
	return text
}

func (a *absEmit) script() string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n(set-option :timeout 300)\n")
	b.Write(a.decls.Bytes())
	b.Write(a.body.Bytes())
	for _, ls := range a.lits {
		if len(ls) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ls, " "))
		}
	}
	return b.String()
}

// groundCheck: "unsat", "sat" (the query has no string or sequence part) or "".
func groundCheck(fs []*Term) string {
	a := newAbsEmit()
	for _, f := range fs {
		a.ax("%s", a.term(f))
	}
	ls, ok := absRun(a.script()+"(check-sat)\n", 2*time.Second)
	if !ok || len(ls) == 0 {
		return ""
	}
	if len(ls) > 1 && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "GROUND", ls[0])
	}
	switch r := ls[len(ls)-1]; r {
	case "unsat":
		if len(ls) == 1 {
			return r
		}
	case "sat":
		if !a.lossy && len(ls) == 1 {
			return r
		}
	}
	return ""
}

// groundFacts: which of the goals (as negations neg) are refuted by fs, and
// the arithmetic and equality atoms in fs that fs entails or refutes.
func groundFacts(base, fs, neg []*Term, wantAtoms bool) (unsat bool, refuted []bool, lits map[*Term]bool) {
	tight, inBase := map[*Term]bool{}, map[*Term]bool{}
	for _, f := range base {
		collect(f, inBase, func(*Term) {})
	}
	fs = append(append([]*Term(nil), base...), fs...)
	refuted = make([]bool, len(neg))
	lits = map[*Term]bool{}
	a := newAbsEmit()
	var atoms []*Term
	seen := map[*Term]bool{}
	see := func(t *Term) {
		if t.Sort == BoolS && wantAtoms {
			switch t.Op {
			case "<=", "=", "str.prefixof", "seq.prefixof", "str.contains", "app", "var":
				atoms = append(atoms, t)
			}
		}
	}
	for _, f := range fs {
		a.ax("%s", a.term(f))
		collect(f, seen, see)
	}
	for _, f := range neg {
		a.term(f)
		collect(f, seen, see)
	}
	if len(atoms) > 400 {
		atoms = atoms[:400]
	}
	var an []string
	for _, t := range atoms {
		an = append(an, a.term(t))
	}
	// bounds that may be tight
	for _, t := range atoms {
		if len(atoms) < 600 && inBase[t] && t.Op == "<=" {
			if q := Eq(t.Args[0], t.Args[1]); q.Op == "=" && !seen[q] {
				seen[q] = true
				atoms = append(atoms, q)
				an = append(an, a.term(q))
				tight[q] = true
			}
		}
	}
	var b strings.Builder
	b.WriteString(a.script() + "(check-sat)\n")
	for i := range neg {
		fmt.Fprintf(&b, "(push)(assert %s)(check-sat)(pop)\n", a.names[neg[i]])
	}
	if os.Getenv("GOVC_ABSDUMP") != "" {
		os.WriteFile(fmt.Sprintf("%s/abs%d.smt2", os.Getenv("GOVC_ABSDUMP"), time.Now().UnixNano()), []byte(b.String()), 0644)
	}
	for _, n := range an {
		fmt.Fprintf(&b, "(push)(assert (not %s))(check-sat)(pop)\n(push)(assert %s)(check-sat)(pop)\n", n, n)
	}
	ls, ok := absRun(b.String(), 6*time.Second)
	if !ok || len(ls) != 1+len(neg)+2*len(an) {
		if os.Getenv("GOVC_DEBUG") != "" && ok && len(ls) > 0 {
			for _, l := range ls {
				if strings.Contains(l, "error") {
					fmt.Fprintln(os.Stderr, "GROUND", l)
					break
				}
			}
		}
		if len(ls) > 0 && ls[0] == "unsat" {
			return true, refuted, lits
		}
		return false, refuted, lits
	}
	if ls[0] == "unsat" {
		return true, refuted, lits
	}
	for i := range neg {
		refuted[i] = ls[1+i] == "unsat"
	}
	for i, t := range atoms {
		if ls[1+len(neg)+2*i] == "unsat" {
			lits[t] = true
		} else if !tight[t] && ls[2+len(neg)+2*i] == "unsat" {
			lits[t] = false
		}
	}
	return false, refuted, lits
}

// orient: an entailed equation as a rewrite rule, if it has a direction.
func orient(eq *Term) (l, r *Term, ok bool) {
	a, b := eq.Args[0], eq.Args[1]
	dir := func(x, y *Term) bool {
		if isLit(y) && !isLit(x) {
			return true
		}
		switch x.Op {
		case "str.substr", "seq.extract", "str.at":
			u := x.Args[0]
			if u.Op == "str.substr" || u.Op == "seq.extract" {
				return (y.Op == x.Op || y.Op == "str.at") && y.Args[0] == u.Args[0]
			}
			return y == u
		case "str.len", "seq.len":
			return x.Args[0].Op == "str.substr" || x.Args[0].Op == "seq.extract"
		}
		return false
	}
	if dir(a, b) {
		return a, b, true
	}
	if dir(b, a) {
		return b, a, true
	}
	return nil, nil, false
}

// contextual rewrites base (and the negated goals) with the literals that
// base entails.
func (th *Theory) contextual(base, facts, neg []*Term, lits map[*Term]bool) (nb, nn []*Term) {
	m := map[*Term]*Term{}
	rw := map[*Term]*Term{}
	var extra []*Term
	inBase := map[*Term]bool{}
	for _, f := range base {
		collect(f, inBase, func(*Term) {})
	}
	for _, f := range neg {
		collect(f, inBase, func(*Term) {})
	}
	over := func(t *Term) bool {
		if inBase[t] {
			return true
		}
		ok := true
		collect(t, map[*Term]bool{}, func(u *Term) {
			if u.Op == "app" && !inBase[u] {
				ok = false
			}
		})
		return ok && t.Op == "="
	}
	var ls []*Term
	for t := range lits {
		ls = append(ls, t)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, t := range ls {
		v := lits[t]
		m[t] = B(v)
		if !over(t) {
			if v && t.Op == "=" {
				if l, r, ok := orient(t); ok && rw[l] == nil {
					rw[l] = r
				}
			}
			continue
		}
		if v {
			extra = append(extra, t)
			if t.Op == "=" {
				if l, r, ok := orient(t); ok && rw[l] == nil {
					rw[l] = r
				}
			}
		} else {
			extra = append(extra, Not(t))
		}
	}
	// entailed conclusions
	for _, f := range facts {
		if g := Subst(f, m); g != True && g.Op == "=" {
			if over(g) {
				extra = append(extra, g)
			}
			if l, r, ok := orient(g); ok && rw[l] == nil {
				rw[l] = r
			}
		}
	}
	// two steps: truth values, then terms
	memo1, memo2 := map[*Term]*Term{}, map[*Term]*Term{}
	f := func(t *Term) *Term { return substMemo(substMemo(t, m, memo1), rw, memo2) }
	dup := map[*Term]bool{}
	for _, t := range base {
		if g := f(t); g != True && !dup[g] {
			dup[g] = true
			nb = append(nb, g)
		}
	}
	for _, t := range extra {
		if t.Op == "=" {
			if l, r, ok := orient(t); ok && rw[l] != nil {
				if isLit(r) && !dup[t] {
					dup[t] = true
					nb = append(nb, t)
				}
				continue
			}
		}
		if g := substMemo(t, rw, memo2); g != True && !dup[g] {
			dup[g] = true
			nb = append(nb, g)
		}
	}
	for _, t := range neg {
		nn = append(nn, f(t))
	}
	return
}

// seqAxioms: conditional equations for the extraction terms in fs.
func seqAxioms(fs []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	add := func(g, e *Term) {
		if f := Implies(g, e); f != True {
			out = append(out, f)
		}
	}
	for _, f := range fs {
		collect(f, seen, func(t *Term) {
			switch t.Op {
			case "str.substr", "seq.extract":
				u, o, m := t.Args[0], t.Args[1], t.Args[2]
				n := Len(u)
				add(And(Le(I(0), o), Le(I(0), m), Le(Add(o, m), n)), Eq(Len(t), m))
				add(And(Eq(o, I(0)), Eq(m, n)), Eq(t, u))
				add(Le(m, I(0)), Eq(t, Empty(t.Sort)))
				if ps := catParts(u); len(ps) > 1 {
					h, l := ps[0], ps[len(ps)-1]
					rest, init := CatS(t.Sort, ps[1:]...), CatS(t.Sort, ps[:len(ps)-1]...)
					add(And(Le(Len(h), o), Le(I(0), m)), Eq(t, Extract(rest, Sub(o, Len(h)), m)))
					add(And(Le(I(0), o), Le(I(0), m), Le(Add(o, m), Sub(n, Len(l)))), Eq(t, Extract(init, o, m)))
				}
			case "str.at":
				u, o := t.Args[0], t.Args[1]
				if ps := catParts(u); len(ps) > 1 {
					h, l := ps[0], ps[len(ps)-1]
					rest, init := CatS(t.Sort, ps[1:]...), CatS(t.Sort, ps[:len(ps)-1]...)
					add(Le(Len(h), o), Eq(t, CharAt(rest, Sub(o, Len(h)))))
					add(Lt(o, Sub(Len(u), Len(l))), Eq(t, CharAt(init, o)))
				}
			}
		})
	}
	return
}

// ground runs the ground stage: base and the negated goals, simplified, and
// what is known about them.  facts is the closure of the result.
func (th *Theory) ground(base, neg []*Term, exclude map[string]bool, rounds int) (unsat bool, nb, nn, facts []*Term, foralls []*Term, refuted []bool) {
	for r := 0; ; r++ {
		var gp []*Term
		for i, g := range neg {
			gp = append(gp, mk("goal!", fmt.Sprint(i), BoolS, nil, g))
		}
		sol, _ := solveEqs(append(append([]*Term(nil), base...), gp...))
		if len(sol) == 1 && sol[0] == False {
			return true, nil, nil, nil, nil, nil
		}
		base = nil
		neg = append([]*Term(nil), neg...)
		for _, t := range sol {
			if t.Op == "goal!" {
				i, _ := strconv.Atoi(t.Name)
				neg[i] = t.Args[0]
				continue
			}
			base = append(base, t)
		}
		ground, fa := splitForalls(base)
		for i, g := range neg {
			gr, f := splitForalls([]*Term{g})
			for _, q := range f { // quantified goals are not split further
				gr = append(gr, q)
			}
			neg[i] = And(gr...)
		}
		facts = th.closure(append(append([]*Term(nil), ground...), neg...), fa, exclude, 6)
		for _, f := range facts {
			if f == False {
				return true, nil, nil, nil, nil, nil
			}
		}
		ax := seqAxioms(append(append(append([]*Term(nil), ground...), facts...), neg...))
		u, ref, lits := groundFacts(ground, append(append([]*Term(nil), facts...), ax...), neg, r < rounds)
		if u {
			return true, nil, nil, nil, nil, nil
		}
		refuted = ref
		foralls = fa
		nb, nn = ground, neg
		if r >= rounds || len(lits) == 0 {
			return
		}
		b2, n2 := th.contextual(ground, append(append([]*Term(nil), facts...), ax...), neg, lits)
		same := len(b2) == len(ground)
		if same {
			h := map[*Term]bool{}
			for _, t := range ground {
				h[t] = true
			}
			for _, t := range b2 {
				same = same && h[t]
			}
			for i := range neg {
				same = same && neg[i] == n2[i]
			}
		}
		if same {
			return
		}
		base, neg = append(b2, fa...), n2
	}
}

// groundUnsat: the ground stage alone refutes fs.
func (th *Theory) groundUnsat(fs []*Term) bool {
	if And(fs...) == False {
		return true
	}
	fs, _ = solveEqs(fs)
	if len(fs) == 1 && fs[0] == False {
		return true
	}
	parts, foralls := splitForalls(fs)
	facts := th.closure(parts, foralls, nil, 6)
	for _, f := range facts {
		if f == False {
			return true
		}
	}
	return groundCheck(append(append([]*Term(nil), parts...), facts...)) == "unsat"
}
