package main

// Go regular expressions as SMT regular languages over bytes.

import (
	"fmt"
	"regexp/syntax"
	"strings"
)

const reAny = "re.all"

// reSMT translates the language MatchString accepts (substring search with
// anchors).  It fails for anything whose meaning over bytes is not exact.
func reSMT(lit string) (string, bool) {
	re, err := syntax.Parse(lit, syntax.Perl)
	if err != nil {
		return "", false
	}
	re = re.Simplify()
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	pre, post := reAny, reAny
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		pre = ""
		subs = subs[1:]
	}
	if n := len(subs); n > 0 && subs[n-1].Op == syntax.OpEndText {
		post = ""
		subs = subs[:n-1]
	}
	parts := []string{}
	if pre != "" {
		parts = append(parts, pre)
	}
	for _, s := range subs {
		t, ok := reTerm(s)
		if !ok {
			return "", false
		}
		parts = append(parts, t)
	}
	if post != "" {
		parts = append(parts, post)
	}
	return reCat(parts), true
}

func reCat(p []string) string {
	switch len(p) {
	case 0:
		return `(str.to_re "")`
	case 1:
		return p[0]
	}
	return "(re.++ " + strings.Join(p, " ") + ")"
}

func reTerm(r *syntax.Regexp) (string, bool) {
	sub := func() ([]string, bool) {
		var out []string
		for _, s := range r.Sub {
			t, ok := reTerm(s)
			if !ok {
				return nil, false
			}
			out = append(out, t)
		}
		return out, true
	}
	switch r.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, true
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase != 0 {
			return "", false
		}
		for _, c := range r.Rune {
			if c > 127 {
				return "", false
			}
		}
		return "(str.to_re " + smtStr(string(r.Rune)) + ")", true
	case syntax.OpCharClass:
		var alts []string
		for i := 0; i < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if hi > 127 {
				return "", false
			}
			alts = append(alts, fmt.Sprintf("(re.range %s %s)", smtStr(string(lo)), smtStr(string(hi))))
		}
		if len(alts) == 0 {
			return "re.none", true
		}
		if len(alts) == 1 {
			return alts[0], true
		}
		return "(re.union " + strings.Join(alts, " ") + ")", true
	case syntax.OpConcat:
		p, ok := sub()
		return reCat(p), ok
	case syntax.OpAlternate:
		p, ok := sub()
		return "(re.union " + strings.Join(p, " ") + ")", ok
	case syntax.OpCapture:
		return reTerm(r.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		t, ok := reTerm(r.Sub[0])
		return "(" + map[syntax.Op]string{syntax.OpStar: "re.*", syntax.OpPlus: "re.+", syntax.OpQuest: "re.opt"}[r.Op] + " " + t + ")", ok
	}
	return "", false
}

// canonLayout: layouts that parse the same texts to the same instants.  Go's
// parser accepts a fraction after the seconds whether or not the layout has one
// written with 9s.
func canonLayout(l string) string {
	if i := strings.Index(l, "05."); i >= 0 {
		j := i + 3
		for j < len(l) && l[j] == '9' {
			j++
		}
		if j > i+3 {
			return l[:i+2] + l[j:]
		}
	}
	return l
}

func TimeParsed(layout string, s *Term) (val, err *Term) {
	l := S(canonLayout(layout))
	return App("time.parsed", TimeS, l, s), App("time.parseerr", AnyS, l, s)
}

func init() {
	moreModels = append(moreModels, func(e *Engine) {
		s := Var("?s", StrS)
		dd, sp := `(re.range "0" "9")`, `(re.* (str.to_re " "))`
		two := "(re.++ " + dd + " " + dd + ")"
		date := fmt.Sprintf(`(re.++ %[1]s %[1]s (str.to_re "-") %[1]s (str.to_re "-") %[1]s)`, two)
		clock := fmt.Sprintf(`(re.++ %[2]s (re.opt %[2]s) (str.to_re ":") %[1]s (str.to_re ":") %[1]s (re.opt (re.++ (re.union (str.to_re ".") (str.to_re ",")) (re.+ %[2]s))))`, two, dd)
		for l, re := range map[string]string{
			"2006-01-02":                date,
			"2006-01-02 15:04:05":       "(re.++ " + date + " (str.to_re \" \") " + sp + " " + clock + ")",
			"2006-01-02T15:04:05Z07:00": "(re.++ " + date + " (str.to_re \"T\") re.all)",
		} {
			t := App("time.parseerr", AnyS, S(l), s)
			ax(e, "parse-shape "+l, "time.Parse succeeds only on texts of the layout's shape", []*Term{s}, [][]*Term{{t}}, Implies(IsNilAny(t), InRe(s, re)))
		}
		e.models["time.Parse"] = func(x *Exec, st *State, c *Call) []*State {
			l, s := tm(c.Args[0]), tm(c.Args[1])
			if l.IsStr() {
				l = S(canonLayout(l.Name))
			}
			er := App("time.parseerr", AnyS, l, s)
			return c.Return(x, st, Scalar{T: App("time.parsed", TimeS, l, s)}, Scalar{T: er})
		}
		e.models["(*regexp.Regexp).MatchString"] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: rematch(tm(c.Args[0]), tm(c.Args[1]))})
		}
		e.models["(*regexp.Regexp).Match"] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: rematch(tm(c.Args[0]), x.strOf(st, c.Args[1]))})
		}
	})
}

func rematch(r, s *Term) *Term {
	if r.Op == "app" && strings.HasPrefix(r.Name, "regex!") {
		var n int
		fmt.Sscan(r.Name[6:], &n)
		if t, ok := reSMT(regexLit[n]); ok {
			return InRe(s, t)
		}
		return App("rematch!"+r.Name[6:], BoolS, s)
	}
	return App("rematch", BoolS, r, s)
}

var moreModels []func(e *Engine)
