package main

// Shared specification functions and axioms about library functions.

import (
	"fmt"
	"go/types"
	"sync"
)

var (
	regexMu  sync.Mutex
	regexTab = map[string]int{}
	regexLit []string
)

func regexRef(lit string) *Term {
	regexMu.Lock()
	defer regexMu.Unlock()
	if _, ok := regexTab[lit]; !ok {
		regexTab[lit] = len(regexLit)
		regexLit = append(regexLit, lit)
	}
	return App(fmt.Sprintf("regex!%d", regexTab[lit]), RefS)
}

var (
	fnRune  = func(s *Term) *Term { return App("utf8.rune", IntS, s) }
	fnWidth = func(s *Term) *Term { return App("utf8.width", IntS, s) }
	fnEnc   = func(r *Term) *Term { return App("utf8.enc", StrS, r) }
)

func initTheory(e *Engine) {
	e.th.Rec("runes", SeqOf(IntS), 1, func(a []*Term) *Term {
		s := a[0]
		w := fnWidth(s)
		return Ite(Eq(Len(s), I(0)), Empty(SeqOf(IntS)), Cat(Unit(fnRune(s)), runesOf(Extract(s, w, Sub(Len(s), w)))))
	})
	e.Rep = func(a ...*Term) *Term { return e.rep(a[0], a[1]) }
	for _, s := range []*Sort{StrS, SeqOf(IntS)} {
		e.rep(UnitFor(s, I(0)), Var("?n", IntS))
	}
}

// rep: the sequence of n copies of the unit sequence z.
func (e *Engine) rep(z, n *Term) *Term {
	s := z.Sort
	name := "rep!" + sanitize(s.Name)
	e.th.mu.Lock()
	known := e.th.Recs[name] != nil
	e.th.mu.Unlock()
	if !known {
		e.th.Rec(name, s, 1, func(a []*Term) *Term {
			return Ite(Le(a[1], I(0)), Empty(s), CatS(s, App(name, s, a[0], Sub(a[1], I(1))), a[0]))
		})
		zv, nv := Var("?z", s), Var("?n", IntS)
		t := App(name, s, zv, nv)
		e.th.AddLemma(&Lemma{Name: "len-" + name, Vars: []*Term{zv, nv}, Pats: [][]*Term{{t}},
			Body: Implies(And(Le(I(0), nv), Eq(Len(zv), I(1))), Eq(Len(t), nv)),
			Why:  "n copies of one element: length n (induction on n)"})
		if s != StrS {
			kv := Var("?k", IntS)
			e.th.AddLemma(&Lemma{Name: "nth-" + name, Vars: []*Term{zv, nv, kv}, Pats: [][]*Term{{mk("seq.nth", "", s.Elem, nil, t, kv)}},
				Body: Implies(And(Le(I(0), kv), Lt(kv, nv), Eq(Len(zv), I(1))), Eq(mk("seq.nth", "", s.Elem, nil, t, kv), mk("seq.nth", "", s.Elem, nil, zv, I(0)))),
				Why:  "every element of n copies of z is z (induction on n)"})
		}
	}
	if n.IsInt() && n.Int.IsInt64() && n.Int.Int64() <= 0 {
		return Empty(s)
	}
	return App(name, s, z, n)
}

// DecodeRune: first rune of a non-empty string and its width.
func (e *Engine) DecodeRune(st *State, rest *Term) (*Term, *Term) {
	if rest.IsStr() {
		for _, r := range rest.Name {
			w := 1
			for i := range rest.Name {
				if i > 0 {
					w = i
					break
				}
				w = len(rest.Name)
			}
			return I(int64(r)), I(int64(w))
		}
	}
	r, w := fnRune(rest), fnWidth(rest)
	b0 := ByteAt(rest, I(0))
	st.assume(And(Le(I(1), w), Le(w, I(4)), Le(w, Len(rest)), Le(I(0), r), Le(r, I(0x10ffff))))
	st.assume(And(Le(I(0), b0), Le(b0, I(255))))
	st.assume(Eq(Lt(b0, I(128)), Lt(r, I(128))))
	st.assume(Implies(Lt(b0, I(128)), And(Eq(w, I(1)), Eq(r, b0))))
	st.assume(Implies(And(Le(I(128), b0), Eq(w, I(1))), Eq(r, I(0xfffd))))
	// valid encodings re-encode to the same bytes
	st.assume(Implies(Lt(I(1), w), Eq(fnEnc(r), Extract(rest, I(0), w))))
	st.assume(Implies(Lt(b0, I(128)), Eq(fnEnc(r), Extract(rest, I(0), I(1)))))
	st.assume(Not(And(Le(I(0xd800), r), Le(r, I(0xdfff)))))
	return r, w
}

func (e *Engine) EncodeRune(st *State, r *Term) *Term {
	if r.IsInt() && r.Int.IsInt64() && r.Int.Int64() >= 0 && r.Int.Int64() < 0x110000 {
		return S(string(rune(r.Int.Int64())))
	}
	t := fnEnc(r)
	st.assume(Implies(And(Le(I(0), r), Lt(r, I(128))), Eq(t, FromCode(r))))
	st.assume(And(Le(I(1), Len(t)), Le(Len(t), I(4))))
	st.assume(Implies(Lt(I(127), r), Le(I(2), Len(t))))
	return t
}

func runesOf(s *Term) *Term {
	if s.IsStr() {
		r := Empty(SeqOf(IntS))
		for _, c := range s.Name {
			r = Cat(r, Unit(I(int64(c))))
		}
		return r
	}
	return App("runes", SeqOf(IntS), s)
}

func (e *Engine) StrToRunes(s *Term) *Term { return runesOf(s) }
func (e *Engine) RunesToStr(s *Term) *Term { return App("str.ofrunes", StrS, s) }

var _ = types.Typ
