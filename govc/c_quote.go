package main

// C07: pgutil.Quote.

func init() {
	register("C07", func(e *Engine) []*Spec {
		// PostgreSQL's reading of an E'...' literal, byte by byte:
		// state 10/11 before E and the opening quote, 0 normal, 1 after a backslash, 2 after a quote (closed, or first of a pair), 3 malformed.
		var q, out func(a ...*Term) *Term
		q = e.th.Rec("pglit.q", IntS, 14, func(a []*Term) *Term {
			if a[0].IsStr() && a[0].Name == "" {
				return I(10)
			}
			b, c, ok := peelLast(a[0])
			if !ok {
				return q(a[0])
			}
			p := q(b)
			isq, isb := Eq(c, I('\'')), Eq(c, I('\\'))
			simple := []int64{'b', 'f', 'n', 'r', 't', '\\', '\''}
			var okEsc []*Term
			for _, k := range simple {
				okEsc = append(okEsc, Eq(c, I(k)))
			}
			return Ite(Eq(p, I(10)), Ite(Eq(c, I('E')), I(11), I(3)), Ite(Eq(p, I(11)), Ite(isq, I(0), I(3)),
				Ite(Eq(p, I(0)), Ite(isq, I(2), Ite(isb, I(1), I(0))),
					Ite(Eq(p, I(1)), Ite(Or(okEsc...), I(0), I(3)),
						Ite(And(Eq(p, I(2)), isq), I(0), I(3))))))
		})
		out = e.th.Rec("pglit.out", StrS, 14, func(a []*Term) *Term {
			if a[0].IsStr() && a[0].Name == "" {
				return S("")
			}
			b, c, ok := peelLast(a[0])
			if !ok {
				return out(a[0])
			}
			p, o := q(b), out(b)
			esc := Ite(Eq(c, I('b')), S("\b"), Ite(Eq(c, I('f')), S("\f"), Ite(Eq(c, I('n')), S("\n"), Ite(Eq(c, I('r')), S("\r"), Ite(Eq(c, I('t')), S("\t"), FromCode(c))))))
			return Ite(Eq(p, I(0)), Ite(Or(Eq(c, I('\'')), Eq(c, I('\\'))), o, Cat(o, FromCode(c))),
				Ite(Eq(p, I(1)), Cat(o, esc), Ite(And(Eq(p, I(2)), Eq(c, I('\''))), Cat(o, S("'")), o)))
		})
		return []*Spec{{
			ID: "pgutil.Quote", Props: []string{"C07"},
			Fn: func(e *Engine) *fnT { return e.Func(sequelP+"/driver/postgres/pgutil", "Quote") },
			Setup: func(c *Ctx) {
				s := Var("s", StrS)
				c.Args = []Val{Scalar{T: s}}
			},
			Inv: func(lc *LoopCtx) {
				s := Var("s", StrS)
				for _, buf := range lc.Strs() {
					buf := buf
					lc.Add("no escape left open", func(st *State) *Term { return Eq(q(buf(st)), I(0)) })
					for _, rest := range lc.Strs() {
						rest := rest
						lc.Add("text so far reads back as the consumed prefix", func(st *State) *Term {
							return Eq(Cat(out(buf(st)), rest(st)), s)
						})
					}
					for _, i := range lc.Ints() {
						i := i
						lc.Add("text so far reads back as s[:i]", func(st *State) *Term {
							return And(Le(I(0), i(st)), Le(i(st), Len(s)), Eq(out(buf(st)), Extract(s, I(0), i(st))))
						})
					}
				}
			},
			Post: func(c *Ctx) {
				s := Var("s", StrS)
				r := tm(c.Ret[0])
				c.Ensure("one E'...' literal: opened, and closed exactly by its last byte", Eq(q(r), I(2)))
				c.Ensure("PostgreSQL reads back exactly the argument", Eq(out(r), s))
			},
		}}
	})
}
