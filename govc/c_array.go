package main

// C03 (and C02 for the same scanners): fixed-size byte and rune arrays.

func init() {
	register("C02 C03", func(e *Engine) (out []*Spec) {
		for _, k := range []struct {
			n  string
			cs *Sort
			f  func(u *Term) *Term
		}{
			{"Byte", StrS, func(u *Term) *Term { return u }},
			{"Rune", SeqOf(IntS), runesOf},
		} {
			k := k
			zero := UnitFor(k.cs, I(0))
			srcs := func(st *State) (out []*Term) {
				v := Var("v", AnyS)
				for _, t := range []string{tkStr, tkBytes} {
					if is, ok := st.decide(isType(v, t)); is || !ok {
						out = append(out, unboxDriver(t, v))
					}
				}
				return
			}
			out = append(out, &Spec{
				ID: "encoding." + k.n + "ArrayScanner", Props: []string{"C03", "C02"},
				Fn: func(e *Engine) *fnT { return e.Func(encP, "gv"+k.n+"Arr") },
				Setup: func(c *Ctx) {
					v := Var("v", AnyS)
					c.spec.DriverArgs[v] = true
					c.Args = []Val{c.fresh("a", c.Fn.Params[0].Type()), Scalar{T: v}}
					c.Assume(Le(I(0), TypeOf(v)))
				},
				Inv: func(lc *LoopCtx) {
					var ints []func(st *State) *Term
					ints = append(ints, lc.Ints()...)
					for _, c := range lc.Seqs(k.cs) {
						c := c
						c0 := c(lc.Entry)
						if c0 == nil {
							continue
						}
						n := Len(c0)
						lc.Add("array length kept", func(st *State) *Term { return eqOr(lenOr(c(st)), n) })
						for l, i := range ints {
							i := i
							at := func(st *State) (*Term, *Term) { return c(st), i(st) }
							lc.Add("first i elements zero", func(st *State) *Term {
								s, j := at(st)
								if s == nil || j == nil {
									return nil
								}
								return And(Le(I(0), j), Le(j, n), Eq(Extract(s, I(0), j), lc.X.eng.Rep(zero, j)))
							})
							for _, u := range srcs(lc.Entry) {
								u := u
								lc.Add("first i elements are those of the input", func(st *State) *Term {
									s, j := at(st)
									if s == nil || j == nil || k.cs != StrS {
										return nil
									}
									return And(Le(I(0), j), Le(j, Len(u)), Eq(Extract(s, I(0), j), Extract(u, I(0), j)))
								})
								if k.cs == StrS {
									continue
								}
								rest := func(name string, f func(st *State) *Term) {
									lc.Add(name, func(st *State) *Term {
										s, j := at(st)
										r := f(st)
										if s == nil || j == nil || r == nil {
											return nil
										}
										return And(Le(I(0), j), Le(j, n), Eq(Cat(Extract(s, I(0), j), k.f(r)), k.f(u)))
									})
								}
								for m, p := range ints {
									p := p
									if m == l {
										continue
									}
									rest("first i elements and the characters from pos on are the input's", func(st *State) *Term {
										q := p(st)
										if q == nil {
											return nil
										}
										return Extract(u, q, Sub(Len(u), q))
									})
								}
								for _, p := range lc.Strs() {
									rest("first i elements and the characters left are the input's", p)
								}
							}
						}
					}
				},
				Post: func(c *Ctx) {
					v := Var("v", AnyS)
					a := c.Args[0].(SliceV)
					c0, c1 := c.X.content(c.St0, a), c.X.content(c.St, a)
					errNil := x_isNil(c.Ret[0])
					n := a.Len
					c.EnsureP("C03", "an error leaves the array unchanged", Implies(Not(errNil), Eq(c1, c0)))
					c.Ensure("the array keeps its length", Eq(Len(c1), n))
					c.EnsureP("C02", "NULL succeeds and zeroes every element", Implies(IsNilAny(v), And(errNil, Eq(c1, c.E.Rep(zero, n)))))
					for _, t := range []string{tkStr, tkBytes} {
						u := k.f(unboxDriver(t, v))
						c.EnsureP("C03", "input that fits is stored, element i at position i ("+t+")", Implies(And(isType(v, t), Le(Len(u), n)), And(errNil, Eq(Extract(c1, I(0), Len(u)), u))))
						c.EnsureP("C03", "input that does not fit is an error ("+t+")", Implies(And(isType(v, t), Lt(n, Len(u))), Not(errNil)))
					}
					c.EnsureP("C03", "an unsupported driver type is an error", Implies(Not(Or(IsNilAny(v), isType(v, tkStr), isType(v, tkBytes))), Not(errNil)))
					c.frame(a.Obj)
				},
			})
		}
		return
	})
}
