package main

// C13: name conversion.

func init() {
	worldNamed("strfmt").load = func(e *Engine) error {
		return e.Load(repoDir+"/cmd/sqlgen", nil, []string{modP + "/..."}, "./internal/strfmt")
	}
	registerIn("strfmt", "C13", func(e *Engine) (out []*Spec) {
		rng := func(c *Term, lo, hi int64) *Term { return And(Le(I(lo), c), Le(c, I(hi))) }
		// the letters and digits of a text, lower-cased (bytes of multi-byte
		// characters count as letters)
		norm := func(c *Term) *Term {
			return Ite(rng(c, 'A', 'Z'), FromCode(Add(c, I(32))), Ite(Or(rng(c, 'a', 'z'), rng(c, '0', '9'), Le(I(128), c)), FromCode(c), S("")))
		}
		var in, lets, upper func(a ...*Term) *Term
		in = e.th.Rec("name.in", StrS, 8, func(a []*Term) *Term { // of the first n bytes of s
			s, n := a[0], a[1]
			return Ite(Le(n, I(0)), S(""), Cat(in(s, Sub(n, I(1))), norm(ByteAt(s, Sub(n, I(1))))))
		})
		lets = e.th.Rec("name.letters", StrS, 12, func(a []*Term) *Term {
			if a[0].IsStr() && a[0].Name == "" {
				return S("")
			}
			b, c, ok := peelLast(a[0])
			if !ok {
				return lets(a[0])
			}
			return Cat(lets(b), norm(c))
		})
		upper = e.th.Rec("name.upper", BoolS, 12, func(a []*Term) *Term {
			if a[0].IsStr() && a[0].Name == "" {
				return False
			}
			b, c, ok := peelLast(a[0])
			if !ok {
				return upper(a[0])
			}
			return Or(upper(b), rng(c, 'A', 'Z'))
		})
		for _, n := range []string{"ToSnakeCase", "ToCamelCase", "ToPascalCase"} {
			n := n
			s := Var("s", StrS)
			t := App("ext!strings.TrimSpace!0", StrS, s)
			out = append(out, &Spec{
				ID: "strfmt." + n, Props: []string{"C13"},
				OwnInv: true,
				Fn:     func(e *Engine) *fnT { return e.Func(modP+"/cmd/sqlgen/internal/strfmt", n) },
				Setup:  func(c *Ctx) { c.Args = []Val{Scalar{T: s}} },
				Inv: func(lc *LoopCtx) {
					for _, b := range lc.Strs() {
						b := b
						if n == "ToSnakeCase" {
							lc.Add("no upper-case letter written", func(st *State) *Term {
								w := b(st)
								if w == nil {
									return nil
								}
								return Not(upper(w))
							})
						}
						for _, i := range lc.Ints() {
							i := i
							for _, base := range []*Term{t, S("id"), s} {
								base := base
								lc.Add("position within the name", func(st *State) *Term {
									k := i(st)
									if k == nil {
										return nil
									}
									return And(Le(I(-1), k), Le(k, Len(base)))
								})
							}
							for _, base := range []*Term{t, S("id"), s} {
								base := base
								for d := int64(0); d < 2; d++ {
									d := d
									lc.Add("the letters and digits written are those consumed", func(st *State) *Term {
										w, k := b(st), i(st)
										if w == nil || k == nil {
											return nil
										}
										k = Add(k, I(d))
										return And(Le(I(0), k), Le(k, Len(base)), Eq(lets(w), in(base, k)))
									})
								}
							}
						}
					}
				},
				Post: func(c *Ctx) {
					r := tm(c.Ret[0])
					c.Ensure("every letter and digit of the name, in order, up to letter case", Eq(lets(r), in(t, Len(t))))
					if n == "ToSnakeCase" {
						c.Ensure("no upper-case letter", Not(upper(r)))
					}
				},
			})
		}
		return
	})
}

// peelLast: a text as all but its last byte and that byte's code.
func peelLast(a *Term) (*Term, *Term, bool) {
	ps := catParts(a)
	if len(ps) == 0 {
		return nil, nil, false
	}
	l := ps[len(ps)-1]
	if l.IsStr() {
		n := len(l.Name)
		return CatS(StrS, append(append([]*Term{}, ps[:len(ps)-1]...), S(l.Name[:n-1]))...), I(int64(l.Name[n-1])), true
	}
	if l.Op == "str.from_code" {
		return CatS(StrS, ps[:len(ps)-1]...), l.Args[0], true
	}
	if l.Op == "str.at" {
		return CatS(StrS, ps[:len(ps)-1]...), ToCode(l), true
	}
	return nil, nil, false
}
