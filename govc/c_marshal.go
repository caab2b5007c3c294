package main

import "go/types"

// C15 (and C14): lists serialised as JSON through a pooled builder.

// jsonStr: the JSON string that spells s.
func jsonStr(s *Term) *Term { return App("json.str", StrS, s) }

func timeFmt(t *Term, layout string) *Term {
	return App("ext!(time.Time).Format!0", StrS, t, S(layout))
}

func marshalKinds(e *Engine) (out []listKind) {
	bs := sliceSort(types.Typ[types.Byte])
	for _, k := range listKinds(e) {
		switch k.n {
		case "Bytea", "String", "Float32", "Float64":
		case "Bool":
			k.n, k.enc = "JBool", []func(v *Term) *Term{func(v *Term) *Term { return Ite(v, S("true"), S("false")) }}
			out = append(out, k)
		default:
			out = append(out, k)
		}
	}
	prec := Var("prec!arg", IntS)
	f := func(p *Term) func(v *Term) *Term {
		return func(v *Term) *Term { return FmtFloat(64, I('f'), p, v) }
	}
	quoted := func(l string) func(v *Term) *Term {
		return func(v *Term) *Term { return Cat(S(`"`), timeFmt(v, l), S(`"`)) }
	}
	const l1, l2 = "2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05.999999999Z07:00"
	whole := func(l string) func(v *Term) *Term {
		return func(v *Term) *Term { return timeFmt(v, `"`+l+`"`) }
	}
	return append(out,
		listKind{n: "Uintptr", sort: IntS, enc: []func(v *Term) *Term{FmtInt}},
		listKind{n: "JString", sort: StrS, enc: []func(v *Term) *Term{jsonStr}},
		listKind{n: "JBytes", sort: bs, enc: []func(v *Term) *Term{func(v *Term) *Term { return jsonStr(Field(v, 1)) }}},
		listKind{n: "JFloat64", sort: F64S, enc: []func(v *Term) *Term{f(I(0)), f(I(-1))}},
		listKind{n: "JFloat64Prec", sort: F64S, enc: []func(v *Term) *Term{f(prec)}},
		listKind{n: "JTime", sort: TimeS, enc: []func(v *Term) *Term{whole(l1), quoted(l1), whole(l2), quoted(l2)}},
	)
}

func init() {
	register("C15 C14", func(e *Engine) (out []*Spec) {
		for _, k := range marshalKinds(e) {
			k := k
			if k.n[0] == 'J' || k.n == "Uintptr" {
				k.initJoin(e)
			}
			n := k.n
			if n[0] == 'J' {
				n = n[1:]
			}
			out = append(out, &Spec{
				ID: "encoding.Marshal" + n, Props: []string{"C15", "C14"},
				Fn: func(e *Engine) *fnT { return e.Func(sequelP+"/encoding", "gvM"+n) },
				Setup: func(c *Ctx) {
					c.Args = []Val{c.fresh("list", c.Fn.Params[0].Type())}
					if len(c.Fn.Params) > 1 {
						c.Args = append(c.Args, Scalar{T: Var("prec!arg", IntS)})
					}
					a := c.Args[0].(SliceV)
					q := c.X.content(c.St, a)
					c.spec.Inv = func(lc *LoopCtx) {
						for alt := range k.enc {
							j := k.join(alt)
							for _, i := range lc.Ints() {
								i := i
								for _, b := range lc.Strs() {
									b := b
									for _, sep := range []string{"", ","} {
										sep := sep
										lc.Add("the text so far is the open bracket and the first i elements"+sep, func(st *State) *Term {
											n, w := i(st), b(st)
											if n == nil || w == nil {
												return nil
											}
											return And(Le(I(0), n), Le(n, a.Len), Eq(w, Cat(S("["), j(q, n), Ite(Le(n, I(0)), S(""), S(sep)))))
										})
									}
								}
							}
						}
					}
				},
				Post: func(c *Ctx) {
					a := c.Args[0].(SliceV)
					q := c.X.content(c.St0, a)
					r := tm(c.Ret[0])
					c.EnsureP("C15", "an empty list gives an empty pair of brackets", Implies(Eq(a.Len, I(0)), Eq(r, S("[]"))))
					var alts []*Term
					for alt := range k.enc {
						alts = append(alts, Eq(r, Cat(S("["), k.join(alt)(q, a.Len), S("]"))))
					}
					c.EnsureP("C15", "every element once, in order, separated by commas, in brackets", Implies(Lt(I(0), a.Len), Or(alts...)))
					c.EnsureP("C15", "the list is not modified", Eq(c.X.content(c.St, a), q))
				},
			})
		}
		return
	})
}
