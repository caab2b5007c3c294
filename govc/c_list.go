package main

import (
	"fmt"
	"go/types"
)

// C04, C05, C06 (and C02): list and array columns.

const (
	sqltypeP = sequelP + "/sqltype"
	pgtypeP  = sequelP + "/driver/postgres/pgtype"
)

// listKind: one element type; ok and val read an element's text.
type listKind struct {
	n    string
	sort *Sort
	ok   func(nil_, s *Term) *Term
	got  func(v *Term) *Term // the part of a stored element that counts
	val  func(s *Term) *Term
	enc  []func(v *Term) *Term // acceptable encodings of an element
}

func listKinds(e *Engine) (out []listKind) {
	for _, b := range []struct {
		s string
		n uint
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		h := IB(pow2(b.n - 1))
		out = append(out,
			listKind{n: "Int" + b.s, sort: IntS, ok: func(_, s *Term) *Term {
				return And(IntText(s), Le(Sub(I(0), h), IntVal(s)), Lt(IntVal(s), h))
			}, val: IntVal, enc: []func(v *Term) *Term{FmtInt}},
			listKind{n: "Uint" + b.s, sort: IntS, ok: func(_, s *Term) *Term {
				return And(UintText(s), Le(I(0), IntVal(s)), Lt(IntVal(s), Mul(I(2), h)))
			}, val: IntVal, enc: []func(v *Term) *Term{FmtInt}})
	}
	notNil := func(n, _ *Term) *Term { return Not(n) }
	id := func(s *Term) *Term { return s }
	fmts := func(bits int) (out []func(v *Term) *Term) {
		for _, f := range "fgeE" {
			f := int64(f)
			out = append(out, func(v *Term) *Term { return FmtFloat(bits, I(f), I(-1), v) })
		}
		return
	}
	bs := sliceSort(types.Typ[types.Byte])
	return append(out,
		listKind{n: "Bytea", sort: bs, ok: func(_, s *Term) *Term { return byteaOK(s) }, val: byteaVal, got: func(v *Term) *Term { return Field(v, 1) },
			enc: []func(v *Term) *Term{func(v *Term) *Term { return Cat(S(`"\\x`), HexEnc(Field(v, 1)), S(`"`)) }}},
		listKind{n: "Bool", sort: BoolS, ok: func(_, s *Term) *Term { return Or(Eq(s, S("t")), Eq(s, S("f"))) }, val: func(s *Term) *Term { return Eq(s, S("t")) },
			enc: []func(v *Term) *Term{func(v *Term) *Term { return Ite(v, S("t"), S("f")) }}},
		listKind{n: "Float32", sort: F32S, ok: func(_, s *Term) *Term { return FloatOK(32, s) }, val: FloatVal32, enc: fmts(32)},
		listKind{n: "Float64", sort: F64S, ok: func(_, s *Term) *Term { return FloatOK(64, s) }, val: FloatVal64, enc: fmts(64)},
		listKind{n: "String", sort: StrS, ok: notNil, val: id, enc: []func(v *Term) *Term{func(v *Term) *Term { return Cat(S("\""), escaped(v), S("\"")) }}},
	)
}

// What parseBytea makes of an element: verified on its own for the hex form.
func byteaOK(s *Term) *Term  { return App("bytea.ok", BoolS, s) }
func byteaVal(s *Term) *Term { return App("bytea.val", StrS, s) }
func byteaHex(s *Term) *Term {
	h := Extract(s, I(2), Sub(Len(s), I(2)))
	return Implies(Prefix(S(`\x`), s), And(Eq(byteaOK(s), HexOK(h)), Implies(HexOK(h), Eq(byteaVal(s), HexVal(h)))))
}

var elemsS = SeqOf(sliceSort(types.Typ[types.Byte]))

// What scanLinearArray makes of a text: a contract its callers are checked
// against; the function itself is verified on its own.
func linOK(s *Term) *Term    { return App("lin.ok", BoolS, s) }
func linElems(s *Term) *Term { return App("lin.elems", elemsS, s) }

func init() {
	register("C06", func(e *Engine) (out []*Spec) {
		for _, p := range []string{sqltypeP, pgtypeP} {
			p := p
			src := func(st *State) *Term { return nil }
			out = append(out, &Spec{
				ID: p[len(sequelP)+1:] + ".parseArray", Props: []string{"C06"},
				Fn: func(e *Engine) *fnT { return e.Func(p, "parseArray") },
				Setup: func(c *Ctx) {
					src0 := c.fresh("src", c.Fn.Params[0].Type()).(SliceV)
					del := c.fresh("del", c.Fn.Params[1].Type()).(SliceV)
					c.Args = []Val{src0, del}
					c.St.Heap[del.Obj] = Scalar{T: S(",")}
					del.Len, del.Off, del.Nil = I(1), I(0), False
					c.Args[1] = del
					n := src0.Len
					src = func(*State) *Term { return n }
				},
				OwnInv: true,
				Inv: func(lc *LoopCtx) {
					ints := lc.Ints()
					for _, i := range ints {
						i := i
						lc.Add("not negative", func(st *State) *Term { return leOr(I(0), i(st)) })
						lc.Add("within the input", func(st *State) *Term {
							if t := i(st); t != nil {
								return Le(t, src(st))
							}
							return nil
						})
					}
					for k, i := range ints {
						i := i
						lc.Add("not below its start", func(st *State) *Term { return leOr(i(lc.Entry), i(st)) })
						for _, j := range ints[:k] {
							j := j
							lc.Add("equal", func(st *State) *Term { return eqOr(i(st), j(st)) })
							lc.Add("ordered", func(st *State) *Term { return leOr(i(st), j(st)) })
							lc.Add("ordered", func(st *State) *Term { return leOr(j(st), i(st)) })
						}
					}
					for _, d := range lc.Seqs(SeqOf(IntS)) {
						d := d
						lc.Add("length unchanged", func(st *State) *Term {
							if s, s0 := d(st), d(lc.Entry); s != nil && s0 != nil {
								return Eq(Len(s), Len(s0))
							}
							return nil
						})
						lc.Add("no negative dimension", func(st *State) *Term {
							s := d(st)
							if s == nil {
								return nil
							}
							return Forall(func(k *Term) *Term { return Implies(And(Le(I(0), k), Lt(k, Len(s))), Le(I(0), Nth(s, k))) })
						})
						for _, i := range ints {
							i := i
							lc.Add("depth bounded", func(st *State) *Term {
								if s, j := d(st), i(st); s != nil && j != nil {
									return Le(j, Len(s))
								}
								return nil
							})
							lc.Add("closed dimensions positive", func(st *State) *Term {
								s, j := d(st), i(st)
								if s == nil || j == nil {
									return nil
								}
								return Forall(func(k *Term) *Term { return Implies(And(Le(j, k), Lt(k, Len(s))), Le(I(1), Nth(s, k))) })
							})
						}
					}
				},
				Post: func(c *Ctx) {
					src := c.Args[0].(SliceV)
					c.Ensure("the input is not modified", Eq(c.X.content(c.St, src), c.X.content(c.St0, src)))
				},
			})
		}
		return
	})
}

func init() {
	register("C02 C04 C05 C06", func(e *Engine) (out []*Spec) {
		for _, p := range []struct{ pkg, suf, prop string }{{sqltypeP, "Slice", "C04"}, {pgtypeP, "Array", "C05"}} {
			p := p
			short := p.pkg[len(sequelP)+1:]
			e.modulars[p.pkg+".scanLinearArray"] = &Spec{ID: short + ".scanLinearArray", Apply: func(x *Exec, st *State, c *Call) []*State {
				s := x.strOf(st, c.Args[0])
				res := c.Sig.Results()
				return x.branch(st, linOK(s), func(st *State) []*State {
					el := linElems(s)
					o := newObject("elems", res.At(0).Type().Underlying().(*types.Slice).Elem(), true)
					st.Heap[o] = Scalar{T: el}
					n := Fresh("elems.nil", BoolS)
					st.assume(Implies(n, Eq(Len(el), I(0))))
					return c.Return(x, st, SliceV{Nil: n, Obj: o, Off: I(0), Len: Len(el)}, Scalar{T: AnyNil()})
				}, func(st *State) []*State {
					a := Fresh("err", AnyS)
					st.assume(Not(IsNilAny(a)))
					return c.Return(x, st, x.nilSlice(st, res.At(0).Type().Underlying().(*types.Slice).Elem()), Scalar{T: a})
				})
			}}
			for _, k := range listKinds(e) {
				k := k
				if k.n == "Bytea" && p.pkg != pgtypeP {
					continue
				}
				srcs := func(st *State) (out []*Term) {
					v := Var("v", AnyS)
					for _, t := range []string{tkStr, tkBytes} {
						if is, ok := st.decide(isType(v, t)); is || !ok {
							out = append(out, unboxDriver(t, v))
						}
					}
					return
				}
				okE := func(e *Term) *Term { return k.ok(Field(e, 0), Field(e, 1)) }
				valE := func(e *Term) *Term { return k.val(Field(e, 1)) }
				got := k.got
				if got == nil {
					got = func(v *Term) *Term { return v }
				}
				stored := func(el, r, n *Term) *Term {
					return Forall(func(j *Term) *Term {
						return Implies(And(Le(I(0), j), Lt(j, n)), And(okE(Nth(el, j)), Eq(got(Nth(r, j)), valE(Nth(el, j)))))
					})
				}
				out = append(out, &Spec{
					ID: short + "." + k.n + p.suf + ".Scan(NULL)", Props: []string{"C02"},
					Fn: func(e *Engine) *fnT { return e.Func(p.pkg, "gvScan"+k.n) },
					Setup: func(c *Ctx) {
						v := Var("v", AnyS)
						c.spec.DriverArgs[v] = true
						c.Args = []Val{c.fresh("a", c.Fn.Params[0].Type()), Scalar{T: v}}
						c.Assume(IsNilAny(v))
					},
					Post: func(c *Ctx) {
						a := c.Args[0].(PtrV)
						c.Ensure("NULL succeeds and leaves a nil list", And(x_isNil(c.Ret[0]), c.Deref(c.St, a).(SliceV).Nil))
						c.frame(a.Obj)
					},
				}, &Spec{
					ID: short + "." + k.n + p.suf + ".Scan", Props: []string{p.prop, "C06"},
					Fn: func(e *Engine) *fnT { return e.Func(p.pkg, "gvScan"+k.n) },
					Setup: func(c *Ctx) {
						v := Var("v", AnyS)
						c.spec.DriverArgs[v] = true
						c.Args = []Val{c.fresh("a", c.Fn.Params[0].Type()), Scalar{T: v}}
						c.Assume(Le(I(0), TypeOf(v)))
					},
					Inv: func(lc *LoopCtx) {
						ints := lc.Ints()
						for _, r := range lc.Seqs(k.cs()) {
							r := r
							for _, u := range srcs(lc.Entry) {
								el := linElems(u)
								lc.Add("one slot per element", func(st *State) *Term { return eqOr(lenOr(r(st)), Len(el)) })
								for _, i := range ints {
									i := i
									lc.Add("the first i elements are stored", func(st *State) *Term {
										s, j := r(st), i(st)
										if s == nil || j == nil {
											return nil
										}
										return And(Le(I(0), j), Le(j, Len(el)), stored(el, s, j))
									})
								}
								if k.sort == IntS {
									for _, i := range ints {
										i := i
										lc.Add("slots not reached yet are zero", func(st *State) *Term {
											s, j := r(st), i(st)
											if s == nil || j == nil {
												return nil
											}
											return Forall(func(k *Term) *Term { return Implies(And(Le(j, k), Lt(k, Len(s))), Eq(Nth(s, k), I(0))) })
										})
									}
								}
								lc.Add("every slot filled so far is an element", func(st *State) *Term {
									s := r(st)
									if s == nil {
										return nil
									}
									return And(Le(Len(s), Len(el)), stored(el, s, Len(s)))
								})
							}
						}
					},
					Post: func(c *Ctx) {
						v := Var("v", AnyS)
						errNil := x_isNil(c.Ret[0])
						a := c.Args[0].(PtrV)
						r := c.Deref(c.St, a).(SliceV)
						rc := c.X.content(c.St, r)
						bad := Not(errNil)
						same := valEq(c.X, c.St0, c.Deref(c.St0, a), c.St, r, objContainer(a.Obj))
						c.EnsureP("C06", "an error leaves the list unchanged", Implies(bad, same))
						for _, t := range []string{tkStr, tkBytes} {
							u := unboxDriver(t, v)
							el := linElems(u)
							c.EnsureP("C06", "malformed text is an error ("+t+")", Implies(And(isType(v, t), Not(linOK(u))), bad))
							c.EnsureP(p.prop, "success stores every element of the text, in order, unaltered ("+t+")",
								Implies(And(isType(v, t), errNil), And(Eq(Len(rc), Len(el)), Not(r.Nil), stored(el, rc, Len(el)))))
							c.EnsureP(p.prop, "a list whose elements are all representable is decoded ("+t+")",
								Implies(And(isType(v, t), linOK(u), Forall(func(j *Term) *Term {
									return Implies(And(Le(I(0), j), Lt(j, Len(el))), okE(Nth(el, j)))
								})), errNil))
						}
						c.EnsureP("C06", "an unsupported driver type is an error", Implies(Not(Or(IsNilAny(v), isType(v, tkStr), isType(v, tkBytes))), bad))
						if errNil != False {
							c.frame(a.Obj)
						} else {
							c.frame()
						}
					},
				})
			}
		}
		return
	})
}

func init() {
	register("C05 C06", func(e *Engine) []*Spec {
		sp := &Spec{
			ID: "driver/postgres/pgtype.parseBytea", Props: []string{"C05", "C06"},
			Fn:    func(e *Engine) *fnT { return e.Func(pgtypeP, "parseBytea") },
			Setup: func(c *Ctx) { c.Args = []Val{c.fresh("s", c.Fn.Params[0].Type())} },
			Post: func(c *Ctx) {
				a := c.Args[0].(SliceV)
				s := c.X.content(c.St0, a)
				h := Extract(s, I(2), Sub(Len(s), I(2)))
				ok := x_isNil(c.Ret[1])
				r := c.X.content(c.St, c.Ret[0].(SliceV))
				c.EnsureP("C05", "an element in hex form decodes to the bytes it spells", Implies(And(Prefix(S(`\x`), s), ok), And(HexOK(h), Eq(r, HexVal(h)))))
				c.EnsureP("C05", "well-formed hex is accepted", Implies(And(Prefix(S(`\x`), s), HexOK(h)), ok))
				c.EnsureP("C06", "the input is not modified", Eq(c.X.content(c.St, a), s))
				if r := c.Ret[0].(SliceV); r.Obj == a.Obj && r.Nil != True {
					c.EnsureP("C05", "the result does not share the input's memory", False)
				}
			},
		}
		e.modulars[pgtypeP+".parseBytea"] = sp
		sp.Apply = func(x *Exec, st *State, c *Call) []*State {
			s := x.strOf(st, c.Args[0])
			st.assume(byteaHex(s))
			return x.branch(st, byteaOK(s), func(st *State) []*State {
				r := x.newSlice(st, "bytea", types.Typ[types.Byte], byteaVal(s))
				r.Nil = Fresh("bytea.nil", BoolS)
				st.assume(Implies(r.Nil, Eq(Len(byteaVal(s)), I(0))))
				return c.Return(x, st, r, Scalar{T: AnyNil()})
			}, func(st *State) []*State {
				a := Fresh("err", AnyS)
				st.assume(Not(IsNilAny(a)))
				return c.Return(x, st, x.nilSlice(st, types.Typ[types.Byte]), Scalar{T: a})
			})
		}
		return []*Spec{sp}
	})
}

func (k listKind) cs() *Sort {
	if k.n == "Uint8" { // a list of bytes is a byte string to the verifier
		return StrS
	}
	return SeqOf(k.sort)
}

// escaped: the text between the quotes that spells s.
func escaped(s *Term) *Term { return App("list.esc", StrS, s) }

func initListTheory(e *Engine) {
	special := func(c *Term) *Term { return Or(Eq(c, I('"')), Eq(c, I('\\'))) }
	e.th.Rec("list.esc", StrS, 1, func(a []*Term) *Term {
		s := a[0]
		c := ByteAt(s, I(0))
		rest := escaped(Extract(s, I(1), Sub(Len(s), I(1))))
		return Ite(Eq(Len(s), I(0)), S(""), Ite(special(c), Cat(S("\\"), FromCode(c), rest), Cat(FromCode(c), rest)))
	})
	// a chunk without special bytes is copied
	s := Var("?s", StrS)
	set := S("\"\\")
	r := App("indexany", IntS, s, set)
	e.th.AddLemma(&Lemma{Name: "esc-chunk", Vars: []*Term{s}, Pats: [][]*Term{{r}}, Body: escChunk(s, r), Why: "proved by induction in the unit list.esc-chunk"})
}

func plain(s *Term) *Term { return And(Not(Contains(s, S("\""))), Not(Contains(s, S("\\")))) }

func escChunk(s, r *Term) *Term {
	return And(Implies(And(Lt(r, I(0)), plain(s)), Eq(escaped(s), s)),
		Implies(And(Le(I(0), r), Lt(r, Len(s)), plain(Extract(s, I(0), r)), Or(Eq(ByteAt(s, r), I('"')), Eq(ByteAt(s, r), I('\\')))),
			Eq(escaped(s), Cat(Extract(s, I(0), r), S("\\"), CharAt(s, r), escaped(Extract(s, Add(r, I(1)), Sub(Len(s), Add(r, I(1)))))))))
}

// lists joined with commas: the first n elements of q, each encoded.
func (k listKind) join(alt int) func(q, n *Term) *Term {
	name := fmt.Sprintf("list.join!%s!%d", k.n, alt)
	return func(q, n *Term) *Term { return App(name, StrS, q, n) }
}

func (k listKind) initJoin(e *Engine) {
	for alt := range k.enc {
		alt := alt
		j := k.join(alt)
		e.th.Rec(fmt.Sprintf("list.join!%s!%d", k.n, alt), StrS, 2, func(a []*Term) *Term {
			q, n := a[0], a[1]
			p := Sub(n, I(1))
			en := k.enc[alt](Nth(q, p))
			return Ite(Le(n, I(0)), S(""), Ite(Eq(n, I(1)), en, Cat(j(q, p), S(","), en)))
		})
	}
}

// joinGrows: the first i elements, with one more, are no longer than the first
// n; proved by induction on n.
func (k listKind) joinGrows(e *Engine) *Spec {
	j := k.join(0)
	q, i, n := Var("?q", k.cs()), Var("?i", IntS), Var("?n", IntS)
	next := func(i *Term) *Term {
		return Add(Len(j(q, i)), Ite(Le(I(1), i), I(1), I(0)), Len(k.enc[0](Nth(q, i))))
	}
	e.th.AddLemma(&Lemma{Name: "join-grows-" + k.n, Vars: []*Term{q, i, n}, Pats: [][]*Term{{j(q, i), j(q, n)}},
		Body: Implies(And(Le(I(0), i), Lt(i, n)), Le(next(i), Len(j(q, n)))), Why: "proved by induction in the unit list.join-grows"})
	none := map[string]bool{"join-grows-" + k.n: true}
	return &Spec{ID: "list.join-grows", Props: []string{"C05"}, Lemma: func(e *Engine) []*Obl {
		return []*Obl{
			{Unit: "list.join-grows", Kind: "lemma", Name: "base: n = i+1", Exclude: none, PC: []*Term{Le(I(0), i)}, Goal: Le(next(i), Len(j(q, Add(i, I(1)))))},
			{Unit: "list.join-grows", Kind: "lemma", Name: "step", Exclude: none, PC: []*Term{Le(I(0), i), Lt(i, n), Le(next(i), Len(j(q, n)))}, Goal: Le(next(i), Len(j(q, Add(n, I(1)))))},
		}
	}}
}

func init() {
	register("C04 C05", func(e *Engine) (out []*Spec) {
		initListTheory(e)
		x, y, c := Var("x", StrS), Var("y", StrS), Var("c", IntS)
		none := map[string]bool{"esc-chunk": true}
		ch := FromCode(c)
		byteR := And(Le(I(0), c), Lt(c, I(256)))
		out = append(out, &Spec{ID: "list.esc-chunk", Props: []string{"C04", "C05"}, Lemma: func(e *Engine) (os []*Obl) {
			os = append(os, &Obl{Unit: "list.esc-chunk", Kind: "lemma", Name: "escaping a plain chunk copies it: base", Goal: Eq(escaped(Cat(S(""), y)), Cat(S(""), escaped(y))), Exclude: none})
			os = append(os, &Obl{Unit: "list.esc-chunk", Kind: "lemma", Name: "escaping a plain chunk copies it: step", Exclude: none,
				PC:   []*Term{byteR, plain(Cat(ch, x)), Implies(plain(x), Eq(escaped(Cat(x, y)), Cat(x, escaped(y))))},
				Goal: Eq(escaped(Cat(ch, x, y)), Cat(ch, x, escaped(y)))})
			// with pre = s[:r], c = s[r], post = s[r+1:]
			inst := func(a, b *Term) *Term { return Implies(plain(a), Eq(escaped(Cat(a, b)), Cat(a, escaped(b)))) }
			s, r := Var("s", StrS), Var("r", IntS)
			os = append(os,
				&Obl{Unit: "list.esc-chunk", Kind: "lemma", Name: "a text without special bytes is copied", Exclude: none,
					PC: []*Term{plain(s), inst(s, S(""))}, Goal: Eq(escaped(s), s)},
				&Obl{Unit: "list.esc-chunk", Kind: "lemma", Name: "escaping up to the first special byte", Exclude: none,
					PC:   []*Term{byteR, plain(x), Or(Eq(c, I('"')), Eq(c, I('\\'))), inst(x, Cat(ch, y))},
					Goal: Eq(escaped(Cat(x, ch, y)), Cat(x, S("\\"), ch, escaped(y)))},
				&Obl{Unit: "list.esc-chunk", Kind: "lemma", Name: "a text is split at any position", Exclude: none,
					PC: []*Term{Le(I(0), r), Lt(r, Len(s))}, Goal: Eq(Cat(Extract(s, I(0), r), CharAt(s, r), Extract(s, Add(r, I(1)), Sub(Len(s), Add(r, I(1))))), s)})
			return
		}})
		for _, p := range []struct{ pkg, suf, prop, open, close string }{{sqltypeP, "Slice", "C04", "[", "]"}, {pgtypeP, "Array", "C05", "{", "}"}} {
			p := p
			short := p.pkg[len(sequelP)+1:]
			quoted := &Spec{
				ID: short + ".appendArrayQuotedBytes", Props: []string{p.prop}, Optional: true,
				Fn: func(e *Engine) *fnT { return e.Func(p.pkg, "appendArrayQuotedBytes") },
				Post: func(c *Ctx) {
					b, v := c.X.content(c.St0, c.Args[0].(SliceV)), c.X.content(c.St0, c.Args[1].(SliceV))
					c.Ensure("appends the value quoted and escaped, nothing else", Eq(c.X.content(c.St, c.Ret[0].(SliceV)), Cat(b, S("\""), escaped(v), S("\""))))
					c.Ensure("the value is not modified", Eq(c.X.content(c.St, c.Args[1].(SliceV)), v))
				},
				Setup: func(c *Ctx) {
					c.Args = []Val{c.fresh("b", c.Fn.Params[0].Type()), c.fresh("v", c.Fn.Params[1].Type())}
					b, v := c.X.content(c.St, c.Args[0].(SliceV)), c.X.content(c.St, c.Args[1].(SliceV))
					c.spec.Inv = func(lc *LoopCtx) {
						for _, buf := range lc.Strs() {
							buf := buf
							for _, rest := range lc.Strs() {
								rest := rest
								lc.Add("what is written and what is left spell the value", func(st *State) *Term {
									w, r := buf(st), rest(st)
									if w == nil || r == nil {
										return nil
									}
									return Eq(Cat(w, escaped(r)), Cat(b, S("\""), escaped(v)))
								})
							}
							for _, i := range lc.Ints() {
								i := i
								lc.Add("what is written and v[i:] spell the value", func(st *State) *Term {
									w, k := buf(st), i(st)
									if w == nil || k == nil {
										return nil
									}
									return And(Le(I(0), k), Le(k, Len(v)), Eq(Cat(w, escaped(Extract(v, k, Sub(Len(v), k)))), Cat(b, S("\""), escaped(v))))
								})
							}
						}
					}
				},
			}
			quoted.Apply = func(x *Exec, st *State, c *Call) []*State {
				bt := types.NewSlice(types.Typ[types.Byte])
				t := Cat(S("\""), escaped(x.strOf(st, c.Args[1])), S("\""))
				return c.Return(x, st, x.append(st, c.Args[0].(SliceV), Scalar{T: t}, bt, types.Typ[types.String]))
			}
			out = append(out, quoted)
			e.modulars[p.pkg+".appendArrayQuotedBytes"] = quoted
			for _, k := range listKinds(e) {
				k := k
				if k.n == "Bytea" && p.pkg != pgtypeP {
					continue
				}
				if p.pkg == sqltypeP || k.n == "Bytea" {
					k.initJoin(e)
				}
				if k.n == "Bytea" {
					out = append(out, k.joinGrows(e))
				}
				out = append(out, &Spec{
					ID: short + "." + k.n + p.suf + ".Value", Props: []string{p.prop},
					Fn: func(e *Engine) *fnT { return e.Func(p.pkg, "gvValue"+k.n) },
					Setup: func(c *Ctx) {
						c.Args = []Val{c.fresh("a", c.Fn.Params[0].Type())}
						a := c.Args[0].(SliceV)
						q := c.X.content(c.St, a)
						c.spec.Inv = func(lc *LoopCtx) {
							ints := lc.Ints()
							for alt := range k.enc {
								j := k.join(alt)
								led := func(i *Term) *Term { return Ite(Le(i, I(0)), S(""), Cat(S(","), j(q, i))) }
								for _, i := range ints {
									i := i
									at := func(name string, f func(st *State, i *Term) *Term) {
										lc.Add(name, func(st *State) *Term {
											n := i(st)
											if n == nil {
												return nil
											}
											r := f(st, n)
											if r == nil {
												return nil
											}
											return And(Le(I(0), n), Le(n, a.Len), r)
										})
									}
									for _, b := range lc.Strs() {
										b := b
										at("the text so far is the open bracket and the first i elements", func(st *State, n *Term) *Term { return eqOr(b(st), Cat(S(p.open), j(q, n))) })
										at("the text so far is the open bracket, the first i elements and a comma", func(st *State, n *Term) *Term {
											return eqOr(b(st), Cat(S(p.open), j(q, n), Ite(Le(n, I(0)), S(""), S(","))))
										})
										at("the text up to what i elements take is those elements", func(st *State, n *Term) *Term {
											w := b(st)
											if w == nil {
												return nil
											}
											l := led(n)
											return Eq(Extract(w, I(0), Len(l)), l)
										})
									}
									if k.n == "Bool" && alt == 0 {
										at("i elements take 2i bytes", func(st *State, n *Term) *Term { return Eq(Len(led(n)), Mul(I(2), n)) })
									}
									if k.n == "Bytea" {
										for _, sz := range ints {
											sz := sz
											at("room for the first i elements", func(st *State, n *Term) *Term {
												z := sz(st)
												if z == nil {
													return nil
												}
												return Eq(Add(z, Mul(I(6), n)), Add(I(1), Mul(I(6), a.Len), Len(led(n))))
											})
										}
										for _, sl := range lc.Slices() {
											sl := sl
											at("the rest starts after the first i elements", func(st *State, n *Term) *Term {
												s, ok := sl(st)
												if !ok {
													return nil
												}
												return And(Eq(s.Off, Len(led(n))), Eq(Add(s.Off, s.Len), Len(lc.X.objSeq(st, s.Obj))))
											})
											at("written up to the rest: the first i elements", func(st *State, n *Term) *Term {
												s, ok := sl(st)
												if !ok {
													return nil
												}
												return Eq(Extract(lc.X.objSeq(st, s.Obj), I(0), s.Off), led(n))
											})
										}
									}
								}
							}
						}
					},
					Post: func(c *Ctx) {
						a := c.Args[0].(SliceV)
						q := c.X.content(c.St0, a)
						n := a.Len
						r := c.X.anyTerm(c.St, c.Ret[0])
						ok := x_isNil(c.Ret[1])
						is := func(t *Term) *Term {
							return Or(And(isType(r, tkStr), Eq(unboxDriver(tkStr, r), t)), And(isType(r, tkBytes), Eq(unboxDriver(tkBytes, r), t)))
						}
						c.Ensure("encoding never fails", ok)
						c.Ensure("a nil list encodes to NULL", Implies(a.Nil, IsNilAny(r)))
						c.Ensure("an empty list encodes to an empty pair of brackets", Implies(And(Not(a.Nil), Eq(n, I(0))), is(S(p.open+p.close))))
						var alts []*Term
						for alt := range k.enc {
							alts = append(alts, is(Cat(S(p.open), k.join(alt)(q, n), S(p.close))))
						}
						c.Ensure("the text is every element, in order, separated by commas, in brackets", Implies(Lt(I(0), n), Or(alts...)))
						c.Ensure("the list is not modified", Eq(c.X.content(c.St, a), q))
					},
				})
			}
		}
		return
	})
}
