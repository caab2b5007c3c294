package main

import (
	"fmt"
	"go/types"
	"os"
	"slices"
)

// C08, C09, C10 (and C14): the text the generator writes for a table.

const compilerP = modP + "/cmd/sqlgen/internal/compiler"

// genW: the vocabulary of the generator's contracts.
type genW struct {
	e       *Engine
	dialect *Term
	quoteID *Term
	goName  *Term
	db      *Term // table name
	auto    *Term // auto-increment key or nil
	cols    *Term
	keys    *Term
	colT    *types.Named
	hn      map[string]*Term
	joins   map[string]*genJoin
}

type genJoin struct {
	sep string
	enc func(c, i, x *Term) *Term // element, index, extra argument
}

var refsS = SeqOf(RefS)

func (g *genW) f(c *Term, name string) *Term {
	a, ok := g.hn[name]
	if !ok {
		u := g.colT.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				n, lt, _ := hname(g.colT, []PathElem{{Field: i}})
				a = Var(n+"@0", ArrOf(RefS, sortOf(lt)))
			}
		}
		g.hn[name] = a
	}
	return Select(a, c)
}

func (g *genW) name(c *Term) *Term { return g.f(c, "Name") }

func (g *genW) mqi(s *Term) *Term {
	return App("m!"+sanitize("(dialect.Dialect).QuoteIdentifier")+"!0", StrS, g.dialect, s)
}
func (g *genW) qv(n *Term) *Term {
	return App("m!"+sanitize("(dialect.Dialect).QuoteVar")+"!0", StrS, g.dialect, n)
}
func (g *genW) qi(s *Term) *Term { return Ite(g.quoteID, g.mqi(s), s) }

func genQuote(s *Term) *Term { return Cat(FromCode(genQ), s, FromCode(genQ)) }

var genQ = Var("quoteRune", IntS)

func genVal(c *Term) *Term         { return App("gen.value", StrS, S("v"), c) }
func genValuer(c, i *Term) *Term   { return App("gen.valuer", StrS, c, i) }
func genValuerOK(c, i *Term) *Term { return App("gen.valuer.ok", BoolS, c, i) }
func genScanner(c *Term) *Term     { return App("gen.selected", StrS, c) }
func genScannerOK(c *Term) *Term   { return App("gen.selected.ok", BoolS, c) }
func genDest(path, t *Term) *Term  { return App("gen.dest", StrS, path, t) }
func genInsertCols() *Term         { return Var("insertColumns", refsS) }
func genOtherCols() *Term          { return Var("columnsWithoutPK", refsS) }
func (g *genW) implements(s *Term) *Term {
	return App("gen.missing", BoolS, s)
}

// join: the first n columns of q, each encoded, separated.
func (g *genW) join(k string, q, n, x *Term) *Term { return App("gen.join!"+k, StrS, q, n, x) }

// rest: columns 1..n-1, each preceded by the separator.
func (g *genW) rest(k string, q, n, x *Term) *Term { return App("gen.rest!"+k, StrS, q, n, x) }

func (g *genW) init() {
	for k, j := range g.joins {
		k, j := k, j
		g.e.th.Rec("gen.join!"+k, StrS, 2, func(a []*Term) *Term {
			q, n, x := a[0], a[1], a[2]
			return Ite(Le(n, I(0)), S(""), Cat(j.enc(Nth(q, I(0)), I(0), x), g.rest(k, q, n, x)))
		})
		g.e.th.Rec("gen.rest!"+k, StrS, 2, func(a []*Term) *Term {
			q, n, x := a[0], a[1], a[2]
			p := Sub(n, I(1))
			return Ite(Le(n, I(1)), S(""), Cat(g.rest(k, q, p, x), S(j.sep), j.enc(Nth(q, p), p, x)))
		})
	}
}

// setField overwrites a field of a fresh object.
func setField(c *Ctx, p Val, t types.Type, name string, v Val) {
	o := p.(PtrV).Obj
	u := t.Underlying().(*types.Struct)
	s := c.St.Heap[o].(StructV)
	f := append([]Val(nil), s.F...)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			f[i] = v
			c.St.Heap[o] = StructV{F: f}
			return
		}
	}
	panic("no field " + name)
}

func (g *genW) setup(c *Ctx) {
	P := c.Fn.Params
	gp, pp, tp := c.fresh("g", P[0].Type()), c.fresh("p", P[1].Type()), c.fresh("t", P[2].Type())
	c.Args = []Val{gp, pp, tp}
	g.generator(c, gp, false)
	g.table(c, tp)
}

// generator: any generator newGenerator makes.
func (g *genW) generator(c *Ctx, gp Val, plain bool) {
	gt := deref(c.Fn.Params[0].Type())
	var cfgT types.Type
	u := gt.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "config" {
			cfgT = u.Field(i).Type()
		}
	}
	cfg := c.fresh("cfg", cfgT)
	setField(c, cfg, deref(cfgT), "QuoteIdentifier", Scalar{T: g.quoteID})
	if plain { // no types of the user's own
		setField(c, cfg, deref(cfgT), "DataTypes", Scalar{T: NilRef()})
	}
	setField(c, gp, gt, "config", cfg)
	setField(c, gp, gt, "dialect", Scalar{T: g.dialect})
	setField(c, gp, gt, "quoteRune", Scalar{T: genQ})
	c.Assume(Not(IsNilAny(g.dialect)))
	c.Assume(Or(Eq(genQ, I('`')), Eq(genQ, I('"'))))
}

func (g *genW) table(c *Ctx, tp Val) {
	tt := e_named(g.e, compilerP, "Table")
	setField(c, tp, tt, "GoName", Scalar{T: g.goName})
	setField(c, tp, tt, "Name", Scalar{T: g.db})
	c.Assume(Not(Contains(g.goName, S("%"))))
	ct := types.NewPointer(g.colT)
	setField(c, tp, tt, "autoIncrKey", c.X.fromTerm(c.St, g.auto, ct))
	for _, q := range []struct {
		n string
		t *Term
	}{{"Columns", g.cols}, {"Keys", g.keys}} {
		setField(c, tp, tt, q.n, g.slice(c.X, c.St, q.t, q.n))
	}
	for _, q := range []*Term{g.cols, g.keys, genInsertCols(), genOtherCols()} {
		q := q
		c.Assume(Forall(func(j *Term) *Term { return Implies(And(Le(I(0), j), Lt(j, Len(q))), Ne(Nth(q, j), NilRef())) }))
	}
}

func e_named(e *Engine, pkg, name string) types.Type {
	return e.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
}

func (g *genW) slice(x *Exec, st *State, q *Term, name string) SliceV {
	o := newObject(name, types.NewPointer(g.colT), true)
	o.Extern = true
	st.Heap[o] = Scalar{T: q}
	n := Fresh(name+".nil", BoolS)
	st.assume(Implies(n, Eq(Len(q), I(0))))
	return SliceV{Nil: n, Obj: o, Off: I(0), Len: Len(q)}
}

// genLoop: a loop writes the columns of q in the form k.
type genLoop struct {
	k    string
	q, x *Term
}

// inv: what has been written so far is what was written before the loop and
// the first i columns, in one of the known forms.
func (g *genW) inv(ws ...genLoop) func(lc *LoopCtx) {
	var qs []*Term
	for _, w := range ws {
		if !slices.Contains(qs, w.q) {
			qs = append(qs, w.q)
		}
	}
	return func(lc *LoopCtx) {
		for _, i := range lc.Ints() {
			i := i
			lc.Add("not below its start", func(st *State) *Term { return leOr(i(lc.Entry), i(st)) })
			for _, q := range qs {
				q := q
				lc.Add("within the columns", func(st *State) *Term {
					n := i(st)
					if n == nil {
						return nil
					}
					return And(Le(I(0), n), Le(n, Len(q)))
				})
				for _, b := range lc.Strs() {
					b := b
					for _, w := range ws {
						if w.q == q {
							k, x := w.k, w.x
							at := func(name string, f func(w, w0, n *Term) *Term) {
								lc.Add(name, func(st *State) *Term {
									n, w, w0 := i(st), b(st), b(lc.Entry)
									if n == nil || w == nil || w0 == nil {
										return nil
									}
									return f(w, w0, n)
								})
							}
							at("written: the first i columns ("+k+")", func(w, w0, n *Term) *Term { return Eq(w, Cat(w0, g.join(k, q, n, x))) })
							at("written: columns 1 to i-1 ("+k+")", func(w, w0, n *Term) *Term { return Eq(w, Cat(w0, g.rest(k, q, n, x))) })
						}
					}
				}
				for _, r := range lc.Seqs(SeqOf(StrS)) {
					r := r
					lc.Add("the first i names are the columns' names, quoted", func(st *State) *Term {
						n, s := i(st), r(st)
						if n == nil || s == nil {
							return nil
						}
						return And(Le(n, Len(s)), Forall(func(j *Term) *Term {
							return Implies(And(Le(I(0), j), Lt(j, n)), Eq(Nth(s, j), g.mqi(g.name(Nth(q, j)))))
						}))
					})
					lc.Add("one slot per column", func(st *State) *Term {
						s := r(st)
						if s == nil {
							return nil
						}
						return Eq(Len(s), Len(q))
					})
				}
			}
		}
	}
}

func init() {
	w := worldNamed("codegen")
	w.load = func(e *Engine) error {
		load := func(ov map[string][]byte) error {
			return e.Load(repoDir+"/cmd/sqlgen", ov, []string{modP + "/...", "github.com/samber/lo"}, "./codegen", "./codegen/dialect/...")
		}
		ov, err := genOverlay(repoDir)
		if err == nil {
			if err = load(ov); err == nil {
				return nil
			}
		}
		fmt.Fprintln(os.Stderr, "govc: the generator's drivers do not fit the code (bounded checks only):", err)
		return load(nil)
	}
	registerIn("codegen", "C08 C09 C10 C14", genSpecs)
}

func genSpecs(e *Engine) (out []*Spec) {
	if e.pkgs[compilerP] == nil {
		return nil
	}
	g := &genW{
		e: e, dialect: Var("dialect", AnyS), quoteID: Var("cfgQuote", BoolS), goName: Var("goName", StrS), db: Var("tableName", StrS),
		auto: Var("autoKey", RefS), cols: Var("columns", refsS), keys: Var("keys", refsS), hn: map[string]*Term{},
		colT: e.pkgs[compilerP].Pkg.Scope().Lookup("Column").Type().(*types.Named),
	}
	g.joins = map[string]*genJoin{
		"name":   {",", func(c, i, x *Term) *Term { return g.mqi(g.name(c)) }},
		"valuer": {",", func(c, i, x *Term) *Term { return genValuer(c, Add(i, x)) }},
		"assign": {",", func(c, i, x *Term) *Term { return Cat(g.mqi(g.name(c)), S(" = "), genValuer(c, i)) }},
		"select": {",", func(c, i, x *Term) *Term { return genScanner(c) }},
		"value":  {",", func(c, i, x *Term) *Term { return genVal(c) }},
		"qname":  {",", func(c, i, x *Term) *Term { return genQuote(g.qi(g.name(c))) }},
		"pos":    {",", func(c, i, x *Term) *Term { return FmtInt(g.f(c, "Pos")) }},
		"line": {"", func(c, i, x *Term) *Term {
			return Cat(genVal(c), S(", // "), fmtWidth(x, g.f(c, "Pos")), S(" - "), g.name(c), S("\n"))
		}},
		"dest": {"", func(c, i, x *Term) *Term {
			return Cat(genDest(Cat(S("&v"), g.f(c, "GoPath")), g.f(c, "Type")), S(", // "), fmtWidth(x, g.f(c, "Pos")), S(" - "), g.name(c), S("\n"))
		}},
	}
	g.joins["mark"] = &genJoin{",", func(c, i, x *Term) *Term { return x }}
	g.joins["row"] = &genJoin{"+\",\"+", func(c, i, x *Term) *Term {
		return Cat(App("ext!strconv.Quote!0", StrS, x), S("+ strconv.Itoa((row * noOfColumn) + "), FmtInt(Add(i, I(1))), S(")"))
	}}
	g.init()
	out = append(out, g.joinNames(), g.repeated())

	// callee contracts
	mod := func(m string, f func(x *Exec, st *State, c *Call) []*State) {
		e.modulars["(*"+codegenP+".Generator)."+m] = &Spec{ID: "codegen.Generator." + m, Apply: f}
	}
	refT := func(x *Exec, st *State, v Val) *Term { return x.toTerm(st, v, types.NewPointer(g.colT)) }
	orErr := func(x *Exec, st *State, c *Call, ok, v *Term) []*State {
		return x.branch(st, ok, func(st *State) []*State {
			return c.Return(x, st, Scalar{T: v}, Scalar{T: AnyNil()})
		}, func(st *State) []*State {
			a := Fresh("err", AnyS)
			st.assume(Not(IsNilAny(a)))
			return c.Return(x, st, Scalar{T: S("")}, Scalar{T: a})
		})
	}
	mod("getOrValue", func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: App("gen.value", StrS, tm(c.Args[2]), refT(x, st, c.Args[3]))})
	})
	mod("sqlValuer", func(x *Exec, st *State, c *Call) []*State {
		r, i := refT(x, st, c.Args[1]), tm(c.Args[2])
		return orErr(x, st, c, genValuerOK(r, i), genValuer(r, i))
	})
	mod("sqlScanner", func(x *Exec, st *State, c *Call) []*State {
		r := refT(x, st, c.Args[1])
		return orErr(x, st, c, genScannerOK(r), genScanner(r))
	})
	mod("scanner", func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: genDest(tm(c.Args[2]), x.toTerm(st, c.Args[3], c.Sig.Params().At(2).Type()))})
	})
	mod("Quote", func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: genQuote(tm(c.Args[1]))})
	})
	e.modulars[codegenP+".methodName"] = &Spec{ID: "codegen.methodName", Apply: func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: App("gen.method", StrS, x.toTerm(st, c.Args[0], c.Sig.Params().At(0).Type()))})
	}}
	e.modulars["("+codegenP+".Expr).Format"] = &Spec{ID: "codegen.Expr.Format", Apply: func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: Fresh("formatted", StrS)})
	}}
	e.modulars[codegenP+".underlyingType"] = &Spec{ID: "codegen.underlyingType", Apply: func(x *Exec, st *State, c *Call) []*State {
		v := App("gen.underlying", AnyS, x.toTerm(st, c.Args[0], c.Sig.Params().At(0).Type()))
		st.assume(Not(IsNilAny(v)))
		return c.Return(x, st, x.fromTerm(st, v, c.Sig.Results().At(0).Type()), Scalar{T: Fresh("isPtr", BoolS)})
	}}
	mod("LogError", func(x *Exec, st *State, c *Call) []*State { return c.Return(x, st) })
	tmod := func(m string, f func(x *Exec, st *State, c *Call) []*State) {
		e.modulars["(*"+compilerP+".Table)."+m] = &Spec{ID: "compiler.Table." + m, Apply: f}
	}
	for m, q := range map[string]*Term{"InsertColumns": genInsertCols(), "ColumnsWithoutPK": genOtherCols()} {
		m, q := m, q
		tmod(m, func(x *Exec, st *State, c *Call) []*State {
			s := g.slice(x, st, q, m)
			s.Obj.Extern = false
			s.Nil = False
			return c.Return(x, st, s)
		})
	}
	for _, m := range []string{"Implements", "PtrImplements"} {
		m := m
		tmod(m, func(x *Exec, st *State, c *Call) []*State {
			i := x.toTerm(st, c.Args[1], c.Sig.Params().At(0).Type())
			v := App("gen.missing!"+m, RefS, i)
			return c.Return(x, st, x.fromTerm(st, v, c.Sig.Results().At(0).Type()), Scalar{T: False})
		})
	}

	tmod("GoPtrPaths", func(x *Exec, st *State, c *Call) []*State {
		t := c.Sig.Results().At(0).Type()
		v := x.fresh(st, "ptrPaths", t)
		if s, ok := v.(SliceV); ok { // every path is there and has a type
			q := x.content(st, s)
			pt := deref(t.Underlying().(*types.Slice).Elem())
			u := pt.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "Type" {
					n, lt, _ := hname(pt, []PathElem{{Field: i}})
					h := Var(n+"@0", ArrOf(RefS, sortOf(lt)))
					st.assume(Forall(func(j *Term) *Term {
						return Implies(And(Le(I(0), j), Lt(j, Len(q))), And(Ne(Nth(q, j), NilRef()), x_notNil(Select(h, Nth(q, j)))))
					}))
				}
			}
		}
		return c.Return(x, st, v)
	})

	fn := func(n string) func(e *Engine) *fnT { return func(e *Engine) *fnT { return e.Func(codegenP, n) } }
	z := I(0)
	ins, oth := genInsertCols(), genOtherCols()

	// the statement text, with the table's name known or asked at run time
	stmt := func(own *Term, open string, rest *Term) *Term {
		return Ite(own, Cat(genQuote(S(open)), S("+ v.TableName() +"), genQuote(rest)), genQuote(Cat(S(open), g.mqi(g.db), rest)))
	}
	fnText := func(name string, q, args *Term) *Term {
		return Cat(S("func (v "), g.goName, S(") "+name+"() (string, []any) {\nreturn "), q, S(", []any{"), args, S("}\n}\n"))
	}
	ok := func(c *Ctx) *Term { return x_isNil(c.Ret[1]) }
	hasAuto := Ne(g.auto, NilRef())
	oneKey := Eq(Len(g.keys), I(1))
	where := func(n *Term) *Term { // n placeholders come before
		one := func(k *Term) *Term { return Cat(g.mqi(g.name(k)), S(" = "), g.qv(Add(n, I(1)))) }
		nk := Len(g.keys)
		return Cat(S(" WHERE "), Ite(hasAuto, one(g.auto), Ite(oneKey, one(Nth(g.keys, I(0))),
			Cat(S("("), g.join("name", g.keys, nk, I(0)), S(") = ("), g.join("valuer", g.keys, nk, n), S(")")))))
	}
	// the columns an update binds: the writable ones and then the key
	andAuto := CatS(refsS, oth, UnitFor(refsS, g.auto))
	andKey := CatS(refsS, oth, UnitFor(refsS, Nth(g.keys, I(0))))
	andKeys := CatS(refsS, oth, g.keys)
	keyVals := Ite(hasAuto, genVal(g.auto), g.join("value", g.keys, Len(g.keys), I(0)))
	out = append(out, &Spec{
		ID: "codegen.Generator.buildInsertOne", Props: []string{"C08", "C14"}, Optional: true, OwnInv: true,
		Fn:    fn("gvBuildInsertOne"),
		Setup: g.setup,
		Inv:   g.inv(genLoop{"name", ins, z}, genLoop{"valuer", ins, z}, genLoop{"value", ins, z}, genLoop{"select", g.cols, z}),
		Post: func(c *Ctx) {
			r := tm(c.Ret[0])
			n := Len(ins)
			own := g.ownName(c)
			base := Cat(S(" ("), g.join("name", ins, n, I(0)), S(") VALUES ("), g.join("valuer", ins, n, I(0)), S(")"))
			all := func(ret *Term) *Term {
				q := stmt(own, "INSERT INTO ", Cat(base, ret, S(";")))
				return Or(Eq(r, fnText("InsertOneStmt", q, g.join("value", ins, n, I(0)))),
					And(Eq(n, Len(g.cols)), Eq(r, Cat(S("func (v "), g.goName, S(") InsertOneStmt() (string, []any) {\nreturn "), q, S(", v.Values()\n}\n")))))
			}
			pg := g.isPG(c)
			c.EnsureP("C08", "an insert lists the insertable columns, one placeholder and one value each, in order", Implies(And(ok(c), Not(pg)), all(S(""))))
			c.EnsureP("C08", "an insert lists the insertable columns, one placeholder and one value each, in order (PostgreSQL: and returns every column)",
				Implies(And(ok(c), pg), all(Cat(S(" RETURNING "), g.join("select", g.cols, Len(g.cols), I(0))))))
		},
	}, &Spec{
		ID: "codegen.Generator.buildFindByPK", Props: []string{"C08", "C14"}, Optional: true, OwnInv: true,
		Fn:    fn("gvBuildFindByPK"),
		Setup: func(c *Ctx) { g.setup(c); c.Assume(Or(hasAuto, Le(I(1), Len(g.keys)))) },
		Inv:   g.inv(genLoop{"name", g.keys, z}, genLoop{"valuer", g.keys, z}, genLoop{"value", g.keys, z}, genLoop{"select", g.cols, z}),
		Post: func(c *Ctx) {
			r := tm(c.Ret[0])
			own := g.ownName(c)
			sel := Cat(S("SELECT "), g.join("select", g.cols, Len(g.cols), I(0)), S(" FROM "))
			end := Cat(where(I(0)), S(" LIMIT 1;"))
			q := Ite(own, Cat(genQuote(sel), S("+ v.TableName() +"), genQuote(end)), genQuote(Cat(sel, g.mqi(g.db), end)))
			c.EnsureP("C08", "a find selects every column and compares the key with its own value", Implies(ok(c), Eq(r, fnText("FindOneByPKStmt", q, keyVals))))
		},
	}, &Spec{
		ID: "codegen.Generator.buildUpdateByPK", Props: []string{"C08", "C14"}, Optional: true, OwnInv: true, NoMemo: true,
		Fn: fn("gvBuildUpdateByPK"),
		Setup: func(c *Ctx) {
			g.setup(c)
			c.Assume(Or(hasAuto, Le(I(1), Len(g.keys))))
		},
		Inv: g.inv(genLoop{"name", g.keys, z}, genLoop{"valuer", g.keys, Len(oth)}, genLoop{"assign", oth, z}, genLoop{"value", andAuto, z}, genLoop{"value", andKey, z}, genLoop{"value", andKeys, z}),
		Post: func(c *Ctx) {
			r := tm(c.Ret[0])
			own := g.ownName(c)
			n := Len(oth)
			vals := func(q *Term) *Term { return g.join("value", q, Len(q), I(0)) }
			q := stmt(own, "UPDATE ", Cat(S(" SET "), g.join("assign", oth, n, I(0)), where(n), S(";")))
			c.EnsureP("C08", "an update assigns the writable columns their own values and compares the key with its own value",
				Implies(ok(c), Eq(r, fnText("UpdateOneByPKStmt", q, Ite(hasAuto, vals(andAuto), Ite(oneKey, vals(andKey), vals(andKeys)))))))
		},
	})
	out = append(out, g.sections()...)
	out = append(out, g.callees()...)
	return
}

// method: the name of the only method of one of the generator's interfaces.
func (g *genW) method(c *Ctx, global string) *Term {
	return App("gen.method", StrS, g.global(c, global))
}

func (g *genW) global(c *Ctx, name string) *Term {
	v := c.E.pkgs[codegenP].Var(name)
	if v == nil {
		return Var(name, RefS)
	}
	t := deref(v.Type())
	return c.X.toTerm(c.St0, c.X.load(c.St0, c.X.val(c.St0, v), t), t)
}

// specs of the sections that list columns
func (g *genW) sections() []*Spec {
	fn := func(n string) func(e *Engine) *fnT { return func(e *Engine) *fnT { return e.Func(codegenP, n) } }
	z, ins := I(0), genInsertCols()
	all := Len(g.cols)
	list := func(q *Term) *Term { return g.join("qname", q, Len(q), z) }
	width := func(q *Term) *Term { return Len(FmtInt(Len(q))) }
	missing := func(c *Ctx, m, i string) *Term {
		return Ne(App("gen.missing!"+m, RefS, g.global(c, i)), NilRef())
	}
	hasAuto := Ne(g.auto, NilRef())
	key := func(k *Term) *Term {
		return Cat(S("func (v "), g.goName, S(") PK() (string, int, any) {\n\treturn "), genQuote(g.qi(g.name(k))), S(", "), FmtInt(g.f(k, "Pos")), S(", "), genVal(k), S("\n}\n"))
	}
	qv0 := g.qv(z)
	dp := "m!" + sanitize("(dialect.Dialect).VarRune") + "!0"
	return []*Spec{{
		ID: "codegen.generateModels.columns", Props: []string{"C09", "C14"}, Optional: true, OwnInv: true,
		Fn: fn("gvColumns"), Setup: g.setup,
		Inv: g.inv(genLoop{"qname", g.cols, z}),
		Post: func(c *Ctx) {
			c.Ensure("Columns lists every column's quoted name, in order", Implies(missing(c, "Implements", "sqlColumner"),
				Eq(tm(c.Ret[0]), Cat(S("func ("), g.goName, S(") "), g.method(c, "sqlColumner"), S("() []string {\nreturn []string{"), list(g.cols), S("} // "), FmtInt(all), S("\n}\n")))))
		},
	}, {
		ID: "codegen.generateModels.key", Props: []string{"C09", "C14"}, Optional: true, OwnInv: true,
		Fn:    fn("gvPK"),
		Setup: g.setup,
		Inv:   g.inv(genLoop{"qname", g.keys, z}, genLoop{"pos", g.keys, z}, genLoop{"value", g.keys, z}),
		Post: func(c *Ctx) {
			r, n := tm(c.Ret[0]), Len(g.keys)
			has := Cat(S("func ("), g.goName, S(") HasPK() {}\n"))
			c.Ensure("no key, nothing", Implies(And(Not(hasAuto), Eq(n, z)), Eq(r, S(""))))
			c.Ensure("the auto-increment key: its name, position and value", Implies(hasAuto, Suffix(key(g.auto), r)))
			c.Ensure("the only key: its name, position and value", Implies(And(Not(hasAuto), Eq(n, I(1))), Eq(r, Cat(has, key(Nth(g.keys, z))))))
			c.Ensure("several keys: names, positions and values in the same order", Implies(And(Not(hasAuto), Lt(I(1), n)),
				Eq(r, Cat(has, S("func (v "), g.goName, S(") CompositeKey() ([]string, []int, []any) {\nreturn []string{"), list(g.keys),
					S("}, []int{"), g.join("pos", g.keys, n, z), S("}, []any{"), g.join("value", g.keys, n, z), S("}\n}\n")))))
		},
	}, {
		ID: "codegen.Generator.buildValuer", Props: []string{"C09", "C14"}, Optional: true, OwnInv: true,
		Fn: fn("gvBuildValuer"), Setup: g.setup,
		Inv: g.inv(genLoop{"line", ins, width(ins)}),
		Post: func(c *Ctx) {
			c.Ensure("Values lists the insertable columns' values, in order", Eq(tm(c.Ret[0]), Ite(Lt(z, Len(ins)),
				Cat(S("func (v "), g.goName, S(") "), g.method(c, "sqlValuer"), S("() []any {\nreturn []any{\n"), g.join("line", ins, Len(ins), width(ins)), S("}\n}\n")), S(""))))
		},
	}, {
		ID: "codegen.Generator.buildScanner", Props: []string{"C09", "C14"}, Optional: true, OwnInv: true,
		Fn: fn("gvBuildScanner"), Setup: g.setup,
		Inv: func(lc *LoopCtx) {
			for _, b := range lc.Strs() {
				b := b
				lc.Add("only appended to", func(st *State) *Term {
					if w, w0 := b(st), b(lc.Entry); w != nil && w0 != nil {
						return Prefix(w0, w)
					}
					return nil
				})
			}
			g.inv(genLoop{"dest", g.cols, width(g.cols)})(lc)
		},
		Post: func(c *Ctx) {
			r := tm(c.Ret[0])
			c.Ensure("Addrs is a method of the pointer", Prefix(Cat(S("func (v *"), g.goName, S(") "), g.method(c, "sqlScanner"), S("() []any {\n")), r))
			c.Ensure("Addrs lists every column's destination, in order", Suffix(Cat(S("return []any{\n"), g.join("dest", g.cols, all, width(g.cols)), S("}\n}\n")), r))
		},
	}, {
		ID: "codegen.generateModels.insert", Props: []string{"C10", "C09", "C14"}, Optional: true, OwnInv: true,
		Fn: fn("gvInsertSection"), Setup: g.setup,
		Models: map[string]Model{"(*" + codegenP + ".Generator).buildInsertOne": func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: AnyNil()})
		}},
		Inv: g.inv(genLoop{"qname", ins, z}, genLoop{"row", ins, fnEnc(App(dp, IntS, g.dialect))}),
		Post: func(c *Ctx) {
			r, n := tm(c.Ret[0]), Len(ins)
			gp, tp := fieldRef{c.Args[0], c.Fn.Params[0].Type()}, fieldRef{c.Args[2], c.Fn.Params[2].Type()}
			static := tm(c.at(c.St0, gp, "staticVar").v)
			ro := tm(c.at(c.St0, tp, "Readonly").v)
			cols := Ite(Eq(n, all), S(""), Cat(S("func ("), g.goName, S(") InsertColumns() []string {\nreturn []string{"), list(ins), S("} // "), FmtInt(n), S("\n}\n")))
			head := Cat(S("func ("), g.goName, S(") InsertPlaceholders(row int) string {\n"))
			none := Or(ro, Eq(n, z))
			mark := fnEnc(App(dp, IntS, g.dialect))
			c.Ensure("nothing to insert, nothing", Implies(none, Eq(r, S(""))))
			c.Ensure("unnumbered placeholders: one per insertable column", Implies(And(Not(none), static),
				Eq(r, Cat(cols, head, S("\treturn \"("), g.join("mark", ins, n, qv0), S(")\" // "), FmtInt(n), S("\n}\n")))))
			c.Ensure("numbered placeholders: row*n+1 to row*n+n", Implies(And(Not(none), Not(static)),
				Eq(r, Cat(cols, head, S("const noOfColumn = "), FmtInt(n), S("\nreturn \"(\"+"), g.join("row", ins, n, mark), S("+\")\"}\n")))))
		},
	}}
}

// repeated: n copies of ","+x are a comma and the n copies of x separated by
// commas; proved by induction on n.
func (g *genW) repeated() *Spec {
	s, q, n, x := Var("?s", StrS), Var("?q", refsS), Var("?n", IntS), Var("?x", StrS)
	is := func(n *Term) *Term { return Eq(RepStr(Cat(S(","), x), n), Cat(S(","), g.join("mark", q, n, x))) }
	g.e.th.AddLemma(&Lemma{Name: "gen-repeat", Vars: []*Term{s, q, n, x}, Pats: [][]*Term{{RepStr(s, n), g.join("mark", q, n, x)}},
		Body: Implies(And(Eq(s, Cat(S(","), x)), Le(I(1), n)), is(n)), Why: "proved by induction in the unit generator.repeat"})
	none := map[string]bool{"gen-repeat": true}
	return &Spec{ID: "generator.repeat", Props: []string{"C10"}, Lemma: func(e *Engine) []*Obl {
		return []*Obl{
			{Unit: "generator.repeat", Kind: "lemma", Name: "base: one", Exclude: none, PC: []*Term{Eq(n, I(1))}, Goal: is(n)},
			{Unit: "generator.repeat", Kind: "lemma", Name: "step: one more", Exclude: none, PC: []*Term{Le(I(1), n), is(n)}, Goal: is(Add(n, I(1)))},
		}
	}}
}

// ownName: the table answers TableName itself.
func (g *genW) ownName(c *Ctx) *Term {
	ps := c.E.pkgs[codegenP]
	v := ps.Var("sqlTabler")
	if v == nil {
		return Var("ownName", BoolS)
	}
	t := deref(v.Type())
	i := c.X.load(c.St0, c.X.val(c.St0, v), t)
	return Eq(App("gen.missing!Implements", RefS, c.X.toTerm(c.St0, i, t)), NilRef())
}

func (g *genW) isPG(c *Ctx) *Term {
	gp := fieldRef{c.Args[0], c.Fn.Params[0].Type()}
	return Eq(tm(c.at(c.St0, gp, "config", "Driver").v), S("postgres"))
}

// joinNames: joining a list of quoted names is writing the columns' names one
// after the other; proved by induction on the length.
func (g *genW) joinNames() *Spec {
	r, q, n, m := Var("?r", SeqOf(StrS)), Var("?q", refsS), Var("?n", IntS), Var("?m", IntS)
	same := func(n *Term) *Term {
		return Forall(func(j *Term) *Term {
			return Implies(And(Le(I(0), j), Lt(j, n)), Eq(Nth(r, j), g.mqi(g.name(Nth(q, j)))))
		})
	}
	js := func(n *Term) *Term { return JoinSep(r, n, S(",")) }
	jn := func(n *Term) *Term { return g.join("name", q, n, I(0)) }
	g.e.th.AddLemma(&Lemma{Name: "gen-join-names", Vars: []*Term{r, q, n, m}, Pats: [][]*Term{{js(n), jn(m)}},
		Body: Implies(And(Eq(n, m), same(n)), Eq(js(n), jn(m))), Why: "proved by induction in the unit generator.join-names"})
	none := map[string]bool{"gen-join-names": true}
	return &Spec{ID: "generator.join-names", Props: []string{"C08"}, Lemma: func(e *Engine) []*Obl {
		return []*Obl{
			{Unit: "generator.join-names", Kind: "lemma", Name: "base: no names", Exclude: none, PC: []*Term{Le(n, I(0))}, Goal: Eq(js(n), jn(n))},
			{Unit: "generator.join-names", Kind: "lemma", Name: "step: one more name", Exclude: none,
				PC:   []*Term{Le(I(0), n), same(Add(n, I(1))), Eq(js(n), jn(n))},
				Goal: Eq(js(Add(n, I(1))), jn(Add(n, I(1))))},
		}
	}}
}

func x_notNil(t *Term) *Term {
	if t.Sort == AnyS {
		return Not(IsNilAny(t))
	}
	return Ne(t, NilRef())
}

// callees: the contracts the sections rely on.
func (g *genW) callees() (out []*Spec) {
	e := g.e
	all := Len(g.cols)
	keep := func(name string, skip func(c, auto *Term) *Term) func(n *Term) *Term {
		e.th.Rec("gen."+name, refsS, 2, func(a []*Term) *Term {
			q, n := a[0], a[1]
			p := Sub(n, I(1))
			return Ite(Le(n, I(0)), Empty(refsS), CatS(refsS, App("gen."+name, refsS, q, p, a[2]), Ite(skip(Nth(q, p), a[2]), Empty(refsS), UnitFor(refsS, Nth(q, p)))))
		})
		return func(n *Term) *Term { return App("gen."+name, refsS, g.cols, n, g.auto) }
	}
	names := ArrOf(StrS, BoolS)
	e.th.Rec("gen.names", names, 2, func(a []*Term) *Term {
		q, n := a[0], a[1]
		p := Sub(n, I(1))
		return Ite(Le(n, I(0)), App("constfalse!"+StrS.Name, names), Store(App("gen.names", names, q, p), g.name(Nth(q, p)), True))
	})
	keyNames := App("gen.names", names, g.keys, Len(g.keys))
	insertable := keep("insertable", func(c, auto *Term) *Term { return Or(g.f(c, "Readonly"), Eq(c, auto)) })
	others := keep("others", func(c, auto *Term) *Term {
		return Or(Select(keyNames, g.name(c)), g.f(c, "Readonly"), Eq(c, auto))
	})
	table := func(id string, cols func(n *Term) *Term, what string) *Spec {
		return &Spec{
			ID: "compiler.Table." + id, Props: []string{"C08", "C09", "C10"}, Optional: true, OwnInv: true,
			Fn: func(e *Engine) *fnT { return e.Method(compilerP, "Table", id, true) },
			Setup: func(c *Ctx) {
				tp := c.fresh("t", c.Fn.Params[0].Type())
				c.Args = []Val{tp}
				g.table(c, tp)
			},
			Inv: func(lc *LoopCtx) {
				for _, i := range lc.Ints() {
					i := i
					lc.Add("not below its start", func(st *State) *Term { return leOr(i(lc.Entry), i(st)) })
					for _, q := range []*Term{g.cols, g.keys} {
						q := q
						lc.Add("within", func(st *State) *Term {
							if n := i(st); n != nil {
								return Le(n, Len(q))
							}
							return nil
						})
					}
					for _, r := range lc.Seqs(refsS) {
						r := r
						lc.Add("kept so far", func(st *State) *Term {
							n, s := i(st), r(st)
							if n == nil || s == nil {
								return nil
							}
							return Eq(s, cols(n))
						})
					}
					for _, m := range lc.Maps(StrS) {
						m := m
						lc.Add("names so far", func(st *State) *Term {
							n, s := i(st), m(st)
							if n == nil || s == nil {
								return nil
							}
							return Eq(s, App("gen.names", names, g.keys, n))
						})
					}
				}
			},
			Post: func(c *Ctx) {
				c.Ensure(what, Eq(c.X.content(c.St, c.Ret[0].(SliceV)), cols(all)))
				c.Ensure("the table's columns are left alone", Eq(c.X.content(c.St, c.at(c.St, fieldRef{c.Args[0], c.Fn.Params[0].Type()}, "Columns").v.(SliceV)), g.cols))
			},
		}
	}
	out = append(out,
		table("InsertColumns", insertable, "the columns that are neither read-only nor auto-incremented, in order"),
		table("ColumnsWithoutPK", others, "the columns that are neither keys, read-only nor auto-incremented, in order"))
	gen := func(id string, props []string, args func(c *Ctx) []Val, post func(c *Ctx)) *Spec {
		return &Spec{
			ID: "codegen.Generator." + id, Props: props, Optional: true, OwnInv: true,
			Fn: func(e *Engine) *fnT { return e.Method(codegenP, "Generator", id, true) },
			Setup: func(c *Ctx) {
				gp := c.fresh("g", c.Fn.Params[0].Type())
				g.generator(c, gp, true)
				c.Args = append([]Val{gp}, args(c)...)
			},
			Inv: func(lc *LoopCtx) {
				s := Var("name", StrS)
				for _, i := range lc.Ints() {
					for _, b := range lc.Seqs(StrS) {
						i, b := i, b
						lc.Add("within", func(st *State) *Term {
							if n := i(st); n != nil {
								return And(Le(I(0), n), Le(n, Len(s)))
							}
							return nil
						})
						lc.Add("copied so far", func(st *State) *Term {
							n, w, w0 := i(st), b(st), b(lc.Entry)
							if n == nil || w == nil || w0 == nil {
								return nil
							}
							return Eq(w, Cat(w0, Extract(s, I(0), n)))
						})
					}
				}
			},
			Post: post,
		}
	}
	name := func(c *Ctx) []Val { return []Val{Scalar{T: Var("name", StrS)}} }
	col := func(c *Ctx) []Val {
		v := Var("column", RefS)
		c.Assume(Ne(v, NilRef()))
		return []Val{c.X.fromTerm(c.St, v, types.NewPointer(g.colT))}
	}
	out = append(out,
		gen("Quote", []string{"C08", "C09", "C10"}, name, func(c *Ctx) {
			c.Ensure("the text between two quote characters", Eq(tm(c.Ret[0]), genQuote(Var("name", StrS))))
		}),
		gen("MustQuoteIdentifier", []string{"C08"}, name, func(c *Ctx) {
			c.Ensure("the identifier, quoted", Eq(tm(c.Ret[0]), g.mqi(Var("name", StrS))))
		}),
		gen("QuoteIdentifier", []string{"C09"}, name, func(c *Ctx) {
			c.Ensure("the identifier, quoted when asked to", Eq(tm(c.Ret[0]), g.qi(Var("name", StrS))))
		}),
		gen("sqlScanner", []string{"C08"}, col, func(c *Ctx) {
			c.Ensure("a column without a template is selected by its quoted name", And(Eq(tm(c.Ret[0]), g.mqi(g.name(Var("column", RefS)))), x_isNil(c.Ret[1])))
		}),
		gen("sqlValuer", []string{"C08"}, func(c *Ctx) []Val { return append(col(c), Scalar{T: Var("idx", IntS)}) }, func(c *Ctx) {
			c.Ensure("a column without a template is bound by the placeholder of its position", And(Eq(tm(c.Ret[0]), g.qv(Add(Var("idx", IntS), I(1)))), x_isNil(c.Ret[1])))
		}))
	for _, d := range []string{"mysql", "postgres", "sqlite"} {
		d := d
		p := modP + "/cmd/sqlgen/codegen/dialect/" + d
		for _, m := range []string{"QuoteVar", "VarRune", "QuoteRune"} {
			m := m
			out = append(out, &Spec{
				ID: "dialect." + d + "." + m, Props: []string{"C08", "C10"}, Optional: true, OwnInv: true,
				Fn: func(e *Engine) *fnT {
					return e.Method(p, d+"Driver", m, true)
				},
				Setup: func(c *Ctx) {
					c.Args = nil
					for i, q := range c.Fn.Params {
						if i > 0 || m == "QuoteVar" && len(c.Fn.Params) == 1 {
							c.Args = append(c.Args, Scalar{T: Var("n", IntS)})
							continue
						}
						c.Args = append(c.Args, c.fresh("d", q.Type()))
					}
				},
				Post: func(c *Ctx) {
					r := tm(c.Ret[0])
					switch {
					case m == "QuoteVar" && d == "postgres":
						c.Ensure("$n is the n-th placeholder", Eq(r, Cat(S("$"), FmtInt(Var("n", IntS)))))
					case m == "QuoteVar":
						c.Ensure("? is every placeholder", Eq(r, S("?")))
					case m == "VarRune" && d == "postgres":
						c.Ensure("placeholders start with $", Eq(r, I('$')))
					case m == "VarRune":
						c.Ensure("placeholders start with ?", Eq(r, I('?')))
					case d == "mysql":
						c.Ensure("identifiers are quoted with backticks", Eq(r, I('`')))
					default:
						c.Ensure("identifiers are quoted with double quotes", Eq(r, I('"')))
					}
				},
			})
		}
	}
	return
}
