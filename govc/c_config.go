package main

import "go/types"

// C16: merging configurations and filling in defaults.

const codegenP = modP + "/cmd/sqlgen/codegen"

// structAt: field by name through pointers; each step returns value and type.
type fieldRef struct {
	v Val
	t types.Type
}

func (c *Ctx) at(st *State, p fieldRef, names ...string) fieldRef {
	for _, n := range names {
		if pt, ok := p.t.Underlying().(*types.Pointer); ok {
			p = fieldRef{c.X.load(st, p.v, pt.Elem()), pt.Elem()}
		}
		u := p.t.Underlying().(*types.Struct)
		ok := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				s, is := p.v.(StructV)
				if !is {
					s = c.X.fromTerm(st, tm(p.v), p.t).(StructV)
				}
				p, ok = fieldRef{s.F[i], u.Field(i).Type()}, true
				break
			}
		}
		if !ok {
			panic("no field " + n)
		}
	}
	return p
}

func init() {
	worldNamed("codegen").load = func(e *Engine) error {
		return e.Load(repoDir+"/cmd/sqlgen", nil, []string{modP + "/...", "github.com/samber/lo"}, "./codegen")
	}
	registerIn("codegen", "C16", func(e *Engine) (out []*Spec) {
		isNil := func(f fieldRef) *Term {
			n, ok := isNilVal(f.v)
			if !ok {
				panic("nil test")
			}
			return n
		}
		merge := &Spec{
			ID: "codegen.Config.Merge", Merge: true, Props: []string{"C16"},
			Fn: func(e *Engine) *fnT { return e.Method(codegenP, "Config", "Merge", true) },
			Setup: func(c *Ctx) {
				t := c.Fn.Params[0].Type()
				c.Args = []Val{c.fresh("base", t), c.fresh("over", t)}
			},
			Post: func(c *Ctx) {
				X, pt := c.X, c.Fn.Params[0].Type()
				b, o := fieldRef{c.Args[0], pt}, fieldRef{c.Args[1], pt}
				r := fieldRef{c.Ret[0], pt}
				c.Ensure("the merged configuration is the receiver", X.equal(c.St, c.Ret[0], c.Args[0], pt, pt))
				str := func(st *State, f fieldRef, names ...string) *Term { return tm(c.at(st, f, names...).v) }
				over := func(o, b, d *Term) *Term { return Ite(Ne(o, S("")), o, Ite(Ne(b, S("")), b, d)) }
				for _, f := range []struct {
					p []string
					d string
				}{{[]string{"Driver"}, "mysql"}, {[]string{"NamingConvention"}, "snake_case"}, {[]string{"Tag"}, "sql"}, {[]string{"Exec", "Filename"}, "generated.go"}, {[]string{"Getter", "Prefix"}, "Column"}} {
					c.Ensure(f.p[len(f.p)-1]+": the override's, else the base's, else the default", Eq(str(c.St, r, f.p...), over(str(c.St0, o, f.p...), str(c.St0, b, f.p...), S(f.d))))
				}
				for _, f := range [][]string{{"QuoteIdentifier"}, {"ReadOnly"}, {"Exec", "SkipEmpty"}, {"OmitGetters"}, {"SourceMap"}, {"SkipHeader"}, {"SkipModTidy"}} {
					c.Ensure(f[len(f)-1]+": on when either asks for it", Eq(str(c.St, r, f...), Or(str(c.St0, o, f...), str(c.St0, b, f...))))
				}
				// optional flag
				so, sb, sr := c.at(c.St0, o, "Strict"), c.at(c.St0, b, "Strict"), c.at(c.St, r, "Strict")
				bt := types.Typ[types.Bool]
				ld := func(st *State, f fieldRef) *Term { return tm(X.load(st, f.v, bt)) }
				c.Ensure("Strict: the override's value when it has one", Implies(Not(isNil(so)), And(Not(isNil(sr)), Eq(ld(c.St, sr), ld(c.St0, so)))))
				c.Ensure("Strict: else the base's", Implies(And(isNil(so), isNil(sb)), isNil(sr)))
				c.Ensure("Strict: else the base's value", Implies(And(isNil(so), Not(isNil(sb))), And(Not(isNil(sr)), Eq(ld(c.St, sr), ld(c.St0, sb)))))
				// sources
				qo, qb, qr := c.at(c.St0, o, "Source").v.(SliceV), c.at(c.St0, b, "Source").v.(SliceV), c.at(c.St, r, "Source").v.(SliceV)
				c.Ensure("Source: the override's list when it has one", Implies(Not(qo.Nil), Eq(X.content(c.St, qr), X.content(c.St0, qo))))
				c.Ensure("Source: else the base's list", Implies(And(qo.Nil, Not(qb.Nil)), Eq(X.content(c.St, qr), X.content(c.St0, qb))))
				// blocks
				block := func(name string, fs []string, def map[string]string) {
					bo, bb, br := c.at(c.St0, o, name), c.at(c.St0, b, name), c.at(c.St, r, name)
					for _, f := range fs {
						ov, bv := str(c.St0, bo, f), str(c.St0, bb, f)
						eo := Ite(isNil(bo), S(""), ov)
						eb := Ite(isNil(bb), S(""), bv)
						want := Eq(str(c.St, br, f), over(eo, eb, S(def[f])))
						if name == "Migration" {
							c.Ensure(name+"."+f+": the override's, else the base's, else the default", Implies(Or(Not(isNil(bo)), Not(isNil(bb))), And(Not(isNil(br)), want)))
						} else {
							c.Ensure(name+"."+f+": the override's, else the base's, else the default", And(Not(isNil(br)), want))
						}
					}
				}
				block("Migration", []string{"DSN", "Package", "Dir", "Filename"}, map[string]string{"Package": "migrate", "Dir": "migrate", "Filename": "migrate.go"})
				c.Ensure("Migration: none when neither has one", Implies(And(isNil(c.at(c.St0, o, "Migration")), isNil(c.at(c.St0, b, "Migration"))), isNil(c.at(c.St, r, "Migration"))))
				block("Database", []string{"Package", "Dir", "Filename"}, map[string]string{"Package": "db", "Dir": "db", "Filename": "db.go"})
				do, db, dr := c.at(c.St0, o, "Database"), c.at(c.St0, b, "Database"), c.at(c.St, r, "Database")
				oo, ob, or := c.at(c.St0, do, "Operator"), c.at(c.St0, db, "Operator"), c.at(c.St, dr, "Operator")
				for _, f := range []string{"Package", "Dir", "Filename"} {
					eo := Ite(Or(isNil(do), isNil(oo)), S(""), str(c.St0, oo, f))
					eb := Ite(Or(isNil(db), isNil(ob)), S(""), str(c.St0, ob, f))
					got := str(c.St, or, f)
					c.Ensure("Database.Operator."+f+": the override's when given", And(Not(isNil(or)), Implies(Ne(eo, S("")), Eq(got, eo))))
					if f == "Filename" {
						c.Ensure("Database.Operator.Filename: else the base's, else the default", Implies(Eq(eo, S("")), Eq(got, Ite(Ne(eb, S("")), eb, S("operator.go")))))
						continue
					}
					// a base that says the same as its database says nothing of its own
					edb := Ite(isNil(db), S(""), str(c.St0, db, f))
					c.Ensure("Database.Operator."+f+": else the base's own", Implies(And(Eq(eo, S("")), Ne(eb, S("")), Ne(eb, edb)), Eq(got, eb)))
					c.Ensure("Database.Operator."+f+": else the database's", Implies(And(Eq(eo, S("")), Or(Eq(eb, S("")), Eq(eb, edb))), Or(And(Eq(got, eb), Ne(eb, S(""))), Eq(got, str(c.St, dr, f)))))
				}
				// data types
				k := Var("key!dt", StrS)
				get := func(st *State, f fieldRef) (*Term, *Term) {
					m, _, ok := X.mapC(st, f.v, f.t)
					if !ok {
						return False, NilRef()
					}
					return mapSel(m.Has, k), mapGet(m.Val, k)
				}
				mo, mb, mr := c.at(c.St0, o, "DataTypes"), c.at(c.St0, b, "DataTypes"), c.at(c.St, r, "DataTypes")
				ho, vo := get(c.St0, mo)
				hb, vb := get(c.St0, mb)
				hr, vr := get(c.St, mr)
				c.Ensure("DataTypes: the override's entries", Implies(And(Not(isNil(mo)), ho), And(hr, Eq(vr, vo))))
				c.Ensure("DataTypes: and the base's others", Implies(Not(And(Not(isNil(mo)), ho)), And(Eq(hr, And(Not(isNil(mb)), hb)), Implies(hr, Eq(vr, vb)))))
				c.Ensure("DataTypes: can be filled", Not(isNil(mr)))
			},
		}
		fill := &Spec{
			ID: "codegen.Config.initIfEmpty", Merge: true, Props: []string{"C16"}, Optional: true,
			Fn:    func(e *Engine) *fnT { return e.Method(codegenP, "Config", "initIfEmpty", true) },
			Setup: func(c *Ctx) { c.Args = []Val{c.fresh("cfg", c.Fn.Params[0].Type())} },
			Post: func(c *Ctx) {
				pt := c.Fn.Params[0].Type()
				b := fieldRef{c.Args[0], pt}
				str := func(st *State, names ...string) *Term { return tm(c.at(st, b, names...).v) }
				for _, f := range [][]string{{"Driver"}, {"NamingConvention"}, {"Tag"}, {"Exec", "Filename"}, {"Getter", "Prefix"}} {
					c.Ensure(f[len(f)-1]+" is set, and not changed when it was", And(Ne(str(c.St, f...), S("")), Implies(Ne(str(c.St0, f...), S("")), Eq(str(c.St, f...), str(c.St0, f...)))))
				}
				for _, f := range [][]string{{"QuoteIdentifier"}, {"ReadOnly"}, {"Exec", "SkipEmpty"}, {"OmitGetters"}, {"SourceMap"}, {"SkipHeader"}, {"SkipModTidy"}, {"Strict"}} {
					t := c.at(c.St0, b, f...).t
					c.Ensure(f[len(f)-1]+" is not changed", c.X.equal(c.St, c.at(c.St, b, f...).v, c.at(c.St0, b, f...).v, t, t))
				}
				s0 := c.at(c.St0, b, "Source").v.(SliceV)
				c.Ensure("Source is not changed when given", Implies(Not(s0.Nil), Eq(c.X.content(c.St, c.at(c.St, b, "Source").v.(SliceV)), c.X.content(c.St0, s0))))
			},
		}
		return []*Spec{merge, fill}
	})
}
