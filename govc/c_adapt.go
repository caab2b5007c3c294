package main

// C17 (and C02): adapters that hand the driver value to the type's own decoder.

import (
	"go/types"
	"strings"
)

// recorder models a user decoder: it records receiver and argument and returns
// any error.
func recorder(argText bool) Model {
	return func(x *Exec, st *State, c *Call) []*State {
		n := st.Ghost["calls"]
		if n == nil {
			n = I(0)
		}
		st.setGhost("calls", Add(n, I(1)))
		recv := AnyNil()
		switch p := c.Args[0].(type) {
		case PtrV:
			if len(p.Path) == 0 {
				recv = BoxT("recv", refOf(p.Obj))
			}
		}
		st.setGhost("recv", recv)
		if argText {
			st.setGhost("arg", x.strOf(st, c.Args[1]))
		} else {
			st.setGhost("arg", x.anyTerm(st, c.Args[1]))
		}
		e := Fresh("usererr", AnyS)
		st.setGhost("err", e)
		return c.Return(x, st, Scalar{T: e})
	}
}

func init() {
	register("C02 C17", func(e *Engine) (out []*Spec) {
		// text of each driver type
		text := map[string]func(u *Term) *Term{
			tkStr: func(u *Term) *Term { return u }, tkBytes: func(u *Term) *Term { return u },
			tkBool: func(u *Term) *Term { return Ite(u, S("\x01"), S("\x00")) },
			tkI64:  FmtInt,
			tkF64:  func(u *Term) *Term { return FmtFloat(64, I('f'), I(-1), u) },
			tkTime: func(u *Term) *Term { return App("ext!(time.Time).MarshalText!0", sliceSort(types.Typ[types.Byte]), u) },
		}
		kinds := []string{tkStr, tkBytes, tkBool, tkI64, tkF64, tkTime}
		mk := func(id, fn string, fnOf func(e *Engine) *fnT, ptr bool, model, arg string, supported []string, nullClears bool) *Spec {
			return &Spec{
				ID: id, Props: []string{"C17", "C02"}, Fn: fnOf,
				Models: map[string]Model{model: recorder(arg == "text")},
				Setup: func(c *Ctx) {
					v := Var("v", AnyS)
					c.spec.DriverArgs[v] = true
					pt := c.Fn.Params[0].Type()
					dst := c.fresh("dst", pt).(PtrV)
					target := dst.Obj
					if ptr {
						inner := c.fresh("inner", pt.Underlying().(*types.Pointer).Elem()).(PtrV)
						c.St.Heap[dst.Obj] = inner
						target = inner.Obj
					}
					c.V["target"] = target
					c.Args = []Val{dst, Scalar{T: v}}
					c.Assume(Le(I(0), TypeOf(v)))
				},
				Post: func(c *Ctx) {
					v := Var("v", AnyS)
					dst := c.Args[0].(PtrV)
					target := c.V["target"].(*Object)
					errNil := x_isNil(c.Ret[0])
					ret := c.X.anyTerm(c.St, c.Ret[0])
					calls := c.St.Ghost["calls"]
					if calls == nil {
						calls = I(0)
					}
					one := Eq(calls, I(1))
					same := False
					if calls != I(0) {
						same = And(Eq(c.St.Ghost["recv"], BoxT("recv", refOf(target))), Eq(ret, c.St.Ghost["err"]))
					}
					v1 := c.St.Heap[dst.Obj]
					kept := valEq(c.X, c.St0, c.St0.Heap[dst.Obj], c.St, v1, dst.Obj.Type)
					if nullClears {
						cleared := False
						if ptr {
							if s, ok := v1.(Scalar); ok {
								cleared = Eq(s.T, NilRef())
							}
						} else {
							cleared = isZeroVal(c.X, c.St, v1, dst.Obj.Type)
						}
						c.EnsureP("C02", "NULL succeeds and clears the target", Implies(IsNilAny(v), And(errNil, cleared)))
						c.EnsureP("C17", "NULL is not decoded", Implies(IsNilAny(v), Eq(calls, I(0))))
					} else {
						c.EnsureP("C17", "NULL is an error and nothing is decoded", Implies(IsNilAny(v), And(Not(errNil), Eq(calls, I(0)))))
					}
					var known []*Term
					for _, k := range supported {
						is := isType(v, k)
						known = append(known, is)
						u := unboxDriver(k, v)
						got := c.St.Ghost["arg"]
						right := False
						if got != nil {
							if arg == "text" {
								want := text[k](u)
								if k == tkTime {
									want = Field(want, 1)
								}
								right = Eq(got, want)
							} else {
								right = And(Eq(TypeOf(got), I(typeID(k))), Eq(unboxDriver(k, got), u))
							}
						}
						if k == tkTime && arg == "text" {
							er := App("ext!(time.Time).MarshalText!1", AnyS, u)
							c.EnsureP("C17", "a time the text form of which fails is an error and nothing is decoded", Implies(And(is, Not(IsNilAny(er))), And(Not(errNil), Eq(calls, I(0)))))
							is = And(is, IsNilAny(er))
						}
						c.EnsureP("C17", "the decoder is called once, on the target, with the delivered "+k+", and its error is returned", Implies(is, And(one, same, right, kept)))
					}
					c.EnsureP("C17", "an unsupported driver type is an error and nothing is decoded", Implies(And(Not(IsNilAny(v)), Not(Or(known...))), And(Not(errNil), Eq(calls, I(0)), kept)))
					c.frame(dst.Obj)
				},
			}
		}
		drv := func(fn string) func(e *Engine) *fnT { return func(e *Engine) *fnT { return e.Func(encP, fn) } }
		tm_, sm := "(*"+encP+".gvText).UnmarshalText", "(*"+encP+".gvScan).Scan"
		out = append(out,
			mk("encoding.TextScanner.val", "", drv("gvTextVal"), false, tm_, "text", kinds, true),
			mk("encoding.TextScanner.ptr", "", drv("gvTextPtr"), true, tm_, "text", kinds, true),
			mk("encoding.PtrScanner", "", drv("gvScanPtr"), true, sm, "any", kinds, true),
			mk("types.BinaryUnmarshaler", "", func(e *Engine) *fnT { return e.Func(sequelP+"/types", "gvBinScan") }, false, "(*"+sequelP+"/types.gvBin).UnmarshalBinary", "text", []string{tkBytes}, false),
		)
		for _, n := range []string{"Val", "Ptr", "Sl", "Str", "PS"} {
			out = append(out, &Spec{ID: "encoding.JSONScanner." + n, Props: []string{"C02"}, Fn: drv("gvJSON" + n),
				Setup: func(c *Ctx) {
					v := Var("v", AnyS)
					c.Args = []Val{c.fresh("dst", c.Fn.Params[0].Type()), Scalar{T: v}}
					c.Assume(IsNilAny(v))
				},
				Post: func(c *Ctx) {
					dst := c.Args[0].(PtrV)
					c.Ensure("NULL succeeds and clears the target", And(x_isNil(c.Ret[0]), isZeroVal(c.X, c.St, c.St.Heap[dst.Obj], dst.Obj.Type)))
					c.frame(dst.Obj)
				}})
		}
		// encoders: the type's own bytes and error, unchanged
		enc := func(id, pkg, fn, model string) *Spec {
			return &Spec{ID: id, Props: []string{"C17"}, Fn: func(e *Engine) *fnT { return e.Func(pkg, fn) },
				Models: map[string]Model{model: func(x *Exec, st *State, c *Call) []*State {
					bt := types.NewSlice(types.Typ[types.Byte])
					b := x.fromTerm(st, Fresh("userbytes", sortOf(bt)), bt)
					st.setGhost("calls", Add(ghost(st, "calls"), I(1)))
					st.setGhost("out", x.toTerm(st, b, bt))
					e := Fresh("usererr", AnyS)
					st.setGhost("err", e)
					return c.Return(x, st, b, Scalar{T: e})
				}},
				Post: func(c *Ctx) {
					ret := c.X.anyTerm(c.St, c.Ret[0])
					er := c.X.anyTerm(c.St, c.Ret[1])
					c.Ensure("the type is asked exactly once", Eq(ghost(c.St, "calls"), I(1)))
					if o := c.St.Ghost["out"]; o != nil {
						c.Ensure("its error is returned unchanged", Eq(er, c.St.Ghost["err"]))
						c.Ensure("its bytes are the column value, unchanged", Implies(IsNilAny(er), And(Eq(TypeOf(ret), I(typeID(tkBytes))), Eq(UnboxT(tkBytes, o.Sort, ret), o))))
					}
				}}
		}
		out = append(out, enc("encoding.TextValue", encP, "gvTextEnc", "("+encP+".gvText).MarshalText"),
			enc("types.BinaryMarshaler", sequelP+"/types", "gvBinEnc", "("+sequelP+"/types.gvBin).MarshalBinary"))
		return
	})
}

func ghost(st *State, k string) *Term {
	if t := st.Ghost[k]; t != nil {
		return t
	}
	return I(0)
}

var _ = strings.Join
