package main

// C01, C02, C19: scalar scanners.

import (
	"go/types"
	"strings"
)

const encP = sequelP + "/encoding"

// scanCase: a driver type the scanner accepts: when ok holds, the target must
// become val; otherwise Scan must fail.
type scanCase struct {
	typ      string
	optional bool // need not be supported
	loose    bool // may be refused even when ok
	f        func(c *Ctx, u *Term) (ok, val *Term)
}

type scanOracle struct {
	cases []scanCase
	cmp   func(c *Ctx, got Val, t types.Type, want *Term) *Term
}

const (
	tkBytes = "[]uint8"
	tkStr   = "string"
	tkI64   = "int64"
	tkF64   = "float64"
	tkBool  = "bool"
	tkTime  = "time.Time"
)

var driverSort = map[string]*Sort{tkStr: StrS, tkI64: IntS, tkF64: F64S, tkBool: BoolS, tkTime: TimeS}

func unboxDriver(k string, v *Term) *Term {
	if k == tkBytes {
		return Field(UnboxT(k, sliceSort(types.Typ[types.Byte]), v), 1)
	}
	return UnboxT(k, driverSort[k], v)
}

func isType(v *Term, k string) *Term { return Eq(TypeOf(v), I(typeID(k))) }

// frame: nothing reachable by the caller other than the listed objects changed.
func (c *Ctx) frame(except ...*Object) {
	skip := map[*Object]bool{}
	for _, o := range except {
		skip[o] = true
	}
	for o, v0 := range c.St0.Heap {
		if !o.Extern && !o.Global || skip[o] {
			continue
		}
		v1, ok := c.St.Heap[o]
		if !ok {
			continue
		}
		c.Ensure("nothing but the target changes ("+o.Name+")", valEq(c.X, c.St0, v0, c.St, v1, objContainer(o)))
	}
	for n, t := range c.St.H {
		c.Ensure("no other memory changes ("+n+")", Eq(c.X.harrEntry(c.St0, n, t.Sort), t))
	}
}

// valEq: structural equality of two values in two states (slices by backing object).
func valEq(x *Exec, s0 *State, a Val, s1 *State, b Val, t types.Type) *Term {
	switch a := a.(type) {
	case SliceV:
		bb, ok := b.(SliceV)
		if !ok {
			return False
		}
		if a.Obj != bb.Obj {
			if a.Nil == True && bb.Nil == True {
				return True
			}
			return False
		}
		return And(Eq(a.Off, bb.Off), Eq(a.Len, bb.Len), Eq(a.Nil, bb.Nil))
	case StructV:
		bb, ok := b.(StructV)
		if !ok {
			return False
		}
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range a.F {
			cs = append(cs, valEq(x, s0, a.F[i], s1, bb.F[i], u.Field(i).Type()))
		}
		return And(cs...)
	case PtrV:
		bb, ok := b.(PtrV)
		return B(ok && a.Obj == bb.Obj && pathEq(a.Path, bb.Path))
	case MapV:
		bb, ok := b.(MapV)
		return B(ok && a.Obj == bb.Obj)
	case MapC:
		bb, ok := b.(MapC)
		return B(ok && a.Has == bb.Has && a.Val == bb.Val && a.Len == bb.Len)
	case FuncV:
		_, ok := b.(FuncV)
		return B(ok)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		get := func(v Val) *Term {
			switch v := v.(type) {
			case Scalar:
				return v.T
			case ArrV:
				cs := contentSort(sl.Elem())
				r := Empty(cs)
				for _, e := range v.E {
					r = CatS(cs, r, UnitFor(cs, x.toTerm(s1, e, sl.Elem())))
				}
				return r
			}
			return nil
		}
		if p, q := get(a), get(b); p != nil && q != nil {
			return Eq(p, q)
		}
	}
	return Eq(x.toTerm(s0, a, t), x.toTerm(s1, b, t))
}

// scanSpec: contract of `func(dst *D, [strict bool,] v any) error`.
func scanSpec(id, fn string, props []string, ptr bool, strictArg int, orc func(strict *Term) scanOracle) *Spec {
	main := props[0]
	return &Spec{
		ID: id, Props: props,
		Fn: func(e *Engine) *fnT { return e.Func(encP, fn) },
		Setup: func(c *Ctx) {
			v := Var("v", AnyS)
			c.spec.DriverArgs[v] = true
			c.Args = []Val{c.fresh("dst", c.Fn.Params[0].Type())}
			c.V["strict"] = False
			if strictArg == 1 {
				s := Var("strict", BoolS)
				c.V["strict"] = s
				c.Args = append(c.Args, Scalar{T: s})
			}
			c.Args = append(c.Args, Scalar{T: v})
			c.Assume(Le(I(0), TypeOf(v)))
		},
		Post: func(c *Ctx) {
			v := Var("v", AnyS)
			strict := c.V["strict"].(*Term)
			dst := c.Args[0].(PtrV)
			o := orc(strict)
			errNil := x_isNil(c.Ret[0])
			tt := dst.Obj.Type
			v0, v1 := c.St0.Heap[dst.Obj], c.St.Heap[dst.Obj]
			c.EnsureP(main, "an error leaves the target unchanged", Implies(Not(errNil), valEq(c.X, c.St0, v0, c.St, v1, tt)))
			var got Val
			gt := tt
			cleared := False
			if ptr {
				gt = tt.Underlying().(*types.Pointer).Elem()
				switch p := v1.(type) {
				case PtrV:
					if _, old := c.St0.Heap[p.Obj]; !old && len(p.Path) == 0 {
						got = c.St.Heap[p.Obj]
						if c.St.GObj["tainted"][p.Obj] || tainted(got) {
							c.EnsureP(main, "the stored value does not share the driver's memory", False)
						}
					}
				case Scalar:
					cleared = Eq(p.T, NilRef())
				}
			} else {
				got = v1
				cleared = isZeroVal(c.X, c.St, v1, tt)
				if c.St.GObj["tainted"][dst.Obj] || tainted(got) {
					c.EnsureP(main, "the stored value does not share the driver's memory", False)
				}
			}
			c.EnsureP("C02", "NULL succeeds and clears the target", Implies(IsNilAny(v), And(errNil, cleared)))
			var known []*Term
			for _, k := range o.cases {
				is := isType(v, k.typ)
				u := unboxDriver(k.typ, v)
				ok, want := k.f(c, u)
				known = append(known, is)
				eq := False
				if got != nil {
					if o.cmp != nil {
						eq = o.cmp(c, got, gt, want)
					} else {
						eq = Eq(c.X.toTerm(c.St, got, gt), want)
					}
				}
				c.EnsureP(main, "success on "+k.typ+" stores exactly the delivered value", Implies(And(is, errNil), And(ok, eq)))
				if !k.optional && !k.loose {
					c.EnsureP(main, "a representable "+k.typ+" is accepted", Implies(And(is, ok), errNil))
				}
			}
			c.EnsureP(main, "an unsupported driver type is an error", Implies(And(Not(IsNilAny(v)), Not(Or(known...))), Not(errNil)))
			c.frame(dst.Obj)
		},
	}
}

func x_isNil(v Val) *Term {
	n, _ := isNilVal(v)
	return n
}

func isZeroVal(x *Exec, st *State, v Val, t types.Type) *Term {
	switch v := v.(type) {
	case SliceV:
		return And(Eq(v.Len, I(0)), v.Nil)
	case Scalar:
		return Eq(v.T, tm(x.zero(st, t)))
	case StructV:
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range v.F {
			cs = append(cs, isZeroVal(x, st, v.F[i], u.Field(i).Type()))
		}
		return And(cs...)
	}
	return Eq(x.toTerm(st, v, t), x.toTerm(st, x.zero(st, t), t))
}

func rangeT(bits uint, signed bool, v *Term) *Term {
	if signed {
		h := IB(pow2(bits - 1))
		return And(Le(Sub(I(0), h), v), Lt(v, h))
	}
	return And(Le(I(0), v), Lt(v, IB(pow2(bits))))
}

func init() {
	register("C01 C02 C03 C17 C19", func(e *Engine) (out []*Spec) {
		type it struct {
			n      string
			bits   uint
			signed bool
		}
		for _, k := range []it{{"Int", 64, true}, {"I8", 8, true}, {"I16", 16, true}, {"I32", 32, true}, {"I64", 64, true},
			{"Uint", 64, false}, {"U8", 8, false}, {"U16", 16, false}, {"U32", 32, false}, {"U64", 64, false}} {
			k := k
			text := func(c *Ctx, u *Term) (*Term, *Term) {
				t := IntText(u)
				if !k.signed {
					t = UintText(u)
				}
				return And(t, rangeT(k.bits, k.signed, IntVal(u))), IntVal(u)
			}
			orc := func(*Term) scanOracle {
				return scanOracle{cases: []scanCase{
					{typ: tkBytes, f: text},
					{typ: tkStr, optional: true, f: text},
					{typ: tkI64, f: func(c *Ctx, u *Term) (*Term, *Term) {
						if !k.signed && k.bits == 64 {
							// 64-bit unsigned values travel as int64 in two's complement
							return True, Ite(Le(I(0), u), u, Add(u, IB(pow2(64))))
						}
						return rangeT(k.bits, k.signed, u), u
					}},
				}}
			}
			for _, m := range []string{"Val", "Ptr"} {
				out = append(out, scanSpec("encoding."+k.n+"Scanner."+strings.ToLower(m), "gv"+k.n+m, []string{"C01", "C02"}, m == "Ptr", 0, orc))
			}
		}
		// floats
		for _, bits := range []int{32, 64} {
			bits := bits
			n := map[int]string{32: "F32", 64: "F64"}[bits]
			conv64 := func(u *Term) *Term {
				if bits == 32 {
					return App("f64to32", F32S, u)
				}
				return u
			}
			text := func(c *Ctx, u *Term) (*Term, *Term) {
				if bits == 32 {
					return FloatOK(32, u), FloatVal32(u)
				}
				return FloatOK(64, u), FloatVal64(u)
			}
			orc := func(strict *Term) scanOracle {
				ns := func(f func(c *Ctx, u *Term) (*Term, *Term)) func(c *Ctx, u *Term) (*Term, *Term) {
					return func(c *Ctx, u *Term) (*Term, *Term) { a, b := f(c, u); return And(Not(strict), a), b }
				}
				return scanOracle{cases: []scanCase{
					{typ: tkF64, f: func(c *Ctx, u *Term) (*Term, *Term) { return True, conv64(u) }},
					{typ: tkI64, f: func(c *Ctx, u *Term) (*Term, *Term) {
						if bits == 32 {
							return True, App("i2f!F32", F32S, u)
						}
						return True, App("i2f!F64", F64S, u)
					}},
					{typ: tkBytes, f: ns(text)}, {typ: tkStr, f: ns(text)},
				}}
			}
			for _, m := range []string{"Val", "Ptr"} {
				out = append(out, scanSpec("encoding."+n+"Scanner."+strings.ToLower(m), "gv"+n+m, []string{"C01", "C02"}, m == "Ptr", 1, orc))
			}
			out = append(out, scanSpec("encoding."+n+"Scanner.default", "gv"+n+"Dflt", []string{"C01", "C02"}, false, 0, orc))
		}
		// bool
		inSet := func(u *Term, xs ...string) *Term {
			var os []*Term
			for _, k := range xs {
				os = append(os, Eq(u, S(k)))
			}
			return Or(os...)
		}
		btext := func(strict *Term) func(c *Ctx, u *Term) (*Term, *Term) {
			return func(c *Ctx, u *Term) (*Term, *Term) {
				t := inSet(u, "1", "t", "T", "true", "TRUE", "True")
				f := inSet(u, "0", "f", "F", "false", "FALSE", "False")
				return And(Not(strict), Or(t, f)), t
			}
		}
		borc := func(strict *Term) scanOracle {
			return scanOracle{cases: []scanCase{
				{typ: tkBool, f: func(c *Ctx, u *Term) (*Term, *Term) { return True, u }},
				{typ: tkI64, f: func(c *Ctx, u *Term) (*Term, *Term) { return True, Ne(u, I(0)) }},
				{typ: tkBytes, f: btext(strict)}, {typ: tkStr, f: btext(strict)},
			}}
		}
		for _, m := range []string{"Val", "Ptr"} {
			out = append(out, scanSpec("encoding.BoolScanner."+strings.ToLower(m), "gvBool"+m, []string{"C01", "C02"}, m == "Ptr", 1, borc))
		}
		out = append(out, scanSpec("encoding.BoolScanner.default", "gvBoolDflt", []string{"C01", "C02"}, false, 0, borc))
		// text
		for _, n := range []string{"Str", "Bytes"} {
			sorc := func(strict *Term) scanOracle {
				r := func(f func(u *Term) *Term) func(c *Ctx, u *Term) (*Term, *Term) {
					return func(c *Ctx, u *Term) (*Term, *Term) { return Not(strict), f(u) }
				}
				id := func(c *Ctx, u *Term) (*Term, *Term) { return True, u }
				return scanOracle{
					cmp: func(c *Ctx, got Val, t types.Type, want *Term) *Term {
						return Eq(c.X.strOf(c.St, got), want)
					},
					cases: []scanCase{
						{typ: tkStr, f: id}, {typ: tkBytes, f: id},
						{typ: tkBool, f: r(func(u *Term) *Term { return Ite(u, S("true"), S("false")) })},
						{typ: tkI64, f: r(FmtInt)},
						{typ: tkF64, f: r(func(u *Term) *Term { return FmtFloat(64, I('f'), I(-1), u) })},
						{typ: tkTime, f: r(func(u *Term) *Term { return App("ext!(time.Time).String!0", StrS, u) })},
					}}
			}
			for _, m := range []string{"Val", "Ptr"} {
				out = append(out, scanSpec("encoding."+n+"Scanner."+strings.ToLower(m), "gv"+n+m, []string{"C01", "C02"}, m == "Ptr", 1, sorc))
			}
			out = append(out, scanSpec("encoding."+n+"Scanner.default", "gv"+n+"Dflt", []string{"C01", "C02"}, false, 0, sorc))
		}
		// timestamps
		d := `(re.range "0" "9")`
		dig := func(n int) string { return "(re.++ " + strings.Repeat(d+" ", n-1) + d + ")" }
		to := func(s string) string { return `(str.to_re "` + s + `")` }
		date := "(re.++ " + dig(4) + to("-") + dig(2) + to("-") + dig(2) + ")"
		dtime := "(re.++ " + date + to(" ") + dig(2) + to(":") + dig(2) + to(":") + dig(2) + ")"
		dfrac := "(re.++ " + dtime + to(".") + "(re.+ " + d + "))"
		stamp := func(c *Ctx, u *Term) (*Term, *Term) {
			ok, val := False, Var("anytime", TimeS)
			none := []*Term{}
			for _, k := range []struct{ re, layout string }{{date, "2006-01-02"}, {dtime, "2006-01-02 15:04:05"}, {dfrac, "2006-01-02 15:04:05.999999999"}, {"", "2006-01-02T15:04:05.999999999Z07:00"}} {
				v, er := TimeParsed(k.layout, u)
				is := Not(Or(none...))
				if k.re != "" {
					is = InRe(u, k.re)
					none = append(none, is)
				}
				ok = Or(ok, And(is, IsNilAny(er)))
				val = Ite(is, v, val)
			}
			return ok, val
		}
		torc := func(*Term) scanOracle {
			return scanOracle{cases: []scanCase{
				{typ: tkStr, f: stamp}, {typ: tkBytes, f: stamp},
				{typ: tkTime, f: func(c *Ctx, u *Term) (*Term, *Term) { return True, u }},
				{typ: tkI64, f: func(c *Ctx, u *Term) (*Term, *Term) { return True, App("ext!time.Unix!0", TimeS, u, I(0)) }},
			}}
		}
		for _, m := range []string{"Val", "Ptr"} {
			out = append(out, scanSpec("encoding.TimeScanner."+strings.ToLower(m), "gvTime"+m, []string{"C19", "C02"}, m == "Ptr", 0, torc))
		}
		return
	})
}
