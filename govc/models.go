package main

// Assumed contracts of the standard library (the trusted base).

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- uninterpreted library functions

func IntText(s *Term) *Term  { return App("inttext", BoolS, s) }
func IntVal(s *Term) *Term   { return App("intval", IntS, s) }
func UintText(s *Term) *Term { return App("uinttext", BoolS, s) }
func FmtInt(v *Term) *Term   { return fmtIntT(v) }
func fmtIntT(v *Term) *Term {
	if v.IsInt() {
		return S(v.Int.String())
	}
	return App("fmtint", StrS, v)
}
func FloatOK(bits int, s *Term) *Term { return App(fmt.Sprintf("pfok%d", bits), BoolS, s) }
func FloatVal64(s *Term) *Term        { return App("pf64", F64S, s) }
func FloatVal32(s *Term) *Term        { return App("pf32", F32S, s) }
func F32to64(s *Term) *Term           { return App("f32to64", F64S, s) }
func FmtFloat(bits int, f, prec, v *Term) *Term {
	return App(fmt.Sprintf("fmtfloat%d", bits), StrS, f, prec, v)
}
func InRe(s *Term, re string) *Term { return mk("str.in_re", re, BoolS, nil, s) }

const (
	reDigits = `(re.+ (re.range "0" "9"))`
	reInt    = `(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")))`
	// what strconv.FormatFloat emits for the formats 'f','g','e' (incl. NaN, +Inf, -Inf)
	reFloat = `(re.+ (re.union (re.range "0" "9") (str.to_re "-") (str.to_re "+") (str.to_re ".") (str.to_re "e") (str.to_re "N") (str.to_re "a") (str.to_re "I") (str.to_re "n") (str.to_re "f")))`
)

func ax(e *Engine, name string, why string, vars []*Term, pats [][]*Term, body *Term) {
	e.th.AddLemma(&Lemma{Name: name, Vars: vars, Pats: pats, Body: body, Axiom: true, Why: why})
}

func initModels(e *Engine) {
	m := e.models
	v, s := Var("?v", IntS), Var("?s", StrS)
	ax(e, "fmtint-roundtrip", "strconv.FormatInt/FormatUint base 10 is read back by ParseInt/ParseUint", []*Term{v}, [][]*Term{{App("fmtint", StrS, v)}},
		And(IntText(FmtInt(v)), Eq(IntVal(FmtInt(v)), v), Implies(Le(I(0), v), UintText(FmtInt(v)))))
	ax(e, "fmtint-shape", "decimal text is an optional minus and digits", []*Term{v}, [][]*Term{{App("fmtint", StrS, v)}},
		And(InRe(FmtInt(v), reInt), Le(I(1), Len(FmtInt(v)))))
	ax(e, "uinttext", "text ParseUint accepts is accepted by ParseInt with the same value", []*Term{s}, [][]*Term{{UintText(s)}},
		Implies(UintText(s), And(IntText(s), Le(I(0), IntVal(s)))))
	ax(e, "inttext-nonempty", "ParseInt rejects the empty string", []*Term{s}, [][]*Term{{IntText(s)}},
		Implies(IntText(s), Le(I(1), Len(s))))
	f, p := Var("?f", IntS), Var("?p", IntS)
	d, g := Var("?d", F64S), Var("?g", F32S)
	ax(e, "fmtfloat64-roundtrip", "shortest FormatFloat(…,-1,64) is read back by ParseFloat(…,64)", []*Term{f, d}, [][]*Term{{App("fmtfloat64", StrS, f, I(-1), d)}},
		And(FloatOK(64, FmtFloat(64, f, I(-1), d)), Eq(FloatVal64(FmtFloat(64, f, I(-1), d)), d)))
	ax(e, "fmtfloat32-roundtrip", "shortest FormatFloat(…,-1,32) is read back by ParseFloat(…,32)", []*Term{f, g}, [][]*Term{{App("fmtfloat32", StrS, f, I(-1), g)}},
		And(FloatOK(32, FmtFloat(32, f, I(-1), g)), Eq(FloatVal32(FmtFloat(32, f, I(-1), g)), g)))
	ax(e, "fmtfloat64-shape", "FormatFloat output alphabet", []*Term{f, p, d}, [][]*Term{{App("fmtfloat64", StrS, f, p, d)}},
		And(InRe(FmtFloat(64, f, p, d), reFloat), Le(I(1), Len(FmtFloat(64, f, p, d)))))
	ax(e, "fmtfloat32-shape", "FormatFloat output alphabet", []*Term{f, p, g}, [][]*Term{{App("fmtfloat32", StrS, f, p, g)}},
		And(InRe(FmtFloat(32, f, p, g), reFloat), Le(I(1), Len(FmtFloat(32, f, p, g)))))

	// errors
	newErr := func(x *Exec, st *State, c *Call) []*State {
		a := Fresh("err", AnyS)
		st.assume(Not(IsNilAny(a)))
		return c.Return(x, st, Scalar{T: a})
	}
	m["fmt.Errorf"] = newErr
	m["errors.New"] = newErr
	m["errors.Join"] = newErr
	m["errors.Is"] = func(x *Exec, st *State, c *Call) []*State {
		a, b := x.anyTerm(st, c.Args[0]), x.anyTerm(st, c.Args[1])
		if a == b {
			return c.Return(x, st, Scalar{T: True})
		}
		return c.Return(x, st, Scalar{T: App("errors.is", BoolS, a, b)})
	}

	// strconv
	parseInt := func(unsigned bool) Model {
		return func(x *Exec, st *State, c *Call) []*State {
			s := tm(c.Args[0])
			base, bits := tm(c.Args[1]), tm(c.Args[2])
			if !bits.IsInt() || !base.IsInt() {
				x.bail("ParseInt with unknown base or bit size")
			}
			n := bits.Int.Int64()
			if n == 0 {
				n = 64
			}
			txt, val := IntText(s), IntVal(s)
			if unsigned {
				txt = UintText(s)
			}
			if base.Int.Int64() != 10 {
				txt = App(fmt.Sprintf("inttext!%v!%v", base, unsigned), BoolS, s)
				val = App(fmt.Sprintf("intval!%v", base), IntS, s)
			}
			lo, hi := IB(pow2(uint(n-1))), IB(pow2(uint(n-1)))
			lo, hi = Sub(I(0), lo), Sub(hi, I(1))
			if unsigned {
				lo, hi = I(0), Sub(IB(pow2(uint(n))), I(1))
			}
			good := And(txt, Le(lo, val), Le(val, hi))
			return x.branch(st, good, func(st *State) []*State {
				return c.clone(x, st).Return(x, st, Scalar{T: val}, Scalar{T: AnyNil()})
			}, func(st *State) []*State {
				a := Fresh("err", AnyS)
				st.assume(Not(IsNilAny(a)))
				return c.Return(x, st, x.fresh(st, "bad", c.Sig.Results().At(0).Type()), Scalar{T: a})
			})
		}
	}
	m["strconv.ParseInt"] = parseInt(false)
	m["strconv.ParseUint"] = parseInt(true)
	m["strconv.Atoi"] = func(x *Exec, st *State, c *Call) []*State {
		c.Args = append(c.Args, Scalar{T: I(10)}, Scalar{T: I(64)})
		return parseInt(false)(x, st, c)
	}
	m["strconv.ParseFloat"] = func(x *Exec, st *State, c *Call) []*State {
		s, bits := tm(c.Args[0]), tm(c.Args[1])
		b := 64
		val := FloatVal64(s)
		if bits.IsInt() && bits.Int.Int64() == 32 {
			b = 32
			val = F32to64(FloatVal32(s))
		}
		return x.branch(st, FloatOK(b, s), func(st *State) []*State {
			return c.Return(x, st, Scalar{T: val}, Scalar{T: AnyNil()})
		}, func(st *State) []*State {
			a := Fresh("err", AnyS)
			st.assume(Not(IsNilAny(a)))
			return c.Return(x, st, x.fresh(st, "bad", c.Sig.Results().At(0).Type()), Scalar{T: a})
		})
	}
	m["strconv.ParseBool"] = func(x *Exec, st *State, c *Call) []*State {
		s := tm(c.Args[0])
		in := func(xs ...string) *Term {
			var os []*Term
			for _, k := range xs {
				os = append(os, Eq(s, S(k)))
			}
			return Or(os...)
		}
		t := in("1", "t", "T", "true", "TRUE", "True")
		f := in("0", "f", "F", "false", "FALSE", "False")
		return x.branch(st, t, func(st *State) []*State {
			return c.Return(x, st, Scalar{T: True}, Scalar{T: AnyNil()})
		}, func(st *State) []*State {
			return x.branch(st, f, func(st *State) []*State {
				return c.Return(x, st, Scalar{T: False}, Scalar{T: AnyNil()})
			}, func(st *State) []*State {
				a := Fresh("err", AnyS)
				st.assume(Not(IsNilAny(a)))
				return c.Return(x, st, Scalar{T: False}, Scalar{T: a})
			})
		})
	}
	fmtI := func(x *Exec, v, base *Term) *Term {
		if base.IsInt() && base.Int.Int64() == 10 {
			return FmtInt(v)
		}
		return App("fmtint!base", StrS, v, base)
	}
	for _, n := range []string{"strconv.FormatInt", "strconv.FormatUint"} {
		m[n] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: fmtI(x, tm(c.Args[0]), tm(c.Args[1]))})
		}
	}
	m["strconv.Itoa"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: FmtInt(tm(c.Args[0]))})
	}
	m["strconv.FormatBool"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: Ite(tm(c.Args[0]), S("true"), S("false"))})
	}
	fmtF := func(v, f, prec, bits *Term) *Term {
		if bits.IsInt() && bits.Int.Int64() == 32 {
			if v.Op == "app" && v.Name == "f32to64" {
				return FmtFloat(32, f, prec, v.Args[0])
			}
			return FmtFloat(32, f, prec, App("f64to32", F32S, v))
		}
		return FmtFloat(64, f, prec, v)
	}
	m["strconv.FormatFloat"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: fmtF(tm(c.Args[0]), tm(c.Args[1]), tm(c.Args[2]), tm(c.Args[3]))})
	}
	appendStr := func(f func(x *Exec, c *Call) *Term) Model {
		return func(x *Exec, st *State, c *Call) []*State {
			bt := types.NewSlice(types.Typ[types.Byte])
			return c.Return(x, st, x.append(st, c.Args[0].(SliceV), Scalar{T: f(x, c)}, bt, types.Typ[types.String]))
		}
	}
	m["strconv.AppendInt"] = appendStr(func(x *Exec, c *Call) *Term { return fmtI(x, tm(c.Args[1]), tm(c.Args[2])) })
	m["strconv.AppendUint"] = m["strconv.AppendInt"]
	m["strconv.AppendBool"] = appendStr(func(x *Exec, c *Call) *Term { return Ite(tm(c.Args[1]), S("true"), S("false")) })
	m["strconv.AppendFloat"] = appendStr(func(x *Exec, c *Call) *Term {
		return fmtF(tm(c.Args[1]), tm(c.Args[2]), tm(c.Args[3]), tm(c.Args[4]))
	})
	m["strconv.AppendQuote"] = appendStr(func(x *Exec, c *Call) *Term { return App("ext!strconv.Quote!0", StrS, tm(c.Args[1])) })

	// pure functions without interpretation
	for _, n := range []string{"strconv.Quote", "strconv.Unquote", "(time.Time).String", "(time.Time).Format", "(time.Time).IsZero", "time.Unix",
		"(time.Time).UTC", "(time.Time).UnixNano", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Title",
		"(time.Time).MarshalText", "strings.EqualFold",
		"unicode.IsUpper", "unicode.IsLower", "unicode.IsDigit", "unicode.IsLetter", "unicode.ToUpper", "unicode.ToLower", "unicode.IsNumber", "unicode.IsSpace",
		"unicode/utf8.ValidString", "reflect.TypeOf", "path/filepath.Join", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "encoding/json.Valid",
		"(time.Time).Equal", "(time.Time).In", "encoding/hex.EncodeToString", "encoding/base64.StdEncoding"} {
		m[n] = pureExt(n)
	}
	quote := m["strconv.Quote"]
	m["strconv.Quote"] = func(x *Exec, st *State, c *Call) []*State {
		if t := tm(c.Args[0]); t.IsStr() && isASCII(t.Name) {
			return c.Return(x, st, Scalar{T: S(strconv.Quote(t.Name))})
		}
		return quote(x, st, c)
	}
	m["encoding/json.Marshal"] = func(x *Exec, st *State, c *Call) []*State {
		bt := types.Typ[types.Byte]
		if iv, ok := c.Args[0].(IfaceV); ok {
			if b, ok := iv.T.Underlying().(*types.Basic); ok && b.Kind() == types.String && types.NewMethodSet(iv.T).Len() == 0 {
				return c.Return(x, st, x.newSlice(st, "json", bt, jsonStr(tm(iv.V))), Scalar{T: AnyNil()})
			}
		}
		v := x.anyTerm(st, c.Args[0])
		er := App("json.err", AnyS, v)
		return x.branch(st, IsNilAny(er), func(st *State) []*State {
			return c.Return(x, st, x.newSlice(st, "json", bt, App("json.enc", StrS, v)), Scalar{T: AnyNil()})
		}, func(st *State) []*State {
			return c.Return(x, st, x.nilSlice(st, bt), Scalar{T: er})
		})
	}
	m["maps.Copy"] = func(x *Exec, st *State, c *Call) []*State {
		dt, stt := c.Fn.Params[0].Type(), c.Fn.Params[1].Type()
		d, do, ok1 := x.mapC(st, c.Args[0], dt)
		s, _, ok2 := x.mapC(st, c.Args[1], stt)
		if !ok2 {
			return c.Return(x, st)
		}
		if !ok1 {
			x.oblige(st, "nil", "assignment to a non-nil map", Eq(s.Len, I(0)))
			return c.Return(x, st)
		}
		if m, is := c.Args[0].(MapV); is {
			x.oblige(st, "nil", "assignment to a non-nil map", Or(m.notNil(), Eq(s.Len, I(0))))
		}
		n := MapC{Has: App("mapover.has", d.Has.Sort, s.Has, d.Has), Val: App("mapover.val", d.Val.Sort, s.Has, s.Val, d.Val), Len: Fresh("mlen", IntS)}
		st.assume(Le(d.Len, n.Len))
		st.setHeap(do, n)
		return c.Return(x, st)
	}
	ca := pureExt("strings.ContainsAny")
	m["strings.ContainsAny"] = func(x *Exec, st *State, c *Call) []*State {
		a, b := tm(c.Args[0]), tm(c.Args[1])
		if b.IsStr() && b.Name == "" || a.IsStr() && a.Name == "" {
			return c.Return(x, st, Scalar{T: False})
		}
		return ca(x, st, c)
	}
	// strings / bytes on content
	str2 := func(f func(a, b *Term) *Term) Model {
		return func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: f(x.strOf(st, c.Args[0]), x.strOf(st, c.Args[1]))})
		}
	}
	for _, pk := range []string{"strings.", "bytes."} {
		m[pk+"HasPrefix"] = str2(func(a, b *Term) *Term { return Prefix(b, a) })
		m[pk+"HasSuffix"] = str2(func(a, b *Term) *Term { return Suffix(b, a) })
		m[pk+"Contains"] = str2(func(a, b *Term) *Term { return Contains(a, b) })
		m[pk+"Index"] = str2(func(a, b *Term) *Term { return IndexOf(a, b, I(0)) })
		m[pk+"Equal"] = str2(Eq)
		m[pk+"IndexByte"] = func(x *Exec, st *State, c *Call) []*State {
			a := x.strOf(st, c.Args[0])
			r := IndexOf(a, FromCode(tm(c.Args[1])), I(0))
			st.assume(And(Le(I(-1), r), Lt(r, Len(a))))
			return c.Return(x, st, Scalar{T: r})
		}
		m[pk+"ContainsRune"] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: Contains(x.strOf(st, c.Args[0]), x.eng.EncodeRune(st, tm(c.Args[1])))})
		}
		m[pk+"IndexAny"] = func(x *Exec, st *State, c *Call) []*State {
			a, b := x.strOf(st, c.Args[0]), x.strOf(st, c.Args[1])
			r := App("indexany", IntS, a, b)
			st.assume(And(Le(I(-1), r), Lt(r, Len(a))))
			if b.IsStr() && isASCII(b.Name) {
				var none, one []*Term
				pre := Extract(a, I(0), r)
				for i := 0; i < len(b.Name); i++ {
					ch := b.Name[i : i+1]
					none = append(none, Not(Contains(a, S(ch))))
					one = append(one, Eq(ByteAt(a, r), I(int64(ch[0]))))
					st.assume(Implies(Le(I(0), r), Not(Contains(pre, S(ch)))))
				}
				st.assume(Eq(Eq(r, I(-1)), And(none...)))
				st.assume(Implies(Le(I(0), r), Or(one...)))
			}
			return c.Return(x, st, Scalar{T: r})
		}
		m[pk+"ContainsAny"] = func(x *Exec, st *State, c *Call) []*State {
			a, b := x.strOf(st, c.Args[0]), x.strOf(st, c.Args[1])
			if b.IsStr() {
				var some []*Term
				for i := 0; i < len(b.Name); i++ {
					if b.Name[i] >= 0x80 {
						return c.Return(x, st, Scalar{T: Fresh("containsany", BoolS)})
					}
					some = append(some, Contains(a, S(b.Name[i:i+1])))
				}
				return c.Return(x, st, Scalar{T: Or(some...)})
			}
			return c.Return(x, st, Scalar{T: Fresh("containsany", BoolS)})
		}
	}
	m["strings.TrimPrefix"] = str2(func(a, b *Term) *Term { return Ite(Prefix(b, a), Extract(a, Len(b), Sub(Len(a), Len(b))), a) })
	m["strings.TrimSuffix"] = str2(func(a, b *Term) *Term { return Ite(Suffix(b, a), Extract(a, I(0), Sub(Len(a), Len(b))), a) })
	m["strings.Replace"] = func(x *Exec, st *State, c *Call) []*State {
		a, o, n, k := tm(c.Args[0]), tm(c.Args[1]), tm(c.Args[2]), tm(c.Args[3])
		if a.IsStr() && o.IsStr() && n.IsStr() && k.IsInt() {
			return c.Return(x, st, Scalar{T: S(strings.Replace(a.Name, o.Name, n.Name, int(k.Int.Int64())))})
		}
		return c.Return(x, st, Scalar{T: App("ext!strings.Replace", StrS, a, o, n, k)})
	}
	m["strings.ReplaceAll"] = func(x *Exec, st *State, c *Call) []*State {
		a, o, n := tm(c.Args[0]), tm(c.Args[1]), tm(c.Args[2])
		if a.IsStr() && o.IsStr() && n.IsStr() {
			return c.Return(x, st, Scalar{T: S(strings.ReplaceAll(a.Name, o.Name, n.Name))})
		}
		return c.Return(x, st, Scalar{T: mk("str.replace_all", "", StrS, nil, a, o, n)})
	}
	m["strings.Repeat"] = func(x *Exec, st *State, c *Call) []*State {
		a, n := tm(c.Args[0]), tm(c.Args[1])
		x.oblige(st, "panic", "strings.Repeat count is not negative", Le(I(0), n))
		return c.Return(x, st, Scalar{T: RepStr(a, n)})
	}
	e.th.Rec("repstr", StrS, 3, func(a []*Term) *Term {
		s, n := a[0], a[1]
		return Ite(Le(n, I(0)), S(""), Cat(RepStr(s, Sub(n, I(1))), s))
	})
	m["strings.Join"] = func(x *Exec, st *State, c *Call) []*State {
		sep := tm(c.Args[1])
		if el, ok := x.elems(st, c.Args[0].(SliceV)); ok {
			r := S("")
			for i, v := range el {
				if i > 0 {
					r = Cat(r, sep)
				}
				r = Cat(r, tm(v))
			}
			return c.Return(x, st, Scalar{T: r})
		}
		a := c.Args[0].(SliceV)
		if a.Off == I(0) && a.Nil == False { // only the first len elements count
			return c.Return(x, st, Scalar{T: JoinSep(x.objSeq(st, a.Obj), a.Len, sep)})
		}
		sq := x.content(st, a)
		return c.Return(x, st, Scalar{T: JoinSep(sq, Len(sq), sep)})
	}
	// join of the first n elements with a separator
	e.th.Rec("joinsep", StrS, 3, func(a []*Term) *Term {
		q, n, sep := a[0], a[1], a[2]
		return Ite(Le(n, I(0)), S(""), Ite(Eq(n, I(1)), Nth(q, I(0)), Cat(JoinSep(q, Sub(n, I(1)), sep), sep, Nth(q, Sub(n, I(1))))))
	})

	// builders and buffers
	for _, ty := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		ty := ty
		get := func(x *Exec, st *State, p Val) *Term { return tm(x.loadAt(st, p, builderType(x, ty))) }
		put := func(x *Exec, st *State, p Val, t *Term) { x.storeAt(st, p, builderType(x, ty), Scalar{T: t}) }
		m[ty+"WriteString"] = func(x *Exec, st *State, c *Call) []*State {
			s := tm(c.Args[1])
			put(x, st, c.Args[0], Cat(get(x, st, c.Args[0]), s))
			return c.Return(x, st, Scalar{T: Len(s)}, Scalar{T: AnyNil()})
		}
		m[ty+"WriteByte"] = func(x *Exec, st *State, c *Call) []*State {
			put(x, st, c.Args[0], Cat(get(x, st, c.Args[0]), FromCode(tm(c.Args[1]))))
			return c.Return(x, st, Scalar{T: AnyNil()})
		}
		m[ty+"WriteRune"] = func(x *Exec, st *State, c *Call) []*State {
			r := x.eng.EncodeRune(st, tm(c.Args[1]))
			put(x, st, c.Args[0], Cat(get(x, st, c.Args[0]), r))
			return c.Return(x, st, Scalar{T: Len(r)}, Scalar{T: AnyNil()})
		}
		m[ty+"Write"] = func(x *Exec, st *State, c *Call) []*State {
			s := x.content(st, c.Args[1].(SliceV))
			put(x, st, c.Args[0], Cat(get(x, st, c.Args[0]), s))
			return c.Return(x, st, Scalar{T: Len(s)}, Scalar{T: AnyNil()})
		}
		m[ty+"String"] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: get(x, st, c.Args[0])})
		}
		m[ty+"Len"] = func(x *Exec, st *State, c *Call) []*State {
			return c.Return(x, st, Scalar{T: Len(get(x, st, c.Args[0]))})
		}
		m[ty+"Reset"] = func(x *Exec, st *State, c *Call) []*State {
			put(x, st, c.Args[0], S(""))
			return c.Return(x, st)
		}
		m[ty+"Grow"] = func(x *Exec, st *State, c *Call) []*State {
			x.oblige(st, "panic", "Grow count is not negative", Le(I(0), tm(c.Args[1])))
			return c.Return(x, st)
		}
	}
	m["(*bytes.Buffer).Bytes"] = func(x *Exec, st *State, c *Call) []*State {
		t := tm(x.loadAt(st, c.Args[0], builderType(x, "(*bytes.Buffer).")))
		return c.Return(x, st, x.newSlice(st, "bytes", types.Typ[types.Byte], t))
	}

	// pools
	m["(*sync.Pool).Get"] = poolGet
	m["(*sync.Pool).Put"] = poolPut

	// fmt
	m["fmt.Sprintf"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: x.sprintf(st, tm(c.Args[0]), c.Args[1].(SliceV))})
	}
	m["fmt.Sprint"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: x.sprint(st, c.Args[0].(SliceV))})
	}
	fwrite := func(x *Exec, st *State, c *Call, s *Term) []*State {
		if w, ok := c.Args[0].(IfaceV); ok && isBuilder(deref(w.T)) {
			x.storeAt(st, w.V, deref(w.T), Scalar{T: Cat(tm(x.loadAt(st, w.V, deref(w.T))), s)})
			return c.Return(x, st, Scalar{T: Len(s)}, Scalar{T: AnyNil()})
		}
		x.bail("%s to an unknown writer", c.Name)
		return nil
	}
	m["fmt.Fprintf"] = func(x *Exec, st *State, c *Call) []*State {
		return fwrite(x, st, c, x.sprintf(st, tm(c.Args[1]), c.Args[2].(SliceV)))
	}
	m["fmt.Fprint"] = func(x *Exec, st *State, c *Call) []*State {
		return fwrite(x, st, c, x.sprint(st, c.Args[1].(SliceV)))
	}
	m["fmt.Fprintln"] = func(x *Exec, st *State, c *Call) []*State {
		if el, ok := x.elems(st, c.Args[1].(SliceV)); !ok || len(el) > 1 {
			return fwrite(x, st, c, Fresh("sprintln", StrS))
		} else if len(el) == 0 {
			return fwrite(x, st, c, S("\n"))
		}
		return fwrite(x, st, c, Cat(x.sprint(st, c.Args[1].(SliceV)), S("\n")))
	}
	m["io.WriteString"] = func(x *Exec, st *State, c *Call) []*State { return fwrite(x, st, c, tm(c.Args[1])) }

	// utf8
	decRune := func(x *Exec, st *State, c *Call) []*State {
		s := x.strOf(st, c.Args[0])
		return x.branch(st, Eq(Len(s), I(0)), func(st *State) []*State {
			return c.Return(x, st, Scalar{T: I(0xfffd)}, Scalar{T: I(0)})
		}, func(st *State) []*State {
			r, w := x.eng.DecodeRune(st, s)
			return c.Return(x, st, Scalar{T: r}, Scalar{T: w})
		})
	}
	m["unicode/utf8.DecodeRuneInString"] = decRune
	m["unicode/utf8.DecodeRune"] = decRune
	runeCount := func(x *Exec, st *State, c *Call) []*State {
		r := Len(runesOf(x.strOf(st, c.Args[0])))
		return c.Return(x, st, Scalar{T: r})
	}
	m["unicode/utf8.RuneCountInString"] = runeCount
	m["unicode/utf8.RuneCount"] = runeCount
	m["unicode/utf8.AppendRune"] = func(x *Exec, st *State, c *Call) []*State {
		bt := types.NewSlice(types.Typ[types.Byte])
		return c.Return(x, st, x.append(st, c.Args[0].(SliceV), Scalar{T: x.eng.EncodeRune(st, tm(c.Args[1]))}, bt, types.Typ[types.String]))
	}
	ax(e, "runes-len", "a string has at most as many runes as bytes, and none only when empty", []*Term{s}, [][]*Term{{runesOf(s)}},
		And(Le(Len(runesOf(s)), Len(s)), Eq(Eq(Len(runesOf(s)), I(0)), Eq(Len(s), I(0)))))

	// hex
	m["encoding/hex.DecodedLen"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: truncDiv(tm(c.Args[0]), I(2))})
	}
	m["encoding/hex.EncodedLen"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: Mul(tm(c.Args[0]), I(2))})
	}
	m["encoding/hex.Decode"] = func(x *Exec, st *State, c *Call) []*State {
		d := c.Args[0].(SliceV)
		src := x.content(st, c.Args[1].(SliceV))
		x.oblige(st, "bounds", "hex.Decode: destination long enough", Le(Div(Len(src), I(2)), d.Len))
		return x.branch(st, HexOK(src), func(st *State) []*State {
			h := HexVal(src)
			st.assume(Eq(Mul(I(2), Len(h)), Len(src)))
			x.splice(st, d, I(0), h, Len(h))
			return c.Return(x, st, Scalar{T: Len(h)}, Scalar{T: AnyNil()})
		}, func(st *State) []*State {
			g := Fresh("garbage", StrS)
			n := Fresh("n", IntS)
			st.assume(And(Le(I(0), n), Le(n, Div(Len(src), I(2))), Eq(Len(g), n)))
			x.splice(st, d, I(0), g, n)
			a := Fresh("err", AnyS)
			st.assume(Not(IsNilAny(a)))
			return c.Return(x, st, Scalar{T: n}, Scalar{T: a})
		})
	}
	m["encoding/hex.Encode"] = func(x *Exec, st *State, c *Call) []*State {
		d := c.Args[0].(SliceV)
		src := x.content(st, c.Args[1].(SliceV))
		h := HexEnc(src)
		st.assume(Eq(Len(h), Mul(I(2), Len(src))))
		x.oblige(st, "bounds", "hex.Encode: destination long enough", Le(Len(h), d.Len))
		x.splice(st, d, I(0), h, Mul(I(2), Len(src)))
		return c.Return(x, st, Scalar{T: Mul(I(2), Len(src))})
	}
	m["encoding/hex.EncodeToString"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: HexEnc(x.content(st, c.Args[0].(SliceV)))})
	}
	m["encoding/hex.AppendEncode"] = func(x *Exec, st *State, c *Call) []*State {
		bt := types.NewSlice(types.Typ[types.Byte])
		return c.Return(x, st, x.append(st, c.Args[0].(SliceV), Scalar{T: HexEnc(x.content(st, c.Args[1].(SliceV)))}, bt, types.Typ[types.String]))
	}
	ax(e, "hex-roundtrip", "hex.Encode is read back by hex.Decode; two digits per byte", []*Term{s}, [][]*Term{{HexEnc(s)}},
		And(HexOK(HexEnc(s)), Eq(HexVal(HexEnc(s)), s), Eq(Len(HexEnc(s)), Mul(I(2), Len(s))),
			InRe(HexEnc(s), `(re.* (re.union (re.range "0" "9") (re.range "a" "f")))`)))
	m["bytes.Clone"] = func(x *Exec, st *State, c *Call) []*State {
		a := c.Args[0].(SliceV)
		n := x.newSlice(st, "clone", types.Typ[types.Byte], x.content(st, a))
		n.Nil = a.Nil
		return c.Return(x, st, n)
	}
	m["slices.Clone"] = func(x *Exec, st *State, c *Call) []*State {
		a := c.Args[0].(SliceV)
		n := x.newSlice(st, "clone", a.Obj.Type, x.content(st, a))
		n.Nil = a.Nil
		return c.Return(x, st, n)
	}
	m["strings.Clone"] = func(x *Exec, st *State, c *Call) []*State {
		return c.Return(x, st, Scalar{T: tm(c.Args[0])})
	}
}

func HexOK(s *Term) *Term  { return App("hexok", BoolS, s) }
func HexVal(s *Term) *Term { return App("hexval", StrS, s) }
func HexEnc(s *Term) *Term { return App("hexenc", StrS, s) }

func RepStr(s, n *Term) *Term {
	if n.IsInt() && n.Int.IsInt64() && n.Int.Int64() <= 64 {
		r := S("")
		for i := int64(0); i < n.Int.Int64(); i++ {
			r = Cat(r, s)
		}
		return r
	}
	return App("repstr", StrS, s, n)
}
func JoinSep(q, n, sep *Term) *Term { return App("joinsep", StrS, q, n, sep) }

func (c *Call) clone(x *Exec, st *State) *Call { return c }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func builderType(x *Exec, ty string) types.Type {
	pk, n := "strings", "Builder"
	if strings.Contains(ty, "Buffer") {
		pk, n = "bytes", "Buffer"
	}
	p := x.eng.pkgs[pk]
	if p == nil {
		x.bail("package %s not loaded", pk)
	}
	return p.Members[n].(*ssa.Type).Type()
}

// strOf: string content of a string or byte slice.
func (x *Exec) strOf(st *State, v Val) *Term {
	switch v := v.(type) {
	case Scalar:
		return v.T
	case SliceV:
		return x.content(st, v)
	}
	panic(fmt.Sprintf("strOf %T", v))
}

func (x *Exec) anyTerm(st *State, v Val) *Term {
	return x.toTerm(st, v, types.NewInterfaceType(nil, nil))
}

// pureExt models a library function as an uninterpreted function of its arguments.
func pureExt(name string) Model {
	return func(x *Exec, st *State, c *Call) []*State {
		var ts []*Term
		sig := c.Sig
		k := 0
		if sig.Recv() != nil && len(c.Args) == sig.Params().Len()+1 {
			ts = append(ts, x.toTerm(st, c.Args[0], sig.Recv().Type()))
			k = 1
		}
		for i := k; i < len(c.Args); i++ {
			ts = append(ts, x.toTerm(st, c.Args[i], sig.Params().At(i-k).Type()))
		}
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			vs = append(vs, x.fromTerm(st, App(fmt.Sprintf("ext!%s!%d", name, i), sortOf(t), ts...), t))
		}
		return c.Return(x, st, vs...)
	}
}

// fmtWidth: an integer printed with a computed width.
func fmtWidth(w, v *Term) *Term { return App("fmt!width", StrS, w, v) }

// sprintf with a known format; unknown pieces of a format are copied (they
// must hold no verbs of their own).
func (x *Exec) sprintf(st *State, format *Term, args SliceV) *Term {
	el, ok := x.elems(st, args)
	if !ok {
		return Fresh("sprintf", StrS)
	}
	r := S("")
	k := 0
	var verb bool
	var width *Term
	for _, p := range catParts(format) {
		if !p.IsStr() {
			switch {
			case verb && width == nil && p.Op == "app" && p.Name == "fmtint":
				width = p.Args[0]
				x.oblige(st, "format", "the width is not negative", Le(I(0), width))
			case verb:
				return Fresh("sprintf", StrS)
			default:
				x.oblige(st, "format", "a piece of a format holds no verb", Not(Contains(p, S("%"))))
				r = Cat(r, p)
			}
			continue
		}
		f := p.Name
		for i := 0; i < len(f); i++ {
			if !verb {
				if f[i] == '%' {
					verb = true
				} else {
					r = Cat(r, S(f[i:i+1]))
				}
				continue
			}
			verb = false
			if f[i] == '%' && width == nil {
				r = Cat(r, S("%"))
				continue
			}
			if k >= len(el) || !strings.ContainsRune("svdqT", rune(f[i])) {
				return Fresh("sprintf", StrS)
			}
			if width != nil {
				t := x.fmtVerb(st, 'd', el[k])
				if f[i] != 'd' || t.Op != "app" || t.Name != "fmtint" {
					return Fresh("sprintf", StrS)
				}
				r = Cat(r, fmtWidth(width, t.Args[0]))
				width = nil
			} else {
				r = Cat(r, x.fmtVerb(st, f[i], el[k]))
			}
			k++
		}
	}
	if verb || k != len(el) {
		return Fresh("sprintf", StrS)
	}
	return r
}

// sprint: operands that are all strings, or a single one.
func (x *Exec) sprint(st *State, args SliceV) *Term {
	el, ok := x.elems(st, args)
	if !ok {
		return Fresh("sprint", StrS)
	}
	if len(el) == 1 {
		return x.fmtVerb(st, 'v', el[0])
	}
	r := S("")
	for _, v := range el {
		iv, ok := v.(IfaceV)
		if !ok {
			return Fresh("sprint", StrS)
		}
		if b, ok := iv.T.(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return Fresh("sprint", StrS)
		}
		r = Cat(r, tm(iv.V))
	}
	return r
}

func (x *Exec) fmtVerb(st *State, verb byte, v Val) *Term {
	if iv, ok := v.(IfaceV); ok {
		if b, ok := iv.T.Underlying().(*types.Basic); ok {
			_, named := iv.T.(*types.Named)
			switch {
			case b.Info()&types.IsString != 0 && verb != 'q' && verb != 'T' && verb != 'd' && !named:
				return tm(iv.V)
			case b.Info()&types.IsString != 0 && verb == 'q':
				return App("ext!strconv.Quote!0", StrS, tm(iv.V))
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return FmtInt(tm(iv.V))
			}
		}
	}
	return App("fmt!"+string(verb), StrS, x.anyTerm(st, v))
}

// ---- sync.Pool: every object in the pool is empty and has no owner.

func poolGlobal(c *Call) *ssa.Global {
	if len(c.Instr.Common().Args) > 0 {
		switch a := c.Instr.Common().Args[0].(type) {
		case *ssa.Global:
			return a
		case *ssa.UnOp:
			if g, ok := a.X.(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// poolElem finds the type the pool's New function makes (new(T) or &T{}).
func poolElem(g *ssa.Global) (types.Type, string) {
	pkg := g.Pkg
	init := pkg.Func("init")
	var t types.Type
	why := "pool has no New function of the form new(T)"
	visit := func(fn *ssa.Function) {
		if fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || len(fn.Blocks) != 1 {
			return
		}
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
			return
		}
		for _, in := range fn.Blocks[0].Instrs {
			switch i := in.(type) {
			case *ssa.MakeInterface:
				if _, ok := i.X.(*ssa.Alloc); ok {
					t = i.X.Type()
					why = ""
				}
			case *ssa.Alloc, *ssa.Return, *ssa.DebugRef:
			default:
				why = "pool New does more than allocate"
			}
		}
	}
	if init != nil {
		for _, a := range init.AnonFuncs {
			// only closures stored to this pool's New field
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok || s.Val != ssa.Value(a) {
						continue
					}
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if fa.X == ssa.Value(g) {
							visit(a)
						} else if al, ok := fa.X.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok {
									for _, r2 := range *u.Referrers() {
										if s2, ok := r2.(*ssa.Store); ok && s2.Addr == ssa.Value(g) {
											visit(a)
										}
									}
								}
								if s2, ok := r.(*ssa.Store); ok && s2.Addr == ssa.Value(g) {
									visit(a)
								}
							}
						}
					}
				}
			}
		}
	}
	return t, why
}

func (st *State) mark(k string, o *Object) {
	if st.GObj[k] == nil {
		st.GObj[k] = map[*Object]bool{}
	}
	st.GObj[k][o] = true
}

func poolGet(x *Exec, st *State, c *Call) []*State {
	g := poolGlobal(c)
	if g == nil {
		x.bail("pool is not a package variable")
	}
	t, why := poolElem(g)
	if t == nil || why != "" {
		x.bail("pool %s: %s", g.Name(), why)
	}
	el := t.Underlying().(*types.Pointer).Elem()
	o := newObject("pooled", el, false)
	st.Heap[o] = x.zero(st, el)
	st.mark("owned", o)
	if st.Ghost["poolbal"] == nil {
		st.Ghost["poolbal"] = I(0)
	}
	x.note("sync.Pool %s: Get returns an object nobody else holds; it is empty because New makes it empty and every Put is checked to return it empty", g.Name())
	return c.Return(x, st, IfaceV{T: t, V: PtrV{Obj: o}})
}

func poolPut(x *Exec, st *State, c *Call) []*State {
	g := poolGlobal(c)
	if g == nil {
		x.bail("pool is not a package variable")
	}
	t, _ := poolElem(g)
	v := c.Args[1]
	iv, ok := v.(IfaceV)
	if !ok {
		x.oblige(st, "pool", "object put into the pool is known", False)
		return c.Return(x, st)
	}
	if t == nil || !types.Identical(iv.T, t) {
		x.oblige(st, "pool", "object put into the pool has the pool's type", False)
	}
	p, ok := iv.V.(PtrV)
	if !ok || len(p.Path) != 0 {
		x.oblige(st, "pool", "object put into the pool is owned by the caller", False)
		return c.Return(x, st)
	}
	x.oblige(st, "pool", "returned to the pool at most once", B(!st.GObj["released"][p.Obj]))
	x.oblige(st, "pool", "returned object belongs to the caller", B(st.GObj["owned"][p.Obj]))
	x.oblige(st, "pool", "returned object is empty", x.emptyVal(st, x.load(st, p, p.Obj.Type), p.Obj.Type))
	st.mark("released", p.Obj)
	return c.Return(x, st)
}

// emptyVal: the value carries no text, arguments or counters.
func (x *Exec) emptyVal(st *State, v Val, t types.Type) *Term {
	switch v := v.(type) {
	case StructV:
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range v.F {
			cs = append(cs, x.emptyVal(st, v.F[i], u.Field(i).Type()))
		}
		return And(cs...)
	case SliceV:
		return Eq(v.Len, I(0))
	case Scalar:
		switch v.T.Sort {
		case StrS:
			return Eq(Len(v.T), I(0))
		case IntS:
			return Eq(v.T, I(0))
		case BoolS:
			return Not(v.T)
		}
		return Eq(v.T, tm(x.zero(st, t)))
	}
	return False
}

var _ = constant.MakeBool

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
