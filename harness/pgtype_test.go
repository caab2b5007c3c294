package pgtype

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

const gvOpen, gvClose = "{", "}"

type (
	gvI8  int8
	gvU16 uint16
	gvI64 int64
	gvF32 float32
	gvStr string
	gvB   bool
)

type gvList struct {
	name string
	typ  reflect.Type // slice type; *typ is the scanner, typ the valuer
}

func gvListOf[L any](name string) gvList {
	return gvList{name, reflect.TypeOf((*L)(nil)).Elem()}
}

var gvLists = []gvList{
	gvListOf[BoolArray[bool]]("BoolArray[bool]"), gvListOf[BoolArray[gvB]]("BoolArray[gvB]"),
	gvListOf[IntArray[int]]("IntArray"), gvListOf[Int8Array[int8]]("Int8Array"), gvListOf[Int8Array[gvI8]]("Int8Array[gvI8]"),
	gvListOf[Int16Array[int16]]("Int16Array"), gvListOf[Int32Array[int32]]("Int32Array"), gvListOf[Int64Array[int64]]("Int64Array"), gvListOf[Int64Array[gvI64]]("Int64Array[gvI64]"),
	gvListOf[UintArray[uint]]("UintArray"), gvListOf[Uint8Array[uint8]]("Uint8Array"), gvListOf[Uint16Array[uint16]]("Uint16Array"), gvListOf[Uint16Array[gvU16]]("Uint16Array[gvU16]"),
	gvListOf[Uint32Array[uint32]]("Uint32Array"), gvListOf[Uint64Array[uint64]]("Uint64Array"),
	gvListOf[Float32Array[float32]]("Float32Array"), gvListOf[Float32Array[gvF32]]("Float32Array[gvF32]"), gvListOf[Float64Array[float64]]("Float64Array"),
	gvListOf[StringArray[string]]("StringArray"), gvListOf[StringArray[gvStr]]("StringArray[gvStr]"),
	gvListOf[ByteaArray[[]byte]]("ByteaArray"),
}

func (l gvList) elem() reflect.Type { return l.typ.Elem() }

func gvBytesElem(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8
}

func gvFloatBits(t reflect.Type) int { return t.Bits() }

// gvSet fills e with a random value of its kind.
func (r *gvRun) gvSet(e reflect.Value) {
	switch e.Kind() {
	case reflect.Bool:
		e.SetBool(r.rng.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v := int64(r.rng.Uint64()) >> uint(r.rng.Intn(64))
		switch r.rng.Intn(6) {
		case 0:
			v = 1 << (e.Type().Bits() - 1)
		case 1:
			v = 1<<(e.Type().Bits()-1) - 1
		}
		e.Set(reflect.ValueOf(v).Convert(e.Type()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v := r.rng.Uint64() >> uint(r.rng.Intn(64))
		switch r.rng.Intn(6) {
		case 0:
			v = math.MaxUint64
		case 1:
			v = 1 << (e.Type().Bits() - 1)
		}
		e.Set(reflect.ValueOf(v).Convert(e.Type()))
	case reflect.Float32, reflect.Float64:
		v := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 1e21, 1e-7, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777217, float64(r.rng.Int63()), r.rng.NormFloat64(), math.Inf(1), math.Inf(-1)}[r.rng.Intn(14)]
		if e.Kind() == reflect.Float32 {
			v = float64(float32(v))
		} else if r.rng.Intn(6) == 0 {
			v = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, math.Float64frombits(r.rng.Uint64() &^ (1 << 62)), 1<<53 + 2}[r.rng.Intn(4)]
		}
		if math.IsNaN(v) {
			v = 3
		}
		e.SetFloat(v)
	case reflect.String:
		e.SetString(r.str(r.size(6)))
	case reflect.Slice:
		n := r.rng.Intn(r.size(8))
		b := make([]byte, n)
		r.rng.Read(b)
		if r.rng.Intn(3) == 0 {
			b = []byte(r.str(6))
		}
		e.Set(reflect.ValueOf(b).Convert(e.Type()))
	default:
		panic("kind " + e.Kind().String())
	}
}

func (r *gvRun) gvNew(l gvList, n int) reflect.Value {
	if n > 0 {
		n = r.size(n)
	}
	s := reflect.MakeSlice(l.typ, n, n)
	for i := 0; i < n; i++ {
		r.gvSet(s.Index(i))
	}
	return s
}

func gvSame(a, b reflect.Value) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		x, y := a.Index(i), b.Index(i)
		switch x.Kind() {
		case reflect.Float32, reflect.Float64:
			if math.Float64bits(x.Float()) != math.Float64bits(y.Float()) {
				return false
			}
		case reflect.Slice:
			if string(x.Bytes()) != string(y.Bytes()) {
				return false
			}
		default:
			if x.Interface() != y.Interface() {
				return false
			}
		}
	}
	return true
}

// gvReadList: an independent reader of the one-dimensional list form.
// nulls[i] tells an unquoted NULL.
func gvReadList(s string) (elems []string, nulls []bool, ok bool) {
	if !strings.HasPrefix(s, gvOpen) || !strings.HasSuffix(s, gvClose) || len(s) < 2 {
		return nil, nil, false
	}
	s = s[1 : len(s)-1]
	if s == "" {
		return nil, nil, true
	}
	for {
		var e string
		if strings.HasPrefix(s, `"`) {
			i := 1
			for ; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					if i++; i == len(s) {
						return nil, nil, false
					}
				}
				e += s[i : i+1]
			}
			if i >= len(s) {
				return nil, nil, false
			}
			s = s[i+1:]
			elems, nulls = append(elems, e), append(nulls, false)
		} else {
			i := strings.IndexAny(s, ","+gvClose)
			if i < 0 {
				i = len(s)
			}
			e, s = s[:i], s[i:]
			if e == "" || strings.HasPrefix(e, gvOpen) {
				return nil, nil, false
			}
			elems, nulls = append(elems, e), append(nulls, e == "NULL")
		}
		if s == "" {
			return elems, nulls, true
		}
		if s[0] != ',' {
			return nil, nil, false
		}
		s = s[1:]
	}
}

// gvDenotes: does the element text denote a value of type t, and which.
func gvDenotes(t reflect.Type, s string, null bool) (v reflect.Value, ok, known bool) {
	v = reflect.New(t).Elem()
	if null && !gvBytesElem(t) {
		return v, false, true
	}
	switch t.Kind() {
	case reflect.Bool:
		if s == "t" || s == "f" {
			v.SetBool(s == "t")
			return v, true, true
		}
		return v, false, s == "" // other spellings: the library may reject or accept them
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if strings.ContainsAny(s, "_xXoObB") { // not base 10
			return v, false, true
		}
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return v, false, true
		}
		if v.CanInt() {
			if !n.IsInt64() || v.OverflowInt(n.Int64()) {
				return v, false, true
			}
			v.SetInt(n.Int64())
		} else {
			if !n.IsUint64() || v.OverflowUint(n.Uint64()) || strings.HasPrefix(s, "-") {
				return v, false, n.Sign() != 0
			}
			v.SetUint(n.Uint64())
			if strings.HasPrefix(s, "+") {
				return v, false, false
			}
		}
		return v, true, true
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, t.Bits())
		if err != nil {
			return v, false, true
		}
		v.SetFloat(f)
		return v, true, !math.IsNaN(f)
	case reflect.String:
		v.SetString(s)
		return v, true, true
	}
	return v, false, false
}

func gvEncode(l gvList, v reflect.Value) (driver.Value, error) {
	return v.Interface().(driver.Valuer).Value()
}

func gvText(v driver.Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case []byte:
		return string(v), true
	}
	return "", false
}

func (r *gvRun) gvRoundTrip() {
	for _, l := range gvLists {
		l := l
		var cases []reflect.Value
		cases = append(cases, reflect.Zero(l.typ), r.gvNew(l, 0))
		for n := 1; n <= 4; n++ {
			for k := 0; k < 30*r.deep; k++ {
				cases = append(cases, r.gvNew(l, n))
			}
		}
		for k := 0; k < 20*r.deep; k++ {
			cases = append(cases, r.gvNew(l, r.rng.Intn(40)))
		}
		if l.elem().Kind() == reflect.String {
			for _, s := range r.texts(200) {
				c := r.gvNew(l, 1+r.rng.Intn(3))
				c.Index(r.rng.Intn(c.Len())).SetString(s)
				cases = append(cases, c)
			}
		}
		if k := l.elem().Kind(); k >= reflect.Int && k <= reflect.Uintptr {
			for _, n := range r.int64s(40) {
				c := r.gvNew(l, 1+r.rng.Intn(3))
				c.Index(r.rng.Intn(c.Len())).Set(reflect.ValueOf(n).Convert(l.elem()))
				cases = append(cases, c)
			}
		}
		for _, c := range cases {
			c := c
			r.try(l.name+" round trip", fmt.Sprintf("%#v", c.Interface()), func() string {
				v, err := gvEncode(l, c)
				if err != nil {
					return "Value returned the error " + err.Error()
				}
				if c.IsNil() {
					if v != nil {
						return fmt.Sprintf("nil list encodes to %#v, not NULL", v)
					}
					return ""
				}
				s, ok := gvText(v)
				if !ok {
					return fmt.Sprintf("encodes to %#v, not text", v)
				}
				if c.Len() == 0 && s != gvOpen+gvClose {
					return fmt.Sprintf("empty list encodes to %q", s)
				}
				elems, nulls, ok := gvReadList(s)
				if !ok || len(elems) != c.Len() {
					return fmt.Sprintf("encodes to %q, which is not the text form of a list of %d elements", s, c.Len())
				}
				for i, e := range elems {
					if gvBytesElem(l.elem()) {
						if e != fmt.Sprintf(`\x%x`, c.Index(i).Bytes()) {
							return fmt.Sprintf("element %d encodes to %q", i, e)
						}
						continue
					}
					d, ok, _ := gvDenotes(l.elem(), e, nulls[i])
					if !ok || !gvSame(reflect.Append(reflect.Zero(l.typ), d), c.Slice(i, i+1)) {
						return fmt.Sprintf("encodes to %q: element %d is %q", s, i, e)
					}
				}
				for _, src := range []any{s, []byte(s)} {
					for _, prev := range []reflect.Value{reflect.Zero(l.typ), r.gvNew(l, 0), r.gvNew(l, r.rng.Intn(4)+1)} {
						p := reflect.New(l.typ)
						p.Elem().Set(prev)
						if err := p.Interface().(sql.Scanner).Scan(src); err != nil {
							return fmt.Sprintf("encodes to %q, scanning that fails: %v", s, err)
						}
						if b, ok := src.([]byte); ok { // the driver reuses its buffer
							for i := range b {
								b[i] = '#'
							}
						}
						same := gvSame(p.Elem(), c)
						got := fmt.Sprintf("%#v", p.Elem().Interface())
						if b, ok := src.([]byte); ok {
							copy(b, s)
						}
						if !same {
							return fmt.Sprintf("encodes to %q, which scans to %s", s, got)
						}
						if p.Elem().IsNil() {
							return fmt.Sprintf("%q scans to a nil list", s)
						}
					}
				}
				return ""
			})
		}
	}
}

// gvListTexts: well- and ill-formed list texts.
func (r *gvRun) gvListTexts(n int) []string {
	out := []string{"", gvOpen, gvClose, gvOpen + gvClose, gvOpen + gvOpen + gvClose + gvClose, gvOpen + "1,2" + gvClose, gvOpen + "1,", gvOpen + "1,NULL" + gvClose, gvOpen + `"a\`, gvOpen + `"a`, gvOpen + ",1" + gvClose, gvOpen + "1,," + gvClose,
		gvOpen + gvOpen + "1" + gvClose + "," + gvOpen + "2" + gvClose + gvClose, gvOpen + "1" + gvClose + "x", gvOpen + gvOpen + "1" + gvClose + ",2" + gvClose, gvOpen + `"t","f"` + gvClose, gvOpen + `1,2,3,99999999999999999999` + gvClose,
		gvOpen + gvClose + gvClose, "null", gvOpen + gvOpen + gvOpen, gvOpen + gvOpen + "1", gvOpen + gvOpen + "1" + gvClose, gvOpen + "1," + gvOpen + "2" + gvClose + gvClose, gvOpen + "1" + gvOpen}
	pieces := []string{gvOpen, gvClose, ",", `"`, `\`, "1", "-", "t", "f", "NULL", "x", "a", "0", "128", "-129", "256", "65536", "70000", "4294967296", "9223372036854775808", "-9223372036854775809", "1e400", "1.5", "NaN", "é", "\x00", " ", `\\x6`, `\\x`, `\\`, `\101`}
	for _, a := range pieces {
		out = append(out, gvOpen+a+gvClose, gvOpen+a, a, gvOpen+"1,"+a+gvClose, gvOpen+"t,"+a+gvClose, gvOpen+gvOpen+a, gvOpen+`"`+a+`"`+gvClose, gvOpen+`"`+a)
		for _, b := range pieces {
			out = append(out, gvOpen+a+b+gvClose, gvOpen+a+b, gvOpen+gvOpen+a+b+gvClose+gvClose)
		}
	}
	for i := 0; i < n*r.deep; i++ {
		var b strings.Builder
		if r.rng.Intn(8) > 0 {
			b.WriteString(gvOpen)
		}
		for k := r.rng.Intn(12); k > 0; k-- {
			b.WriteString(pieces[r.rng.Intn(len(pieces))])
		}
		if r.rng.Intn(4) > 0 {
			b.WriteString(gvClose)
		}
		out = append(out, b.String())
	}
	for _, n := range r.int64s(30) {
		out = append(out, gvOpen+"1,"+strconv.FormatInt(n, 10)+gvClose, gvOpen+strconv.FormatUint(uint64(n), 10)+",1"+gvClose)
	}
	for _, s := range r.strs {
		out = append(out, s, gvOpen+s+gvClose)
	}
	return out
}

// gvDecode: decoding never alters an element.
func (r *gvRun) gvDecode() {
	for _, s := range r.gvListTexts(1500) {
		elems, nulls, ok := gvReadList(s)
		for _, l := range gvLists {
			l := l
			r.try(l.name+" decode", fmt.Sprintf("%q", s), func() string {
				p := reflect.New(l.typ)
				err := p.Interface().(sql.Scanner).Scan(s)
				if err != nil {
					if !ok {
						return ""
					}
					for i, e := range elems {
						if _, ok, known := gvDenotes(l.elem(), e, nulls[i]); !ok || !known {
							return ""
						}
					}
					return "rejected: " + err.Error()
				}
				if !ok {
					return "" // leniency about malformed text is not judged here
				}
				if p.Elem().Len() != len(elems) {
					return fmt.Sprintf("decodes to %#v", p.Elem().Interface())
				}
				for i, e := range elems {
					d, ok, known := gvDenotes(l.elem(), e, nulls[i])
					if !known {
						continue
					}
					if !ok {
						return fmt.Sprintf("element %d (%q) is not representable, got %#v and no error", i, e, p.Elem().Index(i).Interface())
					}
					if !gvSame(reflect.Append(reflect.Zero(l.typ), d), p.Elem().Slice(i, i+1)) {
						return fmt.Sprintf("element %d (%q) decodes to %#v", i, e, p.Elem().Index(i).Interface())
					}
				}
				return ""
			})
		}
	}
}

// gvTotal: no panic, input untouched, an error leaves the target as it was.
func (r *gvRun) gvTotal() {
	texts := append(r.gvListTexts(3000), r.texts(500)...)
	for _, l := range gvLists {
		l := l
		for i, s := range texts {
			var srcs []any
			srcs = append(srcs, s)
			if i%2 == 0 {
				srcs = append(srcs, []byte(s))
			}
			if i == 0 {
				srcs = append(srcs, nil, int64(3), 1.5, true, []byte(nil), struct{}{}, []string{"a"})
			}
			for _, src := range srcs {
				r.try(l.name+" total", fmt.Sprintf("%#v", src), func() string {
					p := reflect.New(l.typ)
					n := r.rng.Intn(4) - 1
					var old reflect.Value
					if n < 0 {
						old = reflect.Zero(l.typ)
					} else {
						old = r.gvNew(l, n)
					}
					cp := reflect.AppendSlice(reflect.MakeSlice(l.typ, 0, 0), old)
					p.Elem().Set(old)
					err := p.Interface().(sql.Scanner).Scan(src)
					if b, ok := src.([]byte); ok && string(b) != s && b != nil {
						return fmt.Sprintf("the input was changed to %q", b)
					}
					if src == nil {
						if err != nil || !p.Elem().IsNil() {
							return fmt.Sprintf("NULL: err=%v, target %#v", err, p.Elem().Interface())
						}
						return ""
					}
					switch src.(type) {
					case string, []byte:
					default:
						if err == nil {
							return "an unsupported driver type was accepted"
						}
					}
					if err != nil && (p.Elem().IsNil() != (n < 0) || !gvSame(p.Elem(), cp)) {
						return fmt.Sprintf("error %v, but the target changed from %#v to %#v", err, cp.Interface(), p.Elem().Interface())
					}
					return ""
				})
			}
		}
	}
}

// gvNull: NULL clears the list.
func (r *gvRun) gvNull() {
	for _, l := range gvLists {
		l := l
		for n := -1; n < 3; n++ {
			n := n
			r.try(l.name+" NULL", fmt.Sprint("previous length ", n), func() string {
				p := reflect.New(l.typ)
				if n >= 0 {
					p.Elem().Set(r.gvNew(l, n))
				}
				if err := p.Interface().(sql.Scanner).Scan(nil); err != nil || !p.Elem().IsNil() {
					return fmt.Sprintf("err=%v, target %#v", err, p.Elem().Interface())
				}
				return ""
			})
		}
	}
}

func TestGovc_C05(t *testing.T) {
	r := gvStart(t)
	r.gvRoundTrip()
	r.gvDecode()
	r.done()
}

func TestGovc_C06(t *testing.T) {
	r := gvStart(t)
	r.gvTotal()
	r.done()
}

func TestGovc_C02(t *testing.T) {
	r := gvStart(t)
	r.gvNull()
	r.done()
}
