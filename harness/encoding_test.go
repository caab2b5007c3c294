package encoding

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/si3nloong/sqlgen/sequel/strpool"
)

// gvScan: scans v into a value holding old (value target) and into a pointer
// (pointer target), and compares with want; ok says whether v must be accepted.
func gvScan[T any](r *gvRun, name string, mkv func(*T) sql.Scanner, mkp func(**T) sql.Scanner, old T, v any, must, mustNot bool, eq func(T) bool) {
	in := fmt.Sprintf("%T(%#v) into %T holding %#v", v, v, old, old)
	if ts, ok := v.(time.Time); ok {
		in = fmt.Sprintf("time.Time(%s) into %T", ts.Format(time.RFC3339Nano), old)
	}
	cp := v
	if b, ok := v.([]byte); ok {
		cp = bytes.Clone(b)
	}
	poison := func() {
		if b, ok := cp.([]byte); ok {
			for i := range b {
				b[i] ^= 0x55
			}
		}
	}
	r.try(name+" value target", in, func() string {
		if b, ok := v.([]byte); ok {
			cp = bytes.Clone(b)
		}
		x := old
		err := mkv(&x).Scan(cp)
		poison()
		switch {
		case err != nil && !reflect.DeepEqual(x, old):
			return fmt.Sprintf("error %v but the target became %#v", err, x)
		case err != nil && must:
			return fmt.Sprintf("refused: %v", err)
		case err == nil && mustNot:
			return fmt.Sprintf("accepted, target is %#v", x)
		case err == nil && !eq(x):
			return fmt.Sprintf("target is %#v", x)
		}
		return ""
	})
	r.try(name+" pointer target", in, func() string {
		if b, ok := v.([]byte); ok {
			cp = bytes.Clone(b)
		}
		o := old
		x := &o
		err := mkp(&x).Scan(cp)
		poison()
		switch {
		case !reflect.DeepEqual(o, old):
			return fmt.Sprintf("the previously pointed-to value became %#v", o)
		case err != nil && x != &o:
			return fmt.Sprintf("error %v but the pointer was replaced", err)
		case err != nil && must:
			return fmt.Sprintf("refused: %v", err)
		case err == nil && mustNot:
			return "accepted"
		case err == nil && (x == nil || x == &o):
			return "success without storing a value"
		case err == nil && !eq(*x):
			return fmt.Sprintf("value is %#v", *x)
		}
		return ""
	})
}

func gvNull[T any](r *gvRun, name string, mkv func(*T) sql.Scanner, mkp func(**T) sql.Scanner, old T) {
	r.try(name+" NULL", fmt.Sprintf("nil into %T holding %#v", old, old), func() string {
		x := old
		var zero T
		if err := mkv(&x).Scan(nil); err != nil {
			return err.Error()
		}
		if !reflect.DeepEqual(x, zero) {
			return fmt.Sprintf("target is %#v", x)
		}
		if mkp == nil {
			return ""
		}
		o := old
		p := &o
		if err := mkp(&p).Scan(nil); err != nil {
			return err.Error()
		}
		if p != nil {
			return "pointer target not nil"
		}
		return ""
	})
}

type gvForeign struct{ A int }

func gvUnsupported() []any {
	return []any{int(1), uint64(3), float32(1), []int{1}, gvForeign{1}, json.Number("1"), []string{"1"}, &gvForeign{}}
}

// gvIntText: s is a decimal integer as strconv reads it, of any size.
func gvIntText(s string, signed bool) (*big.Int, bool) {
	d := s
	if signed && len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	if d == "" {
		return nil, false
	}
	for i := range len(d) {
		if d[i] < '0' || d[i] > '9' {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(d, 10)
	if ok && s[0] == '-' {
		n.Neg(n)
	}
	return n, ok
}

type gvInteger interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func gvInts[T gvInteger](r *gvRun, name string, bits uint, signed bool, mkv func(*T) sql.Scanner, mkp func(**T) sql.Scanner) {
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	fits := func(n *big.Int) bool { return n.Cmp(lo) >= 0 && n.Cmp(hi) < 0 }
	val := func(n *big.Int) func(T) bool {
		return func(x T) bool { return n != nil && fmt.Sprint(x) == n.String() }
	}
	for _, n := range r.int64s(200) {
		b := big.NewInt(n)
		w := b
		ok := fits(b)
		if !signed && bits == 64 {
			ok = true
			w = new(big.Int).SetUint64(uint64(n))
		}
		gvScan(r, name, mkv, mkp, T(42), any(n), ok, !ok, val(w))
	}
	txt := r.texts(100)
	for _, n := range r.int64s(100) {
		txt = append(txt, strconv.FormatInt(n, 10), strconv.FormatUint(uint64(n), 10), "+"+strconv.FormatInt(n, 10), strconv.FormatInt(n, 10)+"0", "00"+strconv.FormatInt(n, 10), "0x"+strconv.FormatInt(n, 16))
	}
	for _, s := range txt {
		n, ok := gvIntText(s, signed)
		ok = ok && fits(n)
		gvScan(r, name, mkv, mkp, T(42), any([]byte(s)), ok, !ok, val(n))
	}
	for _, v := range append(gvUnsupported(), true, 1.5, time.Now()) {
		gvScan(r, name, mkv, mkp, T(42), v, false, true, val(nil))
	}
}

func TestGovc_C01(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	gvInts(r, "IntScanner", 64, true, func(p *int) sql.Scanner { return IntScanner[int](p) }, func(p **int) sql.Scanner { return IntScanner[int](p) })
	gvInts(r, "Int8Scanner", 8, true, func(p *int8) sql.Scanner { return Int8Scanner[int8](p) }, func(p **int8) sql.Scanner { return Int8Scanner[int8](p) })
	gvInts(r, "Int16Scanner", 16, true, func(p *int16) sql.Scanner { return Int16Scanner[int16](p) }, func(p **int16) sql.Scanner { return Int16Scanner[int16](p) })
	gvInts(r, "Int32Scanner", 32, true, func(p *int32) sql.Scanner { return Int32Scanner[int32](p) }, func(p **int32) sql.Scanner { return Int32Scanner[int32](p) })
	gvInts(r, "Int64Scanner", 64, true, func(p *int64) sql.Scanner { return Int64Scanner[int64](p) }, func(p **int64) sql.Scanner { return Int64Scanner[int64](p) })
	gvInts(r, "UintScanner", 64, false, func(p *uint) sql.Scanner { return UintScanner[uint](p) }, func(p **uint) sql.Scanner { return UintScanner[uint](p) })
	gvInts(r, "Uint8Scanner", 8, false, func(p *uint8) sql.Scanner { return Uint8Scanner[uint8](p) }, func(p **uint8) sql.Scanner { return Uint8Scanner[uint8](p) })
	gvInts(r, "Uint16Scanner", 16, false, func(p *uint16) sql.Scanner { return Uint16Scanner[uint16](p) }, func(p **uint16) sql.Scanner { return Uint16Scanner[uint16](p) })
	gvInts(r, "Uint32Scanner", 32, false, func(p *uint32) sql.Scanner { return Uint32Scanner[uint32](p) }, func(p **uint32) sql.Scanner { return Uint32Scanner[uint32](p) })
	gvInts(r, "Uint64Scanner", 64, false, func(p *uint64) sql.Scanner { return Uint64Scanner[uint64](p) }, func(p **uint64) sql.Scanner { return Uint64Scanner[uint64](p) })

	floats := []float64{0, 1, -1.5, 0.1, 1e300, 3.4e38, 3.5e38, -1e-320, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.MaxFloat32, 16777217}
	for i := 0; i < 60*r.deep; i++ {
		floats = append(floats, math.Float64frombits(r.rng.Uint64()))
	}
	for _, strict := range []bool{false, true} {
		m64 := func(p *float64) sql.Scanner { return Float64Scanner[float64](p, strict) }
		p64 := func(p **float64) sql.Scanner { return Float64Scanner[float64](p, strict) }
		m32 := func(p *float32) sql.Scanner { return Float32Scanner[float32](p, strict) }
		p32 := func(p **float32) sql.Scanner { return Float32Scanner[float32](p, strict) }
		n := fmt.Sprintf("strict=%v", strict)
		for _, f := range floats {
			if f != f {
				continue
			}
			gvScan(r, "Float64Scanner "+n, m64, p64, 4.25, any(f), true, false, func(x float64) bool { return x == f })
			gvScan(r, "Float32Scanner "+n, m32, p32, 4.25, any(f), true, false, func(x float32) bool { return x == float32(f) })
		}
		for _, k := range r.int64s(30) {
			gvScan(r, "Float64Scanner "+n, m64, p64, 4.25, any(k), true, false, func(x float64) bool { return x == float64(k) })
			gvScan(r, "Float32Scanner "+n, m32, p32, 4.25, any(k), true, false, func(x float32) bool { return x == float32(k) })
		}
		txt := r.texts(50)
		for _, f := range floats {
			txt = append(txt, strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'f', 4, 64))
		}
		for _, s := range txt {
			f64, e64 := strconv.ParseFloat(s, 64)
			f32, e32 := strconv.ParseFloat(s, 32)
			if f64 != f64 {
				continue
			}
			for _, v := range []any{[]byte(s), s} {
				ok := e64 == nil && !strict
				gvScan(r, "Float64Scanner "+n, m64, p64, 4.25, v, ok, !ok, func(x float64) bool { return x == f64 })
				ok = e32 == nil && !strict
				gvScan(r, "Float32Scanner "+n, m32, p32, 4.25, v, ok, !ok, func(x float32) bool { return x == float32(f32) })
			}
		}
		mb := func(p *bool) sql.Scanner { return BoolScanner[bool](p, strict) }
		pb := func(p **bool) sql.Scanner { return BoolScanner[bool](p, strict) }
		for _, old := range []bool{false, true} {
			for _, b := range []bool{false, true} {
				gvScan(r, "BoolScanner "+n, mb, pb, old, any(b), true, false, func(x bool) bool { return x == b })
			}
			for _, k := range r.int64s(30) {
				gvScan(r, "BoolScanner "+n, mb, pb, old, any(k), true, false, func(x bool) bool { return x == (k != 0) })
			}
			for _, s := range append(r.texts(50), "true", "false", "TRUE", "FALSE", "True", "False", "t", "f", "T", "F", "1", "0", "yes", "tRUE", "2") {
				b, err := strconv.ParseBool(s)
				ok := err == nil && !strict
				for _, v := range []any{[]byte(s), s} {
					gvScan(r, "BoolScanner "+n, mb, pb, old, v, ok, !ok, func(x bool) bool { return x == b })
				}
			}
			for _, v := range append(gvUnsupported(), time.Now()) {
				gvScan(r, "BoolScanner "+n, mb, pb, old, v, false, true, func(bool) bool { return false })
			}
		}
		for _, v := range append(gvUnsupported(), true, time.Now()) {
			gvScan(r, "Float64Scanner "+n, m64, p64, 4.25, v, false, true, func(float64) bool { return false })
			gvScan(r, "Float32Scanner "+n, m32, p32, 4.25, v, false, true, func(float32) bool { return false })
		}
		ms := func(p *string) sql.Scanner { return StringScanner[string](p, strict) }
		ps := func(p **string) sql.Scanner { return StringScanner[string](p, strict) }
		my := func(p *[]byte) sql.Scanner { return StringScanner[[]byte](p, strict) }
		py := func(p **[]byte) sql.Scanner { return StringScanner[[]byte](p, strict) }
		str := func(v any, want string, ok bool) {
			gvScan(r, "StringScanner "+n, ms, ps, "old", v, ok, !ok, func(x string) bool { return x == want })
			gvScan(r, "StringScanner[[]byte] "+n, my, py, []byte("old"), v, ok, !ok, func(x []byte) bool { return string(x) == want })
		}
		for _, s := range append(r.texts(50), "hello world", string(make([]byte, 300))) {
			str(s, s, true)
			str([]byte(s), s, true)
		}
		for _, k := range r.int64s(30) {
			str(k, strconv.FormatInt(k, 10), !strict)
		}
		for _, f := range floats {
			str(f, strconv.FormatFloat(f, 'f', -1, 64), !strict)
		}
		str(true, "true", !strict)
		str(false, "false", !strict)
		ts := time.Unix(1700000000, 123456789).UTC()
		str(ts, ts.String(), !strict)
		for _, v := range gvUnsupported() {
			str(v, "", false)
		}
	}
}

type gvJS struct {
	A int
	B string
}

type gvText struct {
	got   []byte
	calls int
	fail  error
}

func (g *gvText) UnmarshalText(b []byte) error {
	g.calls++
	g.got = bytes.Clone(b)
	return g.fail
}
func (g *gvText) MarshalText() ([]byte, error) { return g.got, g.fail }

type gvSc struct {
	got   any
	calls int
	fail  error
}

func (g *gvSc) Scan(v any) error {
	g.calls++
	if b, ok := v.([]byte); ok {
		v = bytes.Clone(b)
	}
	g.got = v
	return g.fail
}

type gvBin struct {
	got   []byte
	calls int
	fail  error
}

func (g *gvBin) UnmarshalBinary(b []byte) error {
	g.calls++
	g.got = bytes.Clone(b)
	return g.fail
}
func (g gvBin) MarshalBinary() ([]byte, error) { return g.got, g.fail }

func TestGovc_C02(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	gvNull(r, "IntScanner", func(p *int) sql.Scanner { return IntScanner[int](p) }, func(p **int) sql.Scanner { return IntScanner[int](p) }, 5)
	gvNull(r, "Int8Scanner", func(p *int8) sql.Scanner { return Int8Scanner[int8](p) }, func(p **int8) sql.Scanner { return Int8Scanner[int8](p) }, 5)
	gvNull(r, "Int16Scanner", func(p *int16) sql.Scanner { return Int16Scanner[int16](p) }, func(p **int16) sql.Scanner { return Int16Scanner[int16](p) }, 5)
	gvNull(r, "Int32Scanner", func(p *int32) sql.Scanner { return Int32Scanner[int32](p) }, func(p **int32) sql.Scanner { return Int32Scanner[int32](p) }, 5)
	gvNull(r, "Int64Scanner", func(p *int64) sql.Scanner { return Int64Scanner[int64](p) }, func(p **int64) sql.Scanner { return Int64Scanner[int64](p) }, 5)
	gvNull(r, "UintScanner", func(p *uint) sql.Scanner { return UintScanner[uint](p) }, func(p **uint) sql.Scanner { return UintScanner[uint](p) }, 5)
	gvNull(r, "Uint8Scanner", func(p *uint8) sql.Scanner { return Uint8Scanner[uint8](p) }, func(p **uint8) sql.Scanner { return Uint8Scanner[uint8](p) }, 5)
	gvNull(r, "Uint16Scanner", func(p *uint16) sql.Scanner { return Uint16Scanner[uint16](p) }, func(p **uint16) sql.Scanner { return Uint16Scanner[uint16](p) }, 5)
	gvNull(r, "Uint32Scanner", func(p *uint32) sql.Scanner { return Uint32Scanner[uint32](p) }, func(p **uint32) sql.Scanner { return Uint32Scanner[uint32](p) }, 5)
	gvNull(r, "Uint64Scanner", func(p *uint64) sql.Scanner { return Uint64Scanner[uint64](p) }, func(p **uint64) sql.Scanner { return Uint64Scanner[uint64](p) }, 5)
	for _, strict := range [][]bool{nil, {false}, {true}} {
		gvNull(r, "Float32Scanner", func(p *float32) sql.Scanner { return Float32Scanner[float32](p, strict...) }, func(p **float32) sql.Scanner { return Float32Scanner[float32](p, strict...) }, 5)
		gvNull(r, "Float64Scanner", func(p *float64) sql.Scanner { return Float64Scanner[float64](p, strict...) }, func(p **float64) sql.Scanner { return Float64Scanner[float64](p, strict...) }, 5)
		gvNull(r, "BoolScanner", func(p *bool) sql.Scanner { return BoolScanner[bool](p, strict...) }, func(p **bool) sql.Scanner { return BoolScanner[bool](p, strict...) }, true)
		gvNull(r, "StringScanner", func(p *string) sql.Scanner { return StringScanner[string](p, strict...) }, func(p **string) sql.Scanner { return StringScanner[string](p, strict...) }, "old")
		gvNull(r, "StringScanner[[]byte]", func(p *[]byte) sql.Scanner { return StringScanner[[]byte](p, strict...) }, func(p **[]byte) sql.Scanner { return StringScanner[[]byte](p, strict...) }, []byte("old"))
	}
	gvNull(r, "TimeScanner", func(p *time.Time) sql.Scanner { return TimeScanner(p) }, func(p **time.Time) sql.Scanner { return TimeScanner(p) }, time.Now())
	gvNull(r, "JSONScanner struct", func(p *gvJS) sql.Scanner { return JSONScanner(p) }, nil, gvJS{1, "x"})
	gvNull(r, "JSONScanner pointer", func(p **gvJS) sql.Scanner { return JSONScanner(p) }, nil, &gvJS{1, "x"})
	gvNull(r, "JSONScanner slice", func(p *[]int) sql.Scanner { return JSONScanner(p) }, nil, []int{1, 2})
	gvNull(r, "JSONScanner map", func(p *map[string]int) sql.Scanner { return JSONScanner(p) }, nil, map[string]int{"a": 1})
	gvNull(r, "TextScanner", func(p *gvText) sql.Scanner { return TextScanner[gvText, *gvText](p) }, func(p **gvText) sql.Scanner { return TextScanner[gvText, *gvText](p) }, gvText{got: []byte("x")})
	gvNull(r, "PtrScanner", func(p **gvSc) sql.Scanner { return PtrScanner(p) }, nil, &gvSc{got: 1})
	for k := 0; k < 200; k++ {
		n := k % 20
		// contents before the NULL: random, with zeros among them
		old := make([]byte, n)
		for i := range old {
			old[i] = byte(r.rng.Intn(3)) * byte(r.rng.Intn(128))
		}
		r.try("ByteArrayScanner NULL", fmt.Sprintf("nil into [%d]byte%v", n, old), func() string {
			a := append([]byte{}, old...)
			if err := ByteArrayScanner(a, n).Scan(nil); err != nil {
				return err.Error()
			}
			if !bytes.Equal(a, make([]byte, n)) {
				return fmt.Sprintf("array is %v", a)
			}
			return ""
		})
		r.try("RuneArrayScanner NULL", fmt.Sprintf("nil into [%d]rune%v", n, old), func() string {
			a := make([]rune, n)
			for i := range a {
				a[i] = rune(old[i]) << 9
			}
			if err := RuneArrayScanner(a, n).Scan(nil); err != nil {
				return err.Error()
			}
			for _, c := range a {
				if c != 0 {
					return fmt.Sprintf("array is %v", a)
				}
			}
			return ""
		})
	}
}

func TestGovc_C03(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	for _, s := range append(r.texts(300), "héllo, wörld", "现在最夯的产品！🔥", "😀😀😀") {
		rs := []rune(s)
		for _, n := range []int{0, 1, 2, len(rs) - 1, len(rs), len(rs) + 1, len(s), len(s) + 3} {
			if n < 0 {
				continue
			}
			for _, v := range []any{[]byte(s), s} {
				in := fmt.Sprintf("%T %q into an array of %d", v, s, n)
				r.try("ByteArrayScanner", in, func() string {
					a := bytes.Repeat([]byte{'z'}, n)
					err := ByteArrayScanner(a, n).Scan(v)
					if err != nil {
						if len(s) <= n {
							return "refused: " + err.Error()
						}
						if !bytes.Equal(a, bytes.Repeat([]byte{'z'}, n)) {
							return fmt.Sprintf("error, but the array is %q", a)
						}
						return ""
					}
					if len(s) > n || string(a[:len(s)]) != s {
						return fmt.Sprintf("array is %q", a)
					}
					return ""
				})
				r.try("RuneArrayScanner", in, func() string {
					a := make([]rune, n)
					for i := range a {
						a[i] = 'z'
					}
					err := RuneArrayScanner(a, n).Scan(v)
					if err != nil {
						if len(rs) <= n {
							return "refused: " + err.Error()
						}
						for _, c := range a {
							if c != 'z' {
								return fmt.Sprintf("error, but the array is %q", a)
							}
						}
						return ""
					}
					if len(rs) > n || string(a[:len(rs)]) != string(rs) {
						return fmt.Sprintf("array is %q", a)
					}
					return ""
				})
			}
		}
	}
	for _, v := range append(gvUnsupported(), int64(1), 1.5, true, time.Now()) {
		r.try("array scanners, unsupported driver type", fmt.Sprintf("%T", v), func() string {
			a, b := []byte("zz"), []rune("zz")
			if ByteArrayScanner(a, 2).Scan(v) == nil || RuneArrayScanner(b, 2).Scan(v) == nil {
				return "accepted"
			}
			if string(a) != "zz" || string(b) != "zz" {
				return "array changed"
			}
			return ""
		})
	}
}

func TestGovc_C17(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	boom := errors.New("boom")
	text := func(v any, want []byte, supported bool) {
		for _, fail := range []error{nil, boom} {
			in := fmt.Sprintf("%T(%#v), decoder error %v", v, v, fail)
			for _, mode := range []string{"value", "pointer"} {
				r.try("TextScanner "+mode, in, func() string {
					x := &gvText{fail: fail}
					var err error
					if mode == "value" {
						err = TextScanner[gvText, *gvText](x).Scan(v)
					} else {
						err = TextScanner[gvText, *gvText](&x).Scan(v)
					}
					if !supported {
						if err == nil || x.calls != 0 {
							return fmt.Sprintf("calls=%d err=%v", x.calls, err)
						}
						return ""
					}
					if x.calls != 1 || !bytes.Equal(x.got, want) || err != fail {
						return fmt.Sprintf("calls=%d got=%q err=%v", x.calls, x.got, err)
					}
					return ""
				})
			}
		}
	}
	for _, s := range r.texts(100) {
		text(s, []byte(s), true)
		text([]byte(s), []byte(s), true)
	}
	for _, n := range r.int64s(50) {
		text(n, []byte(strconv.FormatInt(n, 10)), true)
	}
	for _, f := range []float64{0, 1.5, -2.25, 1e21, 1e-7, math.MaxFloat64} {
		text(f, []byte(strconv.FormatFloat(f, 'f', -1, 64)), true)
	}
	text(true, []byte{1}, true)
	text(false, []byte{0}, true)
	ts := time.Unix(1700000000, 5).UTC()
	b, _ := ts.MarshalText()
	text(ts, b, true)
	for _, v := range gvUnsupported() {
		text(v, nil, false)
	}
	vals := append(gvUnsupported(), int64(1), 2.5, true, "txt", []byte("raw"), ts)
	for _, s := range r.texts(30) {
		vals = append(vals, s, []byte(s))
	}
	for _, fail := range []error{nil, boom} {
		for _, v := range vals {
			in := fmt.Sprintf("%T(%#v), decoder error %v", v, v, fail)
			r.try("PtrScanner", in, func() string {
				x := &gvSc{fail: fail}
				p := x
				switch v.(type) {
				case string, []byte, bool, int64, float64, time.Time:
				default:
					if err := PtrScanner(&p).Scan(v); err == nil || x.calls != 0 {
						return fmt.Sprintf("unsupported driver type: calls=%d err=%v", x.calls, err)
					}
					return ""
				}
				if err := PtrScanner(&p).Scan(v); err != fail || x.calls != 1 || !reflect.DeepEqual(x.got, v) || p != x {
					return fmt.Sprintf("calls=%d got=%#v err=%v", x.calls, x.got, err)
				}
				return ""
			})
		}
		for _, s := range r.texts(30) {
			in := fmt.Sprintf("%q, error %v", s, fail)
			r.try("TextValue", in, func() string {
				v, err := TextValue(&gvText{got: []byte(s), fail: fail}).Value()
				if b, ok := v.([]byte); err != fail || !ok || string(b) != s {
					return fmt.Sprintf("%#v %v", v, err)
				}
				return ""
			})
		}
	}
}

func TestGovc_C19(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	mk := func(p *time.Time) sql.Scanner { return TimeScanner(p) }
	mp := func(p **time.Time) sql.Scanner { return TimeScanner(p) }
	old := time.Unix(42, 42).UTC()
	chk := func(v any, must, mustNot bool, want time.Time) {
		gvScan(r, "TimeScanner", mk, mp, old, v, must, mustNot, func(x time.Time) bool { return x.Equal(want) })
	}
	text := func(s string) {
		// reference: the four documented layouts, each with its exact shape
		shape := func(p string) bool {
			if len(s) < len(p) {
				return false
			}
			for i := range len(p) {
				if p[i] == 'd' && (s[i] < '0' || s[i] > '9') || p[i] != 'd' && p[i] != s[i] {
					return false
				}
			}
			return true
		}
		layout := time.RFC3339Nano
		switch d, dt := "dddd-dd-dd", "dddd-dd-dd dd:dd:dd"; {
		case len(s) == len(d) && shape(d):
			layout = "2006-01-02"
		case len(s) == len(dt) && shape(dt):
			layout = "2006-01-02 15:04:05"
		case len(s) > len(dt)+1 && shape(dt+".d"):
			layout = "2006-01-02 15:04:05.999999999"
		}
		want, err := time.Parse(layout, s)
		ok := err == nil
		chk(s, ok, !ok, want)
		chk([]byte(s), ok, !ok, want)
	}
	var all []time.Time
	for i := 0; i < 200*r.deep; i++ {
		all = append(all, time.Unix(r.rng.Int63n(200000000000)-60000000000, r.rng.Int63n(1e9)).UTC())
	}
	all = append(all, time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 1, time.UTC))
	z := time.FixedZone("", 5*3600+1800)
	for _, ts := range all {
		for _, l := range []string{"2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.0", "2006-01-02 15:04:05.000", "2006-01-02 15:04:05.000000", "2006-01-02 15:04:05.000000000", time.RFC3339, time.RFC3339Nano} {
			text(ts.Format(l))
			text(ts.In(z).Format(l))
		}
		chk(ts, true, false, ts)
	}
	for _, s := range append(r.texts(100), "2024-13-01", "2023-02-29", "2024-01-01 24:00:00", "2024-01-01 10:00", "24-01-01", "2024-01-01T10:00:00", "2024-1-1", " 2024-01-01", "2024-01-01\n", "2024-01-01 10:00:00\n", "2024/01/01", "01-02-2024", "2024-01-01 10:00:00.", "2024-01-01 10:00:00.x", "2024-01-01\t10:00:00") {
		text(s)
	}
	for i := 0; i < 300*r.deep; i++ {
		b := []byte(all[r.rng.Intn(len(all))].Format([]string{"2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.000000", time.RFC3339Nano}[r.rng.Intn(4)]))
		b[r.rng.Intn(len(b))] = "0129-:. TZ+x"[r.rng.Intn(12)]
		text(string(b))
	}
	for _, n := range r.int64s(100) {
		if n > -1<<55 && n < 1<<55 {
			chk(n, true, false, time.Unix(n, 0))
		}
	}
	for _, v := range append(gvUnsupported(), true, 1.5) {
		chk(v, false, true, old)
	}
}

// gvJSONList: the text is a JSON list whose elements satisfy eq, without blanks.
func gvJSONList(text string, n int, eq func(i int, e json.RawMessage) string) string {
	var l []json.RawMessage
	if err := json.Unmarshal([]byte(text), &l); err != nil {
		return fmt.Sprintf("%q is not a JSON list: %v", text, err)
	}
	if len(l) != n {
		return fmt.Sprintf("%q has %d elements, want %d", text, len(l), n)
	}
	var b bytes.Buffer
	b.WriteByte('[')
	for i, e := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.Write(e)
	}
	b.WriteByte(']')
	if b.String() != text {
		return fmt.Sprintf("%q has more than brackets, elements and single commas", text)
	}
	for i, e := range l {
		if m := eq(i, e); m != "" {
			return fmt.Sprintf("element %d of %q: %s", i, text, m)
		}
	}
	return ""
}

func gvMInts[T ~int | ~int8 | ~int16 | ~int32 | ~int64](r *gvRun, name string, lens []int) {
	for k, n := range lens {
		vs := r.int64s(20)
		l := make([]T, n)
		for i := range l {
			l[i] = T(vs[(i+k)%len(vs)])
			if k%3 == 2 {
				l[i] = T(vs[r.rng.Intn(len(vs))])
			}
		}
		r.try(name, fmt.Sprint(l), func() string {
			cp := append([]T(nil), l...)
			m := gvJSONList(MarshalIntSlice(l), n, func(i int, e json.RawMessage) string {
				if w := strconv.FormatInt(int64(cp[i]), 10); string(e) != w {
					return "want " + w
				}
				return ""
			})
			if m == "" && !reflect.DeepEqual(append([]T{}, l...), append([]T{}, cp...)) {
				return "the list was changed"
			}
			return m
		})
	}
}

func gvMUints[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](r *gvRun, name string, lens []int) {
	for k, n := range lens {
		vs := r.int64s(20)
		l := make([]T, n)
		for i := range l {
			l[i] = T(vs[(i+k)%len(vs)])
			if k%3 == 2 {
				l[i] = T(vs[r.rng.Intn(len(vs))])
			}
		}
		r.try(name, fmt.Sprint(l), func() string {
			return gvJSONList(MarshalUintSlice(l), n, func(i int, e json.RawMessage) string {
				if w := strconv.FormatUint(uint64(l[i]), 10); string(e) != w {
					return "want " + w
				}
				return ""
			})
		})
	}
}

func (r *gvRun) gvMarshalers() {
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000}
	for i := 0; i < 40*r.deep; i++ {
		lens = append(lens, r.rng.Intn(40))
	}
	gvMInts[int](r, "MarshalIntSlice[int]", lens)
	gvMInts[int8](r, "MarshalIntSlice[int8]", lens)
	gvMInts[int16](r, "MarshalIntSlice[int16]", lens)
	gvMInts[int32](r, "MarshalIntSlice[int32]", lens)
	gvMInts[int64](r, "MarshalIntSlice[int64]", lens)
	gvMUints[uint](r, "MarshalUintSlice[uint]", lens)
	gvMUints[uint8](r, "MarshalUintSlice[uint8]", lens)
	gvMUints[uint16](r, "MarshalUintSlice[uint16]", lens)
	gvMUints[uint32](r, "MarshalUintSlice[uint32]", lens)
	gvMUints[uint64](r, "MarshalUintSlice[uint64]", lens)
	gvMUints[uintptr](r, "MarshalUintSlice[uintptr]", lens)
	texts := r.texts(600)
	for k, n := range lens {
		bl, fl, tl, sl := make([]bool, n), make([]float64, n), make([]time.Time, n), make([]string, n)
		prec := r.rng.Intn(12) - 1
		for i := 0; i < n; i++ {
			bl[i] = r.rng.Intn(2) == 0
			fl[i] = []float64{0, 1, -1.5, 0.1, 1e21, 123456789.987654321, -2.5, 1e-7, math.MaxFloat64, r.rng.NormFloat64()}[r.rng.Intn(10)]
			tl[i] = time.Unix(r.rng.Int63n(1<<34), r.rng.Int63n(1e9)).In(time.FixedZone("", 900*(r.rng.Intn(100)-50)))
			sl[i] = texts[r.rng.Intn(len(texts))]
		}
		r.try("MarshalBoolSlice", fmt.Sprint(bl), func() string {
			return gvJSONList(MarshalBoolSlice(bl), n, func(i int, e json.RawMessage) string {
				if w := strconv.FormatBool(bl[i]); string(e) != w {
					return "want " + w
				}
				return ""
			})
		})
		r.try("MarshalFloat64List", fmt.Sprintf("%v with precision %d", fl, prec), func() string {
			return gvJSONList(MarshalFloat64List(fl, prec), n, func(i int, e json.RawMessage) string {
				if w := strconv.FormatFloat(fl[i], 'f', prec, 64); string(e) != w {
					return "want " + w
				}
				return ""
			})
		})
		r.try("MarshalFloat64List default", fmt.Sprint(fl), func() string {
			return gvJSONList(MarshalFloat64List(fl), n, func(i int, e json.RawMessage) string {
				if w, w2 := strconv.FormatFloat(fl[i], 'f', 0, 64), strconv.FormatFloat(fl[i], 'f', -1, 64); string(e) != w && string(e) != w2 {
					return "want " + w2
				}
				return ""
			})
		})
		r.try("MarshalTimeList", fmt.Sprint(tl), func() string {
			return gvJSONList(MarshalTimeList(tl), n, func(i int, e json.RawMessage) string {
				if w, w2 := tl[i].Format(`"`+time.RFC3339+`"`), tl[i].Format(`"`+time.RFC3339Nano+`"`); string(e) != w && string(e) != w2 {
					return "want " + w
				}
				return ""
			})
		})
		_ = k
	}
	str := func(sl []string) {
		by := make([][]byte, len(sl))
		for i := range sl {
			by[i] = []byte(sl[i])
		}
		chk := func(i int, e json.RawMessage) string {
			var s string
			if err := json.Unmarshal(e, &s); err != nil {
				return err.Error()
			}
			if w := string([]rune(sl[i])); s != w {
				return fmt.Sprintf("denotes %q, want %q", s, w)
			}
			return ""
		}
		r.try("MarshalStringSlice", fmt.Sprintf("%q", sl), func() string { return gvJSONList(MarshalStringSlice(sl), len(sl), chk) })
		r.try("MarshalStringSlice bytes", fmt.Sprintf("%q", by), func() string { return gvJSONList(MarshalStringSlice(by), len(by), chk) })
	}
	str(nil)
	for i, s := range texts {
		str([]string{s})
		str([]string{s, texts[(i*7+3)%len(texts)]})
		if i%10 == 0 {
			l := make([]string, r.rng.Intn(40))
			for k := range l {
				l[k] = texts[r.rng.Intn(len(texts))]
			}
			str(l)
		}
	}
}

func TestGovc_C15(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	r.gvMarshalers()
}

// C14: what one caller wrote never shows up in another one's text.
func TestGovc_C14(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	r.gvMarshalers()
	held := map[*strings.Builder]bool{}
	for i := 0; i < 2000; i++ {
		r.try("AcquireString", fmt.Sprintf("acquire %d with %d held", i, len(held)), func() string {
			b := strpool.AcquireString()
			if b.Len() != 0 {
				return fmt.Sprintf("handed out with %q", b.String())
			}
			if held[b] {
				return "handed out twice"
			}
			held[b] = true
			b.WriteString(strconv.Itoa(i))
			if r.rng.Intn(3) > 0 {
				for h := range held {
					delete(held, h)
					s := h.String()
					strpool.ReleaseString(h)
					if _, err := strconv.Atoi(s); err != nil {
						return fmt.Sprintf("holds %q", s)
					}
					break
				}
			}
			return ""
		})
	}
	// the text returned stays what it was while others use the pool
	type kept struct {
		l []int64
		s string
	}
	var all []kept
	for i := 0; i < 3000; i++ {
		n := r.rng.Intn(6)
		l := make([]int64, n)
		for k := range l {
			l[k] = r.rng.Int63n(1000) - 500
		}
		all = append(all, kept{l, MarshalIntSlice(l)})
	}
	r.try("MarshalIntSlice results", "3000 results kept while the pool is reused", func() string {
		for _, k := range all {
			if m := gvJSONList(k.s, len(k.l), func(i int, e json.RawMessage) string {
				if string(e) != strconv.FormatInt(k.l[i], 10) {
					return "changed"
				}
				return ""
			}); m != "" {
				return m
			}
		}
		return ""
	})
	r.try("concurrent serialisation", "8 goroutines", func() string {
		errs := make(chan string, 8)
		for g := 0; g < 8; g++ {
			g := g
			go func() {
				l := []string{strconv.Itoa(g), strconv.Itoa(g), strconv.Itoa(g)}
				w := fmt.Sprintf(`["%d","%d","%d"]`, g, g, g)
				for i := 0; i < 3000; i++ {
					if s := MarshalStringSlice(l); s != w {
						errs <- fmt.Sprintf("%q instead of %q", s, w)
						return
					}
				}
				errs <- ""
			}()
		}
		for g := 0; g < 8; g++ {
			if m := <-errs; m != "" {
				return m
			}
		}
		return ""
	})
}
