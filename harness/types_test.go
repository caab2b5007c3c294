package types

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"
)

type gvBin struct {
	got   []byte
	calls int
	fail  error
}

func (g *gvBin) UnmarshalBinary(b []byte) error {
	g.calls++
	g.got = bytes.Clone(b)
	return g.fail
}
func (g gvBin) MarshalBinary() ([]byte, error) { return g.got, g.fail }

func TestGovc_C17(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	for _, fail := range []error{nil, errors.New("boom")} {
		for _, s := range r.texts(50) {
			in := fmt.Sprintf("%q, error %v", s, fail)
			r.try("BinaryUnmarshaler", in, func() string {
				x := &gvBin{fail: fail}
				if err := BinaryUnmarshaler(x).Scan([]byte(s)); err != fail || x.calls != 1 || string(x.got) != s {
					return fmt.Sprintf("calls=%d got=%q err=%v", x.calls, x.got, err)
				}
				return ""
			})
			r.try("BinaryMarshaler", in, func() string {
				v, err := BinaryMarshaler(gvBin{got: []byte(s), fail: fail}).Value()
				if b, ok := v.([]byte); err != fail || !ok || string(b) != s {
					return fmt.Sprintf("%#v %v", v, err)
				}
				return ""
			})
		}
		for _, v := range []any{nil, 1, int64(1), "text", 1.5, true, time.Now(), struct{}{}} {
			r.try("BinaryUnmarshaler unsupported driver type", fmt.Sprintf("%T", v), func() string {
				x := &gvBin{fail: fail}
				if err := BinaryUnmarshaler(x).Scan(v); err == nil || x.calls != 0 {
					return fmt.Sprintf("calls=%d err=%v", x.calls, err)
				}
				return ""
			})
		}
	}
}
