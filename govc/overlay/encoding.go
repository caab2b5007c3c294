package encoding

// Verification drivers: instantiations of the real generic code.  This file
// is never part of /repo; the loader adds it to the package in memory.

import "time"

type (
	gvInt   int
	gvI8    int8
	gvI16   int16
	gvI32   int32
	gvI64   int64
	gvUint  uint
	gvU8    uint8
	gvU16   uint16
	gvU32   uint32
	gvU64   uint64
	gvF32   float32
	gvF64   float64
	gvBool  bool
	gvStr   string
	gvBytes []byte
	gvByte  byte
	gvRune  rune
)

func gvIntVal(p *gvInt, v any) error   { return IntScanner[gvInt](p).Scan(v) }
func gvIntPtr(p **gvInt, v any) error  { return IntScanner[gvInt](p).Scan(v) }
func gvI8Val(p *gvI8, v any) error     { return Int8Scanner[gvI8](p).Scan(v) }
func gvI8Ptr(p **gvI8, v any) error    { return Int8Scanner[gvI8](p).Scan(v) }
func gvI16Val(p *gvI16, v any) error   { return Int16Scanner[gvI16](p).Scan(v) }
func gvI16Ptr(p **gvI16, v any) error  { return Int16Scanner[gvI16](p).Scan(v) }
func gvI32Val(p *gvI32, v any) error   { return Int32Scanner[gvI32](p).Scan(v) }
func gvI32Ptr(p **gvI32, v any) error  { return Int32Scanner[gvI32](p).Scan(v) }
func gvI64Val(p *gvI64, v any) error   { return Int64Scanner[gvI64](p).Scan(v) }
func gvI64Ptr(p **gvI64, v any) error  { return Int64Scanner[gvI64](p).Scan(v) }
func gvUintVal(p *gvUint, v any) error { return UintScanner[gvUint](p).Scan(v) }
func gvUintPtr(p **gvUint, v any) error {
	return UintScanner[gvUint](p).Scan(v)
}
func gvU8Val(p *gvU8, v any) error    { return Uint8Scanner[gvU8](p).Scan(v) }
func gvU8Ptr(p **gvU8, v any) error   { return Uint8Scanner[gvU8](p).Scan(v) }
func gvU16Val(p *gvU16, v any) error  { return Uint16Scanner[gvU16](p).Scan(v) }
func gvU16Ptr(p **gvU16, v any) error { return Uint16Scanner[gvU16](p).Scan(v) }
func gvU32Val(p *gvU32, v any) error  { return Uint32Scanner[gvU32](p).Scan(v) }
func gvU32Ptr(p **gvU32, v any) error { return Uint32Scanner[gvU32](p).Scan(v) }
func gvU64Val(p *gvU64, v any) error  { return Uint64Scanner[gvU64](p).Scan(v) }
func gvU64Ptr(p **gvU64, v any) error { return Uint64Scanner[gvU64](p).Scan(v) }

func gvF32Val(p *gvF32, s bool, v any) error   { return Float32Scanner[gvF32](p, s).Scan(v) }
func gvF32Ptr(p **gvF32, s bool, v any) error  { return Float32Scanner[gvF32](p, s).Scan(v) }
func gvF64Val(p *gvF64, s bool, v any) error   { return Float64Scanner[gvF64](p, s).Scan(v) }
func gvF64Ptr(p **gvF64, s bool, v any) error  { return Float64Scanner[gvF64](p, s).Scan(v) }
func gvBoolVal(p *gvBool, s bool, v any) error { return BoolScanner[gvBool](p, s).Scan(v) }
func gvBoolPtr(p **gvBool, s bool, v any) error {
	return BoolScanner[gvBool](p, s).Scan(v)
}
func gvStrVal(p *gvStr, s bool, v any) error  { return StringScanner[gvStr](p, s).Scan(v) }
func gvStrPtr(p **gvStr, s bool, v any) error { return StringScanner[gvStr](p, s).Scan(v) }
func gvBytesVal(p *gvBytes, s bool, v any) error {
	return StringScanner[gvBytes](p, s).Scan(v)
}
func gvBytesPtr(p **gvBytes, s bool, v any) error {
	return StringScanner[gvBytes](p, s).Scan(v)
}

// the same scanners constructed without the optional strict argument
func gvF32Dflt(p *gvF32, v any) error     { return Float32Scanner[gvF32](p).Scan(v) }
func gvF64Dflt(p *gvF64, v any) error     { return Float64Scanner[gvF64](p).Scan(v) }
func gvBoolDflt(p *gvBool, v any) error   { return BoolScanner[gvBool](p).Scan(v) }
func gvStrDflt(p *gvStr, v any) error     { return StringScanner[gvStr](p).Scan(v) }
func gvBytesDflt(p *gvBytes, v any) error { return StringScanner[gvBytes](p).Scan(v) }

func gvTimeVal(p *time.Time, v any) error  { return TimeScanner(p).Scan(v) }
func gvTimePtr(p **time.Time, v any) error { return TimeScanner(p).Scan(v) }

func gvByteArr(a []gvByte, v any) error { return ByteArrayScanner(a, len(a)).Scan(v) }
func gvRuneArr(a []gvRune, v any) error { return RuneArrayScanner(a, len(a)).Scan(v) }

// a type with its own text, binary and scan decoding (left abstract)
type gvText struct{ N int }

func (t *gvText) UnmarshalText(b []byte) error { panic("abstract") }
func (t gvText) MarshalText() ([]byte, error)  { panic("abstract") }

type gvScan struct{ N int }

func (t *gvScan) Scan(v any) error { panic("abstract") }

type gvJSON struct{ N int }

func gvTextVal(p *gvText, v any) error  { return TextScanner[gvText](p).Scan(v) }
func gvTextPtr(p **gvText, v any) error { return TextScanner[gvText, *gvText](p).Scan(v) }
func gvTextEnc(t gvText) (any, error)   { return TextValue(t).Value() }
func gvScanPtr(p **gvScan, v any) error { return PtrScanner(p).Scan(v) }
func gvJSONVal(p *gvJSON, v any) error  { return JSONScanner[gvJSON](p).Scan(v) }
func gvJSONPtr(p **gvJSON, v any) error { return JSONScanner[*gvJSON](p).Scan(v) }
func gvJSONSl(p *[]int, v any) error    { return JSONScanner[[]int](p).Scan(v) }
func gvJSONStr(p *string, v any) error  { return JSONScanner[string](p).Scan(v) }
func gvJSONPS(p **[]int, v any) error   { return JSONScanner[*[]int](p).Scan(v) }

type gvUptr uintptr

func gvMInt(l []gvInt) string                { return MarshalIntSlice(l) }
func gvMInt8(l []gvI8) string                { return MarshalIntSlice(l) }
func gvMInt16(l []gvI16) string              { return MarshalIntSlice(l) }
func gvMInt32(l []gvI32) string              { return MarshalIntSlice(l) }
func gvMInt64(l []gvI64) string              { return MarshalIntSlice(l) }
func gvMUint(l []gvUint) string              { return MarshalUintSlice(l) }
func gvMUint8(l []gvU8) string               { return MarshalUintSlice(l) }
func gvMUint16(l []gvU16) string             { return MarshalUintSlice(l) }
func gvMUint32(l []gvU32) string             { return MarshalUintSlice(l) }
func gvMUint64(l []gvU64) string             { return MarshalUintSlice(l) }
func gvMUintptr(l []gvUptr) string           { return MarshalUintSlice(l) }
func gvMBool(l []gvBool) string              { return MarshalBoolSlice(l) }
func gvMString(l []gvStr) string             { return MarshalStringSlice(l) }
func gvMBytes(l []gvBytes) string            { return MarshalStringSlice(l) }
func gvMFloat64(l []gvF64) string            { return MarshalFloat64List(l) }
func gvMFloat64Prec(l []gvF64, p int) string { return MarshalFloat64List(l, p) }
func gvMTime(l []time.Time) string           { return MarshalTimeList(l) }
