package types

// a type with its own binary form (left abstract)
type gvBin struct{ N int }

func (t *gvBin) UnmarshalBinary(b []byte) error { panic("abstract") }
func (t gvBin) MarshalBinary() ([]byte, error)  { panic("abstract") }

func gvBinScan(p *gvBin, v any) error { return BinaryUnmarshaler(p).Scan(v) }
func gvBinEnc(t gvBin) (any, error)   { return BinaryMarshaler(t).Value() }
