package sqltype

// Verification drivers: instantiations of the real generic code. This file
// is never part of /repo; the loader adds it to the package in memory.

import "database/sql/driver"

type (
	gvBool    bool
	gvInt     int
	gvInt8    int8
	gvInt16   int16
	gvInt32   int32
	gvInt64   int64
	gvUint    uint
	gvUint8   uint8
	gvUint16  uint16
	gvUint32  uint32
	gvUint64  uint64
	gvFloat32 float32
	gvFloat64 float64
	gvString  string
)

func gvScanBool(a *BoolSlice[gvBool], v any) error          { return a.Scan(v) }
func gvValueBool(a BoolSlice[gvBool]) (driver.Value, error) { return a.Value() }

func gvScanInt(a *IntSlice[gvInt], v any) error          { return a.Scan(v) }
func gvValueInt(a IntSlice[gvInt]) (driver.Value, error) { return a.Value() }

func gvScanInt8(a *Int8Slice[gvInt8], v any) error          { return a.Scan(v) }
func gvValueInt8(a Int8Slice[gvInt8]) (driver.Value, error) { return a.Value() }

func gvScanInt16(a *Int16Slice[gvInt16], v any) error          { return a.Scan(v) }
func gvValueInt16(a Int16Slice[gvInt16]) (driver.Value, error) { return a.Value() }

func gvScanInt32(a *Int32Slice[gvInt32], v any) error          { return a.Scan(v) }
func gvValueInt32(a Int32Slice[gvInt32]) (driver.Value, error) { return a.Value() }

func gvScanInt64(a *Int64Slice[gvInt64], v any) error          { return a.Scan(v) }
func gvValueInt64(a Int64Slice[gvInt64]) (driver.Value, error) { return a.Value() }

func gvScanUint(a *UintSlice[gvUint], v any) error          { return a.Scan(v) }
func gvValueUint(a UintSlice[gvUint]) (driver.Value, error) { return a.Value() }

func gvScanUint8(a *Uint8Slice[gvUint8], v any) error          { return a.Scan(v) }
func gvValueUint8(a Uint8Slice[gvUint8]) (driver.Value, error) { return a.Value() }

func gvScanUint16(a *Uint16Slice[gvUint16], v any) error          { return a.Scan(v) }
func gvValueUint16(a Uint16Slice[gvUint16]) (driver.Value, error) { return a.Value() }

func gvScanUint32(a *Uint32Slice[gvUint32], v any) error          { return a.Scan(v) }
func gvValueUint32(a Uint32Slice[gvUint32]) (driver.Value, error) { return a.Value() }

func gvScanUint64(a *Uint64Slice[gvUint64], v any) error          { return a.Scan(v) }
func gvValueUint64(a Uint64Slice[gvUint64]) (driver.Value, error) { return a.Value() }

func gvScanFloat32(a *Float32Slice[gvFloat32], v any) error          { return a.Scan(v) }
func gvValueFloat32(a Float32Slice[gvFloat32]) (driver.Value, error) { return a.Value() }

func gvScanFloat64(a *Float64Slice[gvFloat64], v any) error          { return a.Scan(v) }
func gvValueFloat64(a Float64Slice[gvFloat64]) (driver.Value, error) { return a.Value() }

func gvScanString(a *StringSlice[gvString], v any) error          { return a.Scan(v) }
func gvValueString(a StringSlice[gvString]) (driver.Value, error) { return a.Value() }
