// Package lib lists the entry points of the library under test.
package lib

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

type W struct {
	Name string
	F    func(in []uint32) []byte
}
type WD struct {
	Name string
	F    func(in []uint32, prev uint32) []byte
}
type R struct {
	Name string
	F    func(count int, stream []byte, out []uint32)
}
type RD struct {
	Name string
	F    func(count int, stream []byte, out []uint32, prev uint32)
}
type P8 struct {
	Name string
	F    func(in []uint32, out []byte) uint16
	Fast bool // may store up to 32 bytes whatever the encoded size
}
type P8D struct {
	Name string
	F    func(in []uint32, out []byte, prev uint32) uint16
	Fast bool
}
type G8 struct {
	Name string
	F    func(in []byte, out []uint32, ctrl uint16)
	Fast bool // may load 16 bytes from the start of either quad
}
type G8D struct {
	Name string
	F    func(in []byte, out []uint32, ctrl uint16, prev uint32)
	Fast bool
}

var Writers = append([]W{
	{"WriteAll", writer.WriteAll},
	{"WriteAllScalar", writer.WriteAllScalar},
}, fastW...)

var DeltaWriters = append([]WD{
	{"WriteAllDelta", writer.WriteAllDelta},
	{"WriteAllDeltaScalar", writer.WriteAllDeltaScalar},
}, fastWD...)

var Readers = append([]R{
	{"ReadAll", reader.ReadAll},
	{"ReadAllScalar", reader.ReadAllScalar},
}, fastR...)

var DeltaReaders = append([]RD{
	{"ReadAllDelta", reader.ReadAllDelta},
	{"ReadAllDeltaScalar", reader.ReadAllDeltaScalar},
}, fastRD...)

var Put8 = append([]P8{
	{"Put8uint32", encode.Put8uint32, true},
	{"Put8uint32Scalar", encode.Put8uint32Scalar, false},
}, fastP8...)

var Put8Delta = append([]P8D{
	{"Put8uint32Delta", encode.Put8uint32Delta, true},
	{"Put8uint32DeltaScalar", encode.Put8uint32DeltaScalar, false},
}, fastP8D...)

var Get8 = append([]G8{
	{"Get8uint32", decode.Get8uint32, true},
	{"Get8uint32Scalar", decode.Get8uint32Scalar, false},
}, fastG8...)

var Get8Delta = append([]G8D{
	{"Get8uint32Delta", decode.Get8uint32Delta, true},
	{"Get8uint32DeltaScalar", decode.Get8uint32DeltaScalar, false},
}, fastG8D...)

// DropFast removes the accelerated entry points (for CPUs without AVX2).
func DropFast() {
	Writers, DeltaWriters = Writers[:2], DeltaWriters[:2]
	Readers, DeltaReaders = Readers[:2], DeltaReaders[:2]
	Put8, Put8Delta = Put8[:2], Put8Delta[:2]
	Get8, Get8Delta = Get8[:2], Get8Delta[:2]
}

// Portable is set where the automatic entry points are the portable ones.
var Portable = portableBuild
