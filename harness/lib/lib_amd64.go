package lib

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

const portableBuild = false

var (
	fastW   = []W{{"WriteAllFast", writer.WriteAllFast}}
	fastWD  = []WD{{"WriteAllDeltaFast", writer.WriteAllDeltaFast}}
	fastR   = []R{{"ReadAllFast", reader.ReadAllFast}}
	fastRD  = []RD{{"ReadAllDeltaFast", reader.ReadAllDeltaFast}}
	fastP8  = []P8{{"Put8uint32Fast", encode.Put8uint32Fast, true}}
	fastP8D = []P8D{{"Put8uint32DeltaFast", encode.Put8uint32DeltaFast, true}}
	fastG8  = []G8{{"Get8uint32Fast", decode.Get8uint32Fast, true}}
	fastG8D = []G8D{{"Get8uint32DeltaFast", decode.Get8uint32DeltaFast, true}}
)
