//go:build !amd64

package lib

const portableBuild = true

var (
	fastW   []W
	fastWD  []WD
	fastR   []R
	fastRD  []RD
	fastP8  []P8
	fastP8D []P8D
	fastG8  []G8
	fastG8D []G8D
)
