package main

import (
	"os"
	"runtime"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// subset gathers the phases of other checks at a reduced bound.
func subset(tier string, ids ...string) (ps []eng.Phase) {
	t := "small"
	if runtime.GOARCH == "amd64" || runtime.GOARCH == "386" { // runs at full speed
		t = "medium"
	}
	if tier == "thorough" {
		t = "quick"
	}
	for _, id := range ids {
		for _, p := range checks[id].Phases(t) {
			p.Name = id + "/" + p.Name
			ps = append(ps, p)
		}
	}
	return
}

func modeName(m shared.PerformanceMode) string {
	if m == shared.Fast {
		return "accelerated"
	}
	if m == shared.Normal {
		return "normal"
	}
	return "unknown"
}

// modes: the driver says which modes this environment must report.
func modePhase() eng.Phase {
	return eng.Phase{Name: "reported-modes", N: 1, Run: func(c *eng.Ctx, i int64) {
		if w := os.Getenv("VERIF_WANT_DECODE"); w != "" && modeName(decode.GetMode()) != w {
			c.Fail("decode.GetMode() reports %s, must be %s (GODEBUG=%s, %s/%s)", modeName(decode.GetMode()), w, os.Getenv("GODEBUG"), runtime.GOOS, runtime.GOARCH)
		}
		if w := os.Getenv("VERIF_WANT_ENCODE"); w != "" && modeName(encode.GetMode()) != w {
			c.Fail("encode.GetMode() reports %s, must be %s (GODEBUG=%s, %s/%s)", modeName(encode.GetMode()), w, os.Getenv("GODEBUG"), runtime.GOOS, runtime.GOARCH)
		}
		c.Word(2, 2)
		c.Run(2)
	}}
}

// usePhases: one automatic entry point each, on one input large enough for
// the accelerated code.
func usePhases() []eng.Phase {
	nums := make([]uint32, 1000)
	for k := range nums {
		nums[k] = number(uint8(k)&3, 2, k)
	}
	stream := ref.Encode(nums)
	out := make([]uint32, 1000)
	data := make([]byte, 32)
	mk := func(name string, f func()) eng.Phase {
		return eng.Phase{Name: "use-" + name, N: 1, Run: func(c *eng.Ctx, i int64) { f(); c.Run(1) }}
	}
	return []eng.Phase{
		mk("Put8uint32", func() { encode.Put8uint32(nums[:8], data) }),
		mk("Put8uint32Delta", func() { encode.Put8uint32Delta(nums[:8], data, 1) }),
		mk("Get8uint32", func() { decode.Get8uint32(data, out, 0xffff) }),
		mk("Get8uint32Delta", func() { decode.Get8uint32Delta(data, out, 0xffff, 1) }),
		mk("WriteAll", func() { lib.Writers[0].F(nums) }),
		mk("WriteAllDelta", func() { lib.DeltaWriters[0].F(nums, 1) }),
		mk("ReadAll", func() { lib.Readers[0].F(1000, stream, out) }),
		mk("ReadAllDelta", func() { lib.DeltaReaders[0].F(1000, stream, out, 1) }),
	}
}

func init() {
	all := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17", "C19", "C21"}
	register(&eng.Check{ID: "C12", Rule: "the reduced phases of C01-C07 and C16 run on the automatic (and portable) entry points in each of the four combinations of AVX and AVX2, with every instruction of the library that belongs to a missing feature replaced by an undefined instruction in the binary, so that executing one ends the process; the reported modes are compared with the expected ones; then, with every AVX instruction of the library replaced, each automatic entry point must hit one with both features present, and each for decoding with AVX alone. state = one input word in one feature combination, transition = one number of it, trace = one library call.",
		Assumptions: []string{
			"missing features are simulated: feature flags through GODEBUG (golang.org/x/sys/cpu), missing instructions through patching the library's machine code",
			"AVX-512 instructions are treated as missing in every combination",
		},
		Phases: func(tier string) []eng.Phase {
			return append(append([]eng.Phase{modePhase()}, subset(tier, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16")...), usePhases()...)
		}})
	register(&eng.Check{ID: "C13", Rule: "the library is compiled for every Go port tried, and the reduced phases of the format checks (C01-C07, C11, C16, C17, C19, C21) run on a 32-bit x86 build, on a WebAssembly build and (fewer phases) on two big-endian builds, where only the portable code exists. state = one input word on one port, transition = one number of it, trace = one library call.",
		Assumptions: []string{
			"only linux/386 can be run here directly; js/wasm runs in node, and linux/mips and linux/mips64 (big-endian) in an interpreter of this harness, which has to agree with a native run on plain arithmetic first; the other ports are compiled but not run, so a dependence on weakly ordered hardware is not seen",
		},
		Phases: func(tier string) []eng.Phase {
			return append([]eng.Phase{modePhase()}, subset(tier, append(slices.Clone(all), "C11")...)...)
		}})
	register(&eng.Check{ID: "C18", Rule: "the repository's generators are run in a copy of the tree; the library with the regenerated tables and assembly then passes the reduced phases of the format checks (C01-C08, C10, C16, C17, C19, C21) and, with the instructions of missing features replaced by undefined ones, those of C12 in the four combinations of AVX and AVX2. state = one input word, transition = one number of it, trace = one library call.",
		Assumptions: []string{"generators run with the installed Go version and the avo version of go.mod"},
		Phases: func(tier string) []eng.Phase {
			return subset(tier, append(slices.Clone(all), extraIDs...)...)
		}})
}

// extraIDs are checks that exist on this platform only.
var extraIDs []string
