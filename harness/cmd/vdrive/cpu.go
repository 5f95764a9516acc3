package main

import (
	"bufio"
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// C12: missing CPU features are simulated by switching the feature flags off
// (GODEBUG) and replacing the library's instructions that need them by UD2.

const modulePath = "github.com/theMPatel/streamvbyte-simdgo"

type insn struct {
	off    int64 // file offset
	addr   uint64
	sym    string
	text   string
	avx    bool // VEX vector instruction
	avx2   bool // needs AVX2 (or comes with it: BMI1, BMI2, FMA, F16C)
	avx512 bool
}

var objLine = regexp.MustCompile(`^\s*([0-9a-f]+):\t([0-9a-f ]+?)\s*\t(.*)$`)

// vectorInsns disassembles the library's functions in an ELF binary.
func vectorInsns(bin string) ([]insn, int, error) {
	f, err := elf.Open(bin)
	if err != nil {
		return nil, 0, err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return nil, 0, err
	}
	text := f.Section(".text")
	type rng struct {
		lo, hi uint64
		name   string
	}
	var rs []rng
	for _, s := range syms {
		if strings.HasPrefix(s.Name, modulePath) && s.Size > 0 && elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			rs = append(rs, rng{s.Value, s.Value + s.Size, s.Name[len(modulePath):]})
		}
	}
	if len(rs) == 0 {
		return nil, 0, fmt.Errorf("no symbol of the library in %s", bin)
	}
	sort.Slice(rs, func(a, b int) bool { return rs[a].lo < rs[b].lo })
	cmd := exec.Command("objdump", "-d", "-w", "-M", "intel",
		fmt.Sprintf("--start-address=%#x", rs[0].lo), fmt.Sprintf("--stop-address=%#x", rs[len(rs)-1].hi), bin)
	var out, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &se
	if err := cmd.Run(); err != nil {
		return nil, 0, fmt.Errorf("objdump: %v %s", err, se.String())
	}
	var ins []insn
	total := 0
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		m := objLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		a, err := strconv.ParseUint(m[1], 16, 64)
		if err != nil {
			continue
		}
		k := sort.Search(len(rs), func(i int) bool { return rs[i].hi > a })
		if k == len(rs) || rs[k].lo > a {
			continue
		}
		total++
		i := insn{addr: a, sym: rs[k].name, text: strings.Join(strings.Fields(m[3]), " ")}
		i.off = int64(a - text.Addr + text.Offset)
		classify(&i, strings.Fields(m[2])[0])
		if i.avx || i.avx2 || i.avx512 {
			ins = append(ins, i)
		}
	}
	if total == 0 {
		return nil, 0, fmt.Errorf("objdump gave no instruction of the library")
	}
	return ins, total, nil
}

var bmi = map[string]bool{"andn": true, "bextr": true, "blsi": true, "blsmsk": true, "blsr": true, "tzcnt": true,
	"bzhi": true, "mulx": true, "pdep": true, "pext": true, "rorx": true, "sarx": true, "shlx": true, "shrx": true}

// classify decides from the encoding and the operands which feature an
// instruction belongs to.
func classify(i *insn, first string) {
	op := i.text
	args := ""
	if k := strings.IndexByte(op, ' '); k >= 0 {
		op, args = op[:k], op[k+1:]
	}
	if bmi[op] && op != "tzcnt" { // TZCNT executes as BSF where it is missing
		i.avx2 = true
		return
	}
	if !strings.HasPrefix(op, "v") || op == "verr" || op == "verw" || strings.HasPrefix(op, "vm") && !strings.HasPrefix(op, "vmov") && !strings.HasPrefix(op, "vmask") && !strings.HasPrefix(op, "vmul") && !strings.HasPrefix(op, "vmax") && !strings.HasPrefix(op, "vmin") && !strings.HasPrefix(op, "vmpsadbw") {
		return
	}
	if first == "62" {
		i.avx512 = true
		return
	}
	i.avx = true
	ymm := strings.Contains(args, "ymm")
	regOnly := !strings.Contains(args, "[")
	switch {
	case strings.HasPrefix(op, "vfm") || strings.HasPrefix(op, "vfnm") || strings.HasPrefix(op, "vcvtph2ps") || strings.HasPrefix(op, "vcvtps2ph"):
		i.avx2 = true
	case strings.HasPrefix(op, "vpbroadcast"), op == "vbroadcasti128",
		op == "vinserti128", op == "vextracti128", op == "vperm2i128", op == "vpermd", op == "vpermps",
		op == "vpermq", op == "vpermpd", op == "vpblendd",
		strings.HasPrefix(op, "vpsllv"), strings.HasPrefix(op, "vpsrlv"), strings.HasPrefix(op, "vpsrav"),
		strings.HasPrefix(op, "vpmaskmov"), strings.HasPrefix(op, "vpgather"), strings.HasPrefix(op, "vgather"):
		i.avx2 = true
	case (op == "vbroadcastss" || op == "vbroadcastsd") && regOnly:
		i.avx2 = true
	case ymm && (op == "vmovntdqa" || op == "vmpsadbw"):
		i.avx2 = true
	case ymm && strings.HasPrefix(op, "vp") && op != "vptest" && op != "vperm2f128" && !strings.HasPrefix(op, "vpermilp"):
		i.avx2 = true
	}
}

// patched copies bin with the selected instructions made undefined.
func patched(bin, out string, ins []insn, sel func(insn) bool) (int, error) {
	b, err := os.ReadFile(bin)
	if err != nil {
		return 0, err
	}
	n := 0
	for _, i := range ins {
		if sel(i) {
			b[i.off], b[i.off+1] = 0x0f, 0x0b // UD2
			n++
		}
	}
	return n, os.WriteFile(out, b, 0o755)
}

func init() {
	runners["C12"] = func(d *driver) {
		bin := d.build("explore", d.modfile("cpu", d.repo), "./cmd/explore", nil)
		ins := d.cpuCombinations("", bin)
		if !cpuHas("avx") {
			return
		}
		p := filepath.Join(d.scratch, "cpu-must-use")
		n, err := patched(bin, p, ins, func(i insn) bool { return true })
		must(err)
		d.note("must-use: %d library instructions made undefined", n)
		if cpuHas("avx2") {
			d.mustUse(job{id: "C12", bin: p, args: []string{"-impls", "auto"}, label: "must-use: ", desc: "every AVX instruction undefined, features present"},
				"", "AVX and AVX2 are present")
		}
		// decoding needs AVX only
		d.mustUse(job{id: "C12", bin: p, env: []string{"GODEBUG=" + off512 + ",cpu.avx2=off" + offBMI}, args: []string{"-impls", "auto"}, label: "must-use: ", desc: "every AVX instruction undefined, AVX present"},
			"Get Read", "AVX is present")
	}
}

// mustUse runs each use- phase in the binary without vector instructions; the
// ones that end normally did not take the accelerated code. It takes those
// whose names begin with one of the words of prefixes.
func (d *driver) mustUse(j job, prefixes, present string) {
	b, err := exec.Command(j.bin, "-list", j.id).Output()
	must(err)
	var names []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "use-") {
			continue
		}
		name := strings.Fields(l)[0]
		take := prefixes == ""
		for _, p := range strings.Fields(prefixes) {
			take = take || strings.HasPrefix(name, "use-"+p)
		}
		if take {
			names = append(names, name)
		}
	}
	if len(names) == 0 {
		fatal("no use- phase")
	}
	run := func(name string) (string, bool) {
		for t := 0; t < 3; t++ {
			_, f := d.once(&j, []string{"-phase", name, "-index", "0"}, false)
			if strings.Contains(f, "SIGILL") {
				return "", true
			}
			if f != "" {
				d.note("%s: %s", name, clip(f, 300))
			}
		}
		return name[4:] + " completed without executing an AVX instruction although " + present, false
	}
	if replaying != nil {
		if replaying.Build != j.desc {
			return
		}
		if msg, ok := run(replaying.Phase); !ok {
			fmt.Printf("replay: violated: %s\n", msg)
			cleanup()
			os.Exit(1)
		}
		fmt.Println("replay: held")
		cleanup()
		os.Exit(0)
	}
	st := d.stat("must-use")
	st.Size += int64(len(names))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, name := range names {
		wg.Add(1)
		go func(name string) {
			defer wg.Done()
			msg, ok := run(name)
			mu.Lock()
			defer mu.Unlock()
			st.Cases++
			st.Words++
			st.Steps++
			st.Runs++
			if !ok {
				d.violations = append(d.violations, violation{Property: d.id, Phase: name, Message: msg, Build: j.desc,
					Worker: []string{"-impls", "auto", "-phase", name, "-index", "0"}, Replays: "3 of 3", Tier: d.tier, Seed: d.seed})
			}
		}(name)
	}
	wg.Wait()
	d.samples = append(d.samples, "must-use: "+strings.Join(names, " "))
}

// the flags of features that are missing in every combination, and of those
// that are missing without AVX2
const (
	off512 = "cpu.avx512f=off,cpu.avx512bw=off,cpu.avx512vl=off,cpu.avx512dq=off,cpu.avx512cd=off"
	offBMI = ",cpu.bmi1=off,cpu.bmi2=off,cpu.fma=off"
)

func cpuHas(f string) bool {
	info, _ := os.ReadFile("/proc/cpuinfo")
	flags := string(info)
	return strings.Contains(flags, " "+f+" ") || strings.Contains(flags, " "+f+"\n")
}

// cpuCombinations explores the phases of C12 with bin in each combination of
// features and returns the library's vector instructions.
func (d *driver) cpuCombinations(label, bin string) []insn {
	ins, total, err := vectorInsns(bin)
	if err != nil {
		fatal("%v", err)
	}
	for _, c := range []struct {
		avx, avx2 bool
		name      string
	}{{true, true, "avx+avx2"}, {true, false, "avx"}, {false, true, "avx2-without-avx"}, {false, false, "neither"}} {
		if c.avx && !cpuHas("avx") || c.avx && c.avx2 && !cpuHas("avx2") {
			d.addCap(label + c.name + ": this CPU lacks the feature")
			continue
		}
		p := filepath.Join(d.scratch, filepath.Base(bin)+"-cpu-"+c.name)
		n, err := patched(bin, p, ins, func(i insn) bool {
			return i.avx512 || i.avx && !c.avx || i.avx2 && !c.avx2
		})
		must(err)
		g := "GODEBUG=" + off512
		dec, enc := "normal", "normal"
		if !c.avx {
			g += ",cpu.avx=off"
		} else {
			dec = "accelerated"
		}
		if !c.avx2 {
			g += ",cpu.avx2=off" + offBMI
		} else if c.avx {
			enc = "accelerated"
		}
		d.note(label+"%s: %d of %d library instructions made undefined (%d vector instructions in all)", c.name, n, total, len(ins))
		d.explore(job{id: "C12", bin: p, env: []string{g, "VERIF_WANT_DECODE=" + dec, "VERIF_WANT_ENCODE=" + enc},
			only: "reported-modes,C0*,C1*", args: []string{"-impls", "auto"}, label: label + c.name + ": ", desc: label + "cpu " + c.name})
	}
	return ins
}
