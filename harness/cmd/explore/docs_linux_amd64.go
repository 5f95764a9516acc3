package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif.local/harness/eng"
)

// C22: the built update tool (VERIF_TOOL) runs as a process on scratch
// documents.

const benchStart = "## Benchmarks\n\n```text\n"

var docBlocks = []string{
	"some text, 100% \xc3\xa9\n",
	"```\ncode\n```\n",
	"```text\nBenchmarkOther-4   \t 1 ns/op\n```\n",
	"```go\nfunc main() {}\n```\n\n",
	"## Benchmark\n\n# Benchmarks\n\n```text\n--\n```\n",
	"\n\n",
	"goos: none\r\nBenchmarkText\r\n\xff\x00\n",
	"inline ``` fence and `## Benchmarks` name\n",
}
var docTails = []string{"", "last line without end", "```\nopen", "\n", "## Benchmarks\n\n```text\nsecond\n```\n"}
var docBodies = []string{
	"",
	"\n",
	"goos: linux\ngoarch: amd64\npkg: x\ncpu: y\n--\nOld-8   \t 1\t 1 ns/op\n",
	strings.Repeat("Older-12        \t 1000000\t  12.34 ns/op\t 800.00 MB/s\n", 40),
}
var benchLines = []string{
	"goos: linux",
	"goarch: amd64",
	"pkg: github.com/theMPatel/streamvbyte-simdgo/pkg/decode",
	"cpu: Some CPU @ 2.60GHz",
	"BenchmarkGet8uint32Fast-12    \t469473\t  2.5 ns/op\t 12659.93 MB/s",
	"BenchmarkBenchmark/size=10-4  \t7\t  1 ns/op",
	"PASS",
	"ok  \tgithub.com/x/y\t2.1s",
	"",
	"    decode_test.go:12: Benchmark note",
	"--",
	"BenchmarkOdd/%d%%s=\xff\x00\xc3\xa9 \\1 $HOME-4 \t 1 ns/op \t ",
	" \tgoos: indented Benchmark",
}

// recognised are the lines of the body the tool must write: dashes follow a
// cpu line, and an empty line separates a further goos line from the
// benchmarks before it.
func recognised(in []string) (out []string) {
	benchmarks := false
	for _, l := range in {
		switch {
		case strings.HasPrefix(l, "Benchmark"):
			benchmarks = true
			out = append(out, l[len("Benchmark"):])
		case strings.HasPrefix(l, "cpu:"):
			out = append(out, l, "--")
		case strings.HasPrefix(l, "goos:"):
			if benchmarks {
				out = append(out, "")
			}
			out = append(out, l)
		case strings.HasPrefix(l, "goarch:"), strings.HasPrefix(l, "pkg:"):
			out = append(out, l)
		}
	}
	return
}

// words: the i-th word over k letters, shortest first.
func wordOf(i, k int64) (w []int) {
	n := 0
	p := int64(1)
	for i >= p {
		i -= p
		p *= k
		n++
	}
	for ; n > 0; n-- {
		w = append(w, int(i%k))
		i /= k
	}
	return
}

func wordsTo(k int64, n int) (t int64) {
	p := int64(1)
	for ; n >= 0; n-- {
		t += p
		p *= k
	}
	return
}

var docDir string

type docCase struct{ before, body, after string }

func (d docCase) text() string { return d.before + benchStart + d.body + "```\n" + d.after }

func runTool(c *eng.Ctx, input string, args ...string) (string, error) {
	return runToolOn(c, strings.NewReader(input), nil, args...)
}

// runToolOn: with a given standard input and, if not nil, standard output.
func runToolOn(c *eng.Ctx, in io.Reader, out *os.File, args ...string) (string, error) {
	if docDir == "" {
		var err error
		docDir, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "doc-")
		if err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(os.Getenv("VERIF_TOOL"), args...)
	cmd.Dir = docDir
	cmd.Env = append(os.Environ(), "SBYTE_HOME="+docDir)
	cmd.Stdin = in
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if out != nil {
		cmd.Stdout = out
	}
	err := cmd.Run()
	c.Run(1)
	if err != nil {
		return so.String(), fmt.Errorf("%v: %s", err, clipText(se.String(), 300))
	}
	return so.String(), nil
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func readme() string { return filepath.Join(docDir, "README.md") }

// judge compares a produced document with the expected one.
func judge(d docCase, lines []string, got string) string {
	if !strings.HasPrefix(got, d.before+benchStart) {
		return "the text before the block's body changed"
	}
	tail := "```\n" + d.after
	if !strings.HasSuffix(got, tail) || len(got) < len(d.before+benchStart)+len(tail) {
		return "the text after the block's body changed"
	}
	body := got[len(d.before+benchStart) : len(got)-len(tail)]
	if body != "" && !strings.HasSuffix(body, "\n") {
		return "the closing fence is not on a line of its own"
	}
	want := recognised(lines)
	if len(want) == 0 && (body == "" || body == "\n") {
		return ""
	}
	if body != strings.Join(want, "\n")+"\n" {
		return fmt.Sprintf("the body is %q, must be the lines %q", body, want)
	}
	return ""
}

func docRun(c *eng.Ctx, d docCase, lines []string, newline bool) {
	input := strings.Join(lines, "\n")
	if newline && len(lines) > 0 {
		input += "\n"
	}
	if docDir == "" {
		runTool(c, "") // makes the directory; no document yet, so the tool refuses
	}
	fail := func(what string, got string) {
		c.Fail("%s\ninput: %q\ndocument: %q\nresult: %q", what, clipText(input, 400), clipText(d.text(), 600), clipText(got, 600))
	}
	old := d.text()
	if err := os.WriteFile(readme(), []byte(old), 0o644); err != nil {
		panic(err)
	}
	read := func() string {
		b, err := os.ReadFile(readme())
		if err != nil {
			fail("the document is gone: "+err.Error(), "")
		}
		return string(b)
	}
	out, err := runTool(c, input)
	if now := read(); now != old {
		fail("without the write flag the document changed", now)
	}
	if err != nil {
		fail("the tool fails: "+err.Error(), out)
	}
	if m := judge(d, lines, out); m != "" {
		fail("without the write flag: "+m, out)
	}
	if _, err := runTool(c, input, "-w"); err != nil {
		fail("the tool fails with -w: "+err.Error(), read())
	}
	once := read()
	if m := judge(d, lines, once); m != "" {
		fail("with -w: "+m, once)
	}
	if _, err := runTool(c, input, "-w"); err != nil {
		fail("the tool fails when run again: "+err.Error(), read())
	}
	if twice := read(); twice != once {
		fail(fmt.Sprintf("running it again changes the document, the first run's being %q", clipText(once, 600)), twice)
	}
	c.Word(3, 3)
	c.Outcome(fnv(once))
	c.Sample(func() string { return fmt.Sprintf("document %q, input %q", clipText(old, 150), clipText(input, 100)) })
}

// longLines: lengths about the sizes at which line readers give up or split.
var longLines = []int{4095, 4096, 4097, 32768, 65534, 65535, 65536, 65537, 131072, 1 << 20}

// docOrRefuse: like docRun, but the tool may also refuse the input, leaving
// the document as it was.
func docOrRefuse(c *eng.Ctx, d docCase, lines []string, newline bool) {
	input := strings.Join(lines, "\n")
	if newline {
		input += "\n"
	}
	if docDir == "" {
		runTool(c, "")
	}
	old := d.text()
	if err := os.WriteFile(readme(), []byte(old), 0o644); err != nil {
		panic(err)
	}
	_, err := runTool(c, input, "-w")
	b, err2 := os.ReadFile(readme())
	if err2 != nil {
		c.Fail("the document is gone: %v", err2)
	}
	c.Word(1, 1)
	c.Outcome(fnv(string(b)))
	longest := 0
	for _, l := range lines {
		if len(l) > longest {
			longest = len(l)
		}
	}
	if err != nil {
		if string(b) != old {
			c.Fail("the tool fails on a line of %d bytes and changes the document\ndocument: %q\nresult: %q", longest, clipText(old, 300), clipText(string(b), 600))
		}
		return
	}
	if m := judge(d, lines, string(b)); m != "" {
		c.Fail("with a line of %d bytes: %s\nresult: %q", longest, clipText(m, 600), clipText(string(b), 300))
	}
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func join(blocks []string, w []int) string {
	s := ""
	for _, k := range w {
		s += blocks[k]
	}
	return s
}

func pickLines(w []int) (ls []string) {
	for _, k := range w {
		ls = append(ls, benchLines[k])
	}
	return
}

func init() {
	typical := [][]string{
		nil,
		{"goos: linux", "goarch: amd64", "pkg: a", "cpu: b", benchLines[4], "PASS", "ok a 1s", "goos: linux", "pkg: c", benchLines[5], "PASS"},
	}
	register(&eng.Check{ID: "C22", Rule: "the update tool built from the tree runs as a process on enumerated documents (all words of blocks before and after the benchmark block, all bodies and endings) and enumerated inputs (all words of input lines), three runs each: without the write flag, with it, and with it again. state = one document after a run, transition = one run, trace = one process run compared with the expected document.",
		Assumptions: []string{
			"the document contains the heading, an opening and a closing fence as the tool documents them; for an input without any recognised line the body may be empty or one empty line",
		},
		Phases: func(tier string) []eng.Phase {
			nb, na, nw := 1, 1, 3
			if tier == "thorough" {
				nb, na, nw = 3, 2, 4
			}
			k := int64(len(docBlocks))
			before, after := wordsTo(k, nb), wordsTo(k, na)
			bodies, tails := int64(len(docBodies)), int64(len(docTails))
			docs := func(before, after, bodies, tails int64) eng.Phase {
				return eng.Phase{Name: fmt.Sprintf("documents-%d-%d", before, after), N: before * after * bodies * tails * int64(len(typical)), Run: func(c *eng.Ctx, i int64) {
					in := typical[i%int64(len(typical))]
					i /= int64(len(typical))
					b := wordOf(i%before, k)
					i /= before
					a := wordOf(i%after, k)
					i /= after
					docRun(c, docCase{join(docBlocks, b), docBodies[i%bodies], join(docBlocks, a) + docTails[i/bodies]}, in, true)
				}}
			}
			l := int64(len(benchLines))
			ps := []eng.Phase{
				docs(before, after, bodies, tails),
				docs(wordsTo(k, 2), 1, 2, 1), docs(1, wordsTo(k, 2), 2, 1),
				{Name: fmt.Sprintf("inputs-to-%d", nw), N: wordsTo(l, nw), Run: func(c *eng.Ctx, i int64) {
					docRun(c, docCase{docBlocks[1], docBodies[2], docBlocks[2]}, pickLines(wordOf(i, l)), i%2 == 0)
				}},
				{Name: "long-inputs", N: 60, Run: func(c *eng.Ctx, i int64) {
					var ls []string
					for r := int64(0); r < i*i; r++ {
						ls = append(ls, benchLines[(r*r+i)%l])
					}
					docRun(c, docCase{strings.Repeat(docBlocks[i%k], int(i*40)), docBodies[i%bodies], strings.Repeat(docBlocks[(i+3)%k], int(i*40))}, ls, true)
				}},
				{Name: "long-lines", N: int64(len(longLines)) * 3 * 3 * 2, Run: func(c *eng.Ctx, i int64) {
					n := longLines[i%int64(len(longLines))]
					i /= int64(len(longLines))
					head := []string{"Benchmark", "goos: ", "    some_test.go:1: "}[i%3]
					i /= 3
					line := head + strings.Repeat("x", n-len(head))
					lines := append([]string{}, typical[1]...)
					at := []int{0, 6, len(lines)}[i%3]
					lines = append(lines[:at], append([]string{line}, lines[at:]...)...)
					docOrRefuse(c, docCase{docBlocks[1], docBodies[2], docBlocks[2]}, lines, i/3 == 0)
				}},
				{Name: "large-documents", N: 8, Run: func(c *eng.Ctx, i int64) {
					half := strings.Repeat(docBlocks[i%k]+docBlocks[(i+1)%k], 1<<(10+i))
					docRun(c, docCase{half, docBodies[i%bodies], half}, typical[1], true)
				}},
				{Name: "unreadable-and-unwritable", N: bodies * 6, Run: func(c *eng.Ctx, i int64) {
					if docDir == "" {
						runTool(c, "")
					}
					doc := docCase{docBlocks[1], docBodies[i/6], docBlocks[2]}.text()
					if err := os.WriteFile(readme(), []byte(doc), 0o644); err != nil {
						panic(err)
					}
					defer os.Remove(readme())
					what, args := "", [][]string{nil, {"-w"}}[i%2]
					var err error
					switch i % 6 / 2 {
					case 0:
						what = "with a directory as its input"
						d, e := os.Open(docDir)
						if e != nil {
							panic(e)
						}
						defer d.Close()
						_, err = runToolOn(c, d, nil, args...)
					case 1:
						what = "without a document"
						os.Remove(readme())
						_, err = runTool(c, strings.Join(typical[1], "\n"), args...)
						if _, e := os.Stat(readme()); e == nil {
							c.Fail("the tool makes a document where there was none")
						}
						doc = ""
					case 2:
						what, args = "with a full device as its output", nil
						full, e := os.OpenFile("/dev/full", os.O_WRONLY, 0)
						if e != nil {
							return
						}
						defer full.Close()
						_, err = runToolOn(c, strings.NewReader(strings.Join(typical[1], "\n")), full)
					}
					c.Word(1, 1)
					if err == nil {
						c.Fail("the tool does not fail %s (arguments %q)", what, args)
					}
					if b, _ := os.ReadFile(readme()); string(b) != doc {
						c.Fail("the tool fails %s (arguments %q) and changes the document to %q", what, args, clipText(string(b), 300))
					}
				}},
				{Name: "no-block", N: wordsTo(k, 2), Run: func(c *eng.Ctx, i int64) {
					if docDir == "" {
						runTool(c, "")
					}
					for _, end := range []string{"", benchStart + "never closed\n", "## Benchmarks\n```text\n```\n"} {
						doc := join(docBlocks, wordOf(i, k)) + end
						if err := os.WriteFile(readme(), []byte(doc), 0o644); err != nil {
							panic(err)
						}
						_, failed := runTool(c, "goos: linux\n"+benchLines[4]+"\n", "-w")
						b, err := os.ReadFile(readme())
						if failed == nil {
							c.Fail("the tool does not fail on a document without a complete benchmark block: %q", doc)
						}
						if err != nil || string(b) != doc {
							c.Fail("a document without a complete benchmark block was changed\ndocument: %q\nresult: %q", doc, b)
						}
						c.Word(1, 1)
					}
				}},
			}
			return ps
		}})
}
