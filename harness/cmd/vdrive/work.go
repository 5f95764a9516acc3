package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/proto"
)

// job is one exploration by a worker binary.
type job struct {
	prefix []string // command prefix, e.g. node
	bin    string
	env    []string
	only   string // phases
	label  string // prefix of the phase names in the evidence
	id     string // check run by the worker (default the driver's)
	desc   string // description of the build
	args   []string
	shards int
	slow   bool   // a single case may take minutes
	bare   bool   // run with a minimal environment (the wasm loader limits its size)
	tier   string // bound used by the worker (default the driver's)
	also   *job   // a failure counts only if it happens here too
}

const hangText = "the call did not return within"

type cand struct {
	phase string // name or #number
	index int64
	msg   string
	shard int
	hang  bool
}

// hangAfter is how long one case may take.
func (d *driver) hangAfter() time.Duration {
	if d.tier == "thorough" {
		return 300 * time.Second
	}
	return 60 * time.Second
}

func (d *driver) cmd(ctx context.Context, j *job, args []string) *exec.Cmd {
	all := append(append([]string{}, j.prefix...), j.bin)
	tier := j.tier
	if tier == "" {
		tier = d.tier
	}
	all = append(all, "-tier", tier, "-seed", fmt.Sprint(d.seed))
	all = append(all, j.args...)
	all = append(all, args...)
	all = append(all, j.id)
	c := exec.CommandContext(ctx, all[0], all[1:]...)
	c.Env = cleanEnv(j.env...)
	if j.bare {
		c.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=/tmp"}, j.env...)
	}
	c.WaitDelay = 5 * time.Second
	return c
}

func (d *driver) explore(j job) {
	if j.id == "" {
		j.id = d.id
	}
	if replaying != nil {
		d.replay(&j)
		return
	}
	n := j.shards
	if n == 0 {
		n = shards()
	}
	if d.left() <= 0 {
		d.addCap(j.label + "not started: time budget used up")
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), d.left())
	defer cancel()
	var mu sync.Mutex
	var cands []cand
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			c := d.shard(ctx, &j, s, n, &mu)
			if c != nil {
				mu.Lock()
				cands = append(cands, c...)
				mu.Unlock()
			}
		}(s)
	}
	wg.Wait()
	if ctx.Err() != nil {
		d.addCap(j.label + "stopped at the time budget")
	}
	sort.Slice(cands, func(a, b int) bool {
		if cands[a].phase != cands[b].phase {
			return cands[a].phase < cands[b].phase
		}
		return cands[a].index < cands[b].index
	})
	confirmed := map[string]bool{}
	tries := 0
	for _, c := range cands {
		if confirmed[c.phase] || len(confirmed) >= 3 || tries >= 6 {
			continue
		}
		tries++
		if d.tier != "thorough" && time.Since(d.t0) > 11*time.Minute {
			d.addCap(j.label + c.phase + ": a failure was not replayed: time budget used up")
			continue
		}
		v := d.confirm(&j, c, n)
		if v != nil && j.also != nil && d.confirm(j.also, c, n) == nil {
			d.addCap(fmt.Sprintf("%s%s: a failure of case %d was dropped, it does not happen with %s", j.label, c.phase, c.index, j.also.desc))
			continue
		}
		if v != nil {
			confirmed[c.phase] = true
			d.violations = append(d.violations, *v)
		}
	}
}

// shard runs one worker to its end.
func (d *driver) shard(ctx context.Context, j *job, s, n int, mu *sync.Mutex) (cands []cand) {
	note := filepath.Join(d.scratch, fmt.Sprintf("note-%s-%d", filepath.Base(j.bin), s))
	os.Remove(note)
	ctx2, cancel := context.WithCancel(ctx)
	defer cancel()
	args := []string{"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(n), "-only", j.only, "-note", note}
	if left := d.left(); j.prefix == nil && left > time.Minute {
		args = append(args, "-stop", (left - left/20).String())
	}
	cmd := d.cmd(ctx2, j, args)
	var stderr tail
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	must(err)
	if err := cmd.Start(); err != nil {
		fatal("cannot start worker: %v", err)
	}
	hung := false
	stop := make(chan bool)
	go func() {
		if d.watch(note, stop) && !j.slow {
			hung = true
			cancel()
		}
	}()
	done := false
	var rest []string
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var l proto.Line
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			if len(rest) < 50 {
				rest = append(rest, sc.Text())
			}
			continue
		}
		mu.Lock()
		switch {
		case l.Info != nil:
			if d.rule == "" {
				d.rule = l.Info.Rule
				d.assumptions = append(d.assumptions, l.Info.Assumptions...)
			}
		case l.Stats != nil:
			d.merge(j.label, l.Stats)
		case l.Fail != nil:
			cands = append(cands, cand{l.Fail.Phase, l.Fail.Index, l.Fail.Msg, s, false})
		case l.Done:
			done = true
		}
		mu.Unlock()
	}
	err = cmd.Wait()
	close(stop)
	if done {
		return
	}
	if ctx.Err() != nil {
		return
	}
	if gaveUp(j, err) {
		mu.Lock()
		d.addCap(fmt.Sprintf("%sworker %d: %s", j.label, s, firstLines(stderr.String(), 3)))
		mu.Unlock()
		return
	}
	p, i, ok := readNote(note)
	c := cand{fmt.Sprintf("#%d", p), i, "", s, hung}
	if hung {
		c.msg = fmt.Sprintf("%s %v", hangText, d.hangAfter())
	} else {
		c.msg = fmt.Sprintf("worker ended abnormally (%v): %s", err, firstLines(strings.Join(rest, "\n")+stderr.String(), 14))
		if ee, k := err.(*exec.ExitError); k {
			if ws, k := ee.Sys().(syscall.WaitStatus); k && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				mu.Lock()
				d.addCap(fmt.Sprintf("%sworker %d was killed (memory?)", j.label, s))
				mu.Unlock()
				return
			}
		}
		if !ok && j.prefix == nil {
			fatal("worker %d failed before its first case: %s", s, c.msg)
		}
		if !ok {
			c.phase = "?"
		}
	}
	return append(cands, c)
}

// gaveUp: the emulator could not go on.
func gaveUp(j *job, err error) bool {
	ee, ok := err.(*exec.ExitError)
	return ok && j.prefix != nil && ee.ExitCode() == 70
}

// watch follows a worker's note until stop is closed (false) or one case has
// taken too long (true).
func (d *driver) watch(note string, stop chan bool) bool {
	last, since := [2]int64{-9, -9}, time.Now()
	for {
		select {
		case <-stop:
			return false
		case <-time.After(time.Second):
		}
		p, i, ok := readNote(note)
		if !ok {
			since = time.Now()
			continue
		}
		if cur := [2]int64{p, i}; cur != last {
			last, since = cur, time.Now()
		} else if time.Since(since) > d.hangAfter() {
			return true
		}
	}
}

// hangOnce tells whether a worker gets stuck in a case.
func (d *driver) hangOnce(j *job, args []string, t int) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 6*d.hangAfter())
	defer cancel()
	note := ""
	if slices.Contains(args, "-shard") {
		note = filepath.Join(d.scratch, fmt.Sprintf("note-hang-%d", t))
		os.Remove(note)
		args = append(append([]string{}, args...), "-note", note)
	}
	cmd := d.cmd(ctx, j, args)
	cmd.Env = append(cmd.Env, "VERIF_CONFIRM=1")
	if cmd.Start() != nil {
		return false
	}
	hung := false
	ended := make(chan bool)
	go func() { cmd.Wait(); close(ended) }()
	if note != "" {
		hung = d.watch(note, ended)
	} else {
		select {
		case <-ended:
		case <-time.After(d.hangAfter()):
			hung = true
		}
	}
	cancel()
	<-ended
	return hung
}

// confirmHang replays a case that did not end: alone, then with all that came
// before it in its worker.
func (d *driver) confirmHang(j *job, c cand, n int) *violation {
	one := []string{"-phase", c.phase, "-index", fmt.Sprint(c.index)}
	whole := []string{"-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(n), "-only", j.only}
	for _, args := range [][]string{one, whole} {
		var wg sync.WaitGroup
		hung := make([]bool, 3)
		for t := range hung {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				hung[t] = d.hangOnce(j, args, t)
			}(t)
		}
		wg.Wait()
		if hung[0] && hung[1] && hung[2] {
			return &violation{d.id, j.label + c.phase, c.index, fmt.Sprintf("%s %v", hangText, d.hangAfter()), j.desc, append(append([]string{}, j.args...), args...), j.env,
				"reproduced in 3 of 3 fresh processes", d.tier, d.seed}
		}
	}
	d.addCap(fmt.Sprintf("%s%s: case %d did not end within %v; this could not be reproduced and was dropped", j.label, c.phase, c.index, d.hangAfter()))
	return nil
}

// confirm replays a failure in fresh processes; only one that fails again
// (most times; a time-out every time) is a violation.
func (d *driver) confirm(j *job, c cand, n int) *violation {
	if c.hang {
		return d.confirmHang(j, c, n)
	}
	one := []string{"-phase", c.phase, "-index", fmt.Sprint(c.index)}
	modes := [][]string{one, append([]string{"-upto"}, one...),
		{"-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(n), "-only", c.phase}}
	if c.phase == "?" {
		modes = [][]string{{"-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(n), "-only", j.only}}
	}
	if c.phase != "?" && !j.slow { // what fails after so many calls of any kind
		modes = append(modes, []string{"-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(n), "-only", j.only})
	}
	for k, args := range modes {
		if k > 2 && d.left() < 3*time.Minute {
			break
		}
		times := 5
		// a giant case takes gigabytes: one at a time, and twice
		giant := strings.Contains(c.phase, "giant")
		if j.slow || giant {
			times = 2
		} else if k > 0 {
			times = 3
		}
		if k > 2 {
			times = 2
		}
		var wg sync.WaitGroup
		fails := make([]string, times)
		for t := 0; t < times; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				_, fails[t] = d.once(j, args, k > 0)
			}(t)
			if giant {
				wg.Wait()
			}
		}
		wg.Wait()
		got, slow := 0, false
		msg := ""
		for _, f := range fails {
			if f != "" {
				got++
				msg = f
				slow = slow || strings.Contains(f, hangText)
			}
		}
		// a failure that depends on the scheduler or the garbage collector
		// need not come every time
		if got == times || !slow && got > times/2 {
			return &violation{d.id, j.label + c.phase, c.index, msg, j.desc, append(append([]string{}, j.args...), args...), j.env,
				fmt.Sprintf("reproduced in %d of %d fresh processes", got, times), d.tier, d.seed}
		}
		d.note("%s%s case %d: %q reproduced %d of %d times with %v", j.label, c.phase, c.index, clip(c.msg, 600), got, times, args)
	}
	d.addCap(fmt.Sprintf("%s%s: a failure of case %d could not be reproduced and was dropped", j.label, c.phase, c.index))
	return nil
}

// once runs the worker with args; a non-empty second result is the failure.
func (d *driver) once(j *job, args []string, long bool) (string, string) {
	limit := 90 * time.Second
	if j.slow {
		limit = 350 * time.Second
	} else if long {
		limit = 200 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := d.cmd(ctx, j, args)
	cmd.Env = append(cmd.Env, "VERIF_CONFIRM=1")
	var so bytes.Buffer
	var se tail
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	for _, l := range strings.Split(so.String(), "\n") {
		var p proto.Line
		if json.Unmarshal([]byte(l), &p) == nil && p.Fail != nil {
			return so.String(), p.Fail.Msg
		}
	}
	if ctx.Err() != nil {
		if long {
			return so.String(), ""
		}
		return so.String(), fmt.Sprintf("%s %v", hangText, limit)
	}
	if err != nil {
		if ee, k := err.(*exec.ExitError); k {
			if ws, k := ee.Sys().(syscall.WaitStatus); k && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				return so.String(), ""
			}
			if gaveUp(j, err) {
				return so.String(), ""
			}
		}
		return so.String(), fmt.Sprintf("worker ended abnormally (%v): %s", err, firstLines(se.String(), 14))
	}
	return so.String(), ""
}

func (d *driver) replay(j *job) {
	if j.desc != replaying.Build {
		return
	}
	jj := *j
	jj.args = nil
	f := ""
	if strings.Contains(replaying.Message, hangText) {
		if d.hangOnce(&jj, replaying.Worker, 0) {
			f = replaying.Message
		}
	} else {
		_, f = d.once(&jj, replaying.Worker, true)
	}
	if f == "" {
		fmt.Printf("replay: held (%s, case %d)\n", replaying.Phase, replaying.Index)
		cleanup()
		os.Exit(0)
	}
	fmt.Printf("replay: violated (%s, case %d): %s\n", replaying.Phase, replaying.Index, f)
	cleanup()
	os.Exit(1)
}

func readNote(path string) (phase, index int64, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 24 || binary.LittleEndian.Uint64(b) == 0 {
		return 0, 0, false
	}
	return int64(binary.LittleEndian.Uint64(b[8:])), int64(binary.LittleEndian.Uint64(b[16:])), true
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return clip(strings.Join(ls, "\n"), 3000)
}

// tail keeps the first 16 KB written to it.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 16384 - t.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		t.b.Write(p[:room])
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }
