package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

// budget of a check: simulated executions and a wall-clock cap in seconds
type budget struct {
	quick, thorough         uint64
	quickWall, thoroughWall int
}

func budgetOf(p string) budget {
	b := budget{quick: quickRuns[p], quickWall: 150, thoroughWall: 640}
	if b.quick == 0 {
		b.quick = 20000
	}
	b.thorough = b.quick * 40
	return b
}

type proc struct {
	cmd    *exec.Cmd
	cfg    workerCfg
	done   chan error
	over   bool
	err    error
	prog   *[8]uint64
	last   uint64
	seen   time.Time
	stderr string
	hung   bool
	rep    *Spec
}

func childEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOMEMLIMIT=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	return append(append(env, "GODEBUG=clobberfree=1,asyncpreemptoff=1", "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=4"), extra...)
}

// raceExe is the build in which the race detector watches the library.
func raceExe() string { return filepath.Join(filepath.Dir(exe), "zsim-race") }

// narrowExe is the build for hosts whose words have 32 bits.
func narrowExe() string { return filepath.Join(filepath.Dir(exe), "zsim-386") }

func have(x string) bool {
	_, err := os.Stat(x)
	return err == nil
}

// haveNarrow tells whether such a build exists and this machine executes it.
func haveNarrow() bool { return have(narrowExe()) && exec.Command(narrowExe(), "hello").Run() == nil }

func child(race, narrow bool, stderr string, args ...string) *exec.Cmd {
	x := exe
	if race {
		x = raceExe()
	}
	if narrow {
		x = narrowExe()
	}
	c := exec.Command(x, args...)
	c.Env = childEnv()
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	f, err := os.Create(stderr)
	if err != nil {
		fatal("%v", err)
	}
	c.Stderr = f
	c.Stdout = f
	return c
}

func startWorker(dir string, i int, cfg workerCfg) *proc {
	p := &proc{cfg: cfg, done: make(chan error, 1), seen: time.Now()}
	p.cfg.State = filepath.Join(dir, fmt.Sprintf("w%d.state", i))
	p.cfg.Out = filepath.Join(dir, fmt.Sprintf("w%d.out", i))
	p.stderr = filepath.Join(dir, fmt.Sprintf("w%d.err", i))
	in := filepath.Join(dir, fmt.Sprintf("w%d.in", i))
	writeJSON(in, p.cfg)
	if err := os.WriteFile(p.cfg.State, make([]byte, 64), 0o644); err != nil {
		fatal("%v", err)
	}
	f, err := os.OpenFile(p.cfg.State, os.O_RDWR, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		fatal("%v", err)
	}
	f.Close()
	p.prog = (*[8]uint64)(unsafe.Pointer(&mem[0]))
	p.cmd = child(cfg.Race, cfg.Narrow, p.stderr, "worker", "-in", in)
	if err := p.cmd.Start(); err != nil {
		fatal("%v", err)
	}
	go func() { p.done <- p.cmd.Wait() }()
	return p
}

const hangAfter = 60 * time.Second

// known findings: "known: property=ID class=CLASS match=TEXT" lines
type known struct{ class, match, line string }

func knownFindings(verif, prop string) (out []known) {
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		k := known{line: strings.TrimPrefix(l, "known: property="+prop+" ")}
		if i := strings.Index(l, "match="); i >= 0 {
			k.match = strings.TrimSpace(l[i+6:])
		}
		out = append(out, k)
	}
	return
}

func check(prop, tier, verif string, seed, n uint64, wall, procs int) {
	if scen.Scenarios[prop] == nil {
		fatal("no simulation for property %q", prop)
	}
	t0 := time.Now()
	if prop == "C22" && procs > 3 { // an execution may need gigabytes
		procs = 3
	}
	b := budgetOf(prop)
	if n == 0 {
		n = b.quick
		if tier == "thorough" {
			n = b.thorough
		}
	}
	if wall == 0 {
		wall = b.quickWall
		if tier == "thorough" {
			wall = b.thoroughWall
		}
	}
	fmt.Printf("zsim: property %s tier %s VERIF_SEED=%d: up to %d simulated executions on %d processes\n", prop, tier, seed, n, procs)
	dir, err := os.MkdirTemp(filepath.Dir(exe), "work")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	end := t0.Add(time.Duration(wall) * time.Second)
	tot := newTotals()
	failed, auditees := batch(dir, tot, workerCfg{Prop: prop, Seed: seed}, n, procs, end)
	if failed == nil && raceRuns[prop] > 0 && have(raceExe()) {
		// the same simulation, with the race detector watching the library
		k := raceRuns[prop]
		rend := time.Now().Add(60 * time.Second)
		if tier == "thorough" {
			k *= 20
			rend = time.Now().Add(90 * time.Second)
		}
		before := tot.Runs
		failed, _ = batch(dir, tot, workerCfg{Prop: prop, Seed: seed, Start: 1 << 40, Race: true}, k, procs, rend)
		tot.raceRuns = tot.Runs - before
	}
	if failed == nil && haveNarrow() {
		// the same simulation on a host with words of 32 bits
		before := tot.Runs
		failed, _ = batch(dir, tot, workerCfg{Prop: prop, Seed: seed, Start: 1 << 41, Narrow: true}, n/8+1, procs, time.Now().Add(60*time.Second))
		tot.narrowRuns = tot.Runs - before
	}
	wallS := time.Since(t0).Seconds()
	var rep *Spec
	var replayPath string
	if failed != nil {
		if rep = failed.rep; rep == nil {
			rep = attribute(dir, failed)
		}
		rd := filepath.Join(verif, "replays")
		os.MkdirAll(rd, 0o755)
		replayPath = filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", prop, seed, rep.Run))
		writeIndented(replayPath, rep)
	}
	audited, diverged := 0, 0
	if failed == nil {
		audited, diverged = audit(dir, auditees, prop, seed)
	}
	distinct := tot.distinct()
	writeEvidence(verif, prop, tier, seed, tot, distinct, wallS, time.Since(t0).Seconds(), n, procs, rep, audited, diverged)
	for _, k := range knownFindings(verif, prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.line)
	}
	if rep != nil {
		fmt.Printf("%s\n", rep.Message)
		if rep.Case != "" {
			fmt.Printf("case: %s\n", rep.Case)
		}
		fmt.Printf("class %q, seed %d, run %d, %s\n", rep.Class, seed, rep.Run, rep.Note)
		fmt.Printf("replay with: /verif/check.sh --replay %s\n", replayPath)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		os.RemoveAll(dir)
		os.Exit(1)
	}
	fmt.Printf("zsim: %s held on %d simulated executions (%d distinct non-trivial) in %.1fs; determinism audit: %d re-executed, %d diverged\n", prop, tot.Runs, distinct, wallS, audited, diverged)
	if diverged > 0 {
		fmt.Fprintf(os.Stderr, "zsim: warning: %d re-executed runs took another course\n", diverged)
	}
	if tot.Runs == 0 {
		os.RemoveAll(dir)
		fatal("nothing was executed")
	}
}

var workersStarted int

// batch executes n runs on procs processes; it ends at the first failure.
func batch(dir string, tot *totals, base workerCfg, n uint64, procs int, end time.Time) (failed *proc, auditees []*proc) {
	// every slot executes its share in portions, each in a fresh process (run-time types accumulate)
	per := (n + uint64(procs) - 1) / uint64(procs)
	ps := make([]*proc, procs)
	next := make([]uint64, procs) // runs handed out, by slot
	launch := func(i int) {
		k := per - next[i]
		if k > portion {
			k = portion
		}
		left := time.Until(end).Milliseconds()
		if k == 0 || left <= 0 {
			ps[i] = nil
			return
		}
		ps[i] = startWorker(dir, workersStarted, workerCfg{Prop: base.Prop, Seed: base.Seed, Race: base.Race, Narrow: base.Narrow, Start: base.Start + uint64(i) + next[i]*uint64(procs), Stride: uint64(procs), Count: k, WallMs: left})
		workersStarted++
		next[i] += k
	}
	// fluke goes on behind an execution that ended its process or took too long, but does neither
	// when it is repeated: the machine was short of memory or time.
	fluke := func(i int, p *proc) {
		tot.add(p)
		tot.flukes++
		if tot.flukes > 3 {
			fatal("%d executions were ended by circumstances that repeating them does not show", tot.flukes)
		}
		next[i] = (p.prog[0]-1-base.Start-uint64(i))/uint64(procs) + 1
		for _, q := range ps {
			if q != nil {
				q.seen = time.Now()
			}
		}
		launch(i)
	}
	for i := range ps {
		launch(i)
	}
	auditees = append(auditees, ps[0], ps[procs-1])
	for failed == nil {
		running := 0
		time.Sleep(20 * time.Millisecond)
		for i, p := range ps {
			if p == nil {
				continue
			}
			running++
			select {
			case p.err = <-p.done:
				p.over = true
				var o workerOut
				if e := readJSON(p.cfg.Out, &o); p.err != nil || e != nil || o.Viol != nil {
					if failed = p; e == nil && o.Viol != nil {
						break
					}
					if p.rep = attribute(dir, p); p.rep == nil {
						failed = nil
						fluke(i, p)
					}
				} else {
					tot.add(p)
					launch(i)
				}
			default:
				if c := p.prog[1]; c != p.last || p.prog[0] == 0 && c == 0 {
					if c != p.last {
						p.last, p.seen = c, time.Now()
					}
				}
				if time.Since(p.seen) > hangAfter {
					p.hung = true
					p.cmd.Process.Kill()
					p.err = <-p.done
					p.over = true
					failed = p
					if p.rep = attribute(dir, p); p.rep == nil {
						failed = nil
						fluke(i, p)
					}
				}
			}
			if failed != nil {
				break
			}
		}
		if running == 0 {
			break
		}
	}
	for _, p := range ps {
		if p != nil && !p.over {
			p.cmd.Process.Kill()
			<-p.done
			p.over = true
		}
		if p != nil && failed != nil {
			tot.add(p)
		}
	}
	return
}

// portion is how many runs one worker process executes.
const portion = 20000

type totals struct {
	workerOut
	hashes []uint64
	hits   map[int]bool
	maxRSS int64

	raceRuns   int64
	narrowRuns int64
	flukes     int
}

func newTotals() *totals {
	t := &totals{hits: map[int]bool{}}
	t.Faults, t.Probes, t.Known = map[string]int64{}, map[string]int64{}, map[string]int64{}
	return t
}

// add takes over what a finished worker reports, and removes its files (unless it is audited).
func (t *totals) add(p *proc) {
	if ps := p.cmd.ProcessState; ps != nil {
		if ru, ok := ps.SysUsage().(*syscall.Rusage); ok && int64(ru.Maxrss) > t.maxRSS {
			t.maxRSS = int64(ru.Maxrss)
		}
	}
	var o workerOut
	if readJSON(p.cfg.Out, &o) != nil {
		t.Runs += int64(p.prog[1])
		return
	}
	t.Runs += o.Runs
	t.Nontrivial += o.Nontrivial
	t.Ops += o.Ops
	t.SimTime += o.SimTime
	t.Steps += o.Steps
	t.Switches += o.Switches
	t.Preempts += o.Preempts
	t.GC += o.GC
	t.FaultyRuns += o.FaultyRuns
	t.SchedRuns += o.SchedRuns
	for k, v := range o.Faults {
		t.Faults[k] += v
	}
	for k, v := range o.Probes {
		t.Probes[k] += v
	}
	for _, h := range o.Hits {
		t.hits[h] = true
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, o.Samples...)
	}
	b, _ := os.ReadFile(p.cfg.Out + ".hashes")
	for i := 0; i+8 <= len(b); i += 8 {
		t.hashes = append(t.hashes, binary.LittleEndian.Uint64(b[i:]))
	}
	os.Remove(p.cfg.Out + ".hashes")
}

// distinct counts different execution hashes.
func (t *totals) distinct() int {
	sort.Slice(t.hashes, func(i, j int) bool { return t.hashes[i] < t.hashes[j] })
	n := 0
	for i, h := range t.hashes {
		if i == 0 || h != t.hashes[i-1] {
			n++
		}
	}
	return n
}

func (t *totals) sites() (out []int) {
	for h := range t.hits {
		out = append(out, h)
	}
	sort.Ints(out)
	return
}

// ---------------------------------------------------------------- attribution

type trial struct {
	spec  Spec // result
	ok    bool // completed
	crash string
	hang  bool
}

var trialNo int

// attempt executes a Spec in a fresh process.
func attempt(dir string, s Spec, tracing bool, limit time.Duration) (t trial) {
	if s.Race && tracing {
		// formatting the trace synchronises the tasks in the eyes of the race detector:
		// the verdict comes from an execution without, the trace from the other build
		t = attempt(dir, s, false, limit)
		plain := s
		plain.Race = false
		u := attempt(dir, plain, true, limit)
		t.spec.Trace = u.spec.Trace
		if t.ok && u.ok && t.spec.Hash != u.spec.Hash {
			t.spec.Trace = append([]string{"(trace of an execution that took another course)"}, t.spec.Trace...)
		}
		return
	}
	trialNo++
	base := filepath.Join(dir, fmt.Sprintf("t%d", trialNo))
	s.Trace = nil
	writeJSON(base+".in", s)
	args := []string{"spec", "-in", base + ".in", "-out", base + ".out"}
	if tracing {
		args = append(args, "-trace")
	}
	c := child(s.Race, s.Narrow, base+".err", args...)
	c.Env = append(c.Env, "ZSIM_REC="+base+".rec")
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		t.hang = true
		t.spec.Class, t.spec.Message = "hang", fmt.Sprintf("the execution does not finish within %v", limit)
		return
	}
	if e := readJSON(base+".out", &t.spec); err == nil && e == nil {
		t.ok = true
		if t.spec.Class == "data race" {
			t.spec.Message += raceText(base + ".err")
		}
		return
	}
	t.crash = crashText(base + ".err")
	t.spec.Choices = readRec(base + ".rec")
	if t.crash != "" {
		t.spec.Class, t.spec.Message = "crash", t.crash
	}
	if tracing {
		b, _ := os.ReadFile(base + ".rec.trace")
		t.spec.Trace = strings.Split(strings.TrimSpace(string(b)), "\n")
	}
	return
}

// raceText extracts the two accesses of the first report.
func raceText(path string) string {
	b, _ := os.ReadFile(path)
	s := string(b)
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s[1:], "=================="); j > 0 {
		s = s[:j]
	}
	out := ""
	sec := ""
	for _, l := range strings.Split(s, "\n")[1:] {
		switch {
		case strings.HasPrefix(l, "Goroutine"):
			sec = ""
		case l != "" && l[0] != ' ':
			sec = strings.TrimSpace(l)
			if k := strings.Index(sec, " at 0x"); k > 0 {
				sec = sec[:k]
			}
		case sec != "" && strings.Contains(l, "github.com/protolambda/zssz"):
			f := strings.TrimSpace(l)
			f = strings.TrimSuffix(f, "()")
			out += "; " + strings.ToLower(sec) + " in " + f
			sec = ""
		}
	}
	return out
}

func readRec(path string) []uint32 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4 {
		return nil
	}
	n := int(binary.LittleEndian.Uint32(b))
	out := []uint32{}
	for i := 0; i < n && 4*i+8 <= len(b); i++ {
		out = append(out, binary.LittleEndian.Uint32(b[4+4*i:]))
	}
	return out
}

// crashText summarises why a process died, if it was the library (or memory it damaged).
func crashText(path string) string {
	b, _ := os.ReadFile(path)
	s := string(b)
	if strings.Contains(s, "harness failure") || strings.HasPrefix(s, "zsim:") {
		return ""
	}
	i := -1
	for _, k := range []string{"fatal error:", "panic:", "runtime: ", "SIGSEGV", "SIGBUS"} {
		if j := strings.Index(s, k); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return ""
	}
	lines := strings.Split(s[i:], "\n")
	head := lines[0]
	if strings.HasPrefix(head, "runtime: ") {
		for _, l := range lines {
			if strings.HasPrefix(l, "fatal error:") {
				head += "; " + l
				break
			}
		}
	}
	frame := ""
	for _, l := range lines {
		if strings.Contains(l, "github.com/protolambda/zssz") && !strings.HasPrefix(l, "\t") {
			frame = strings.TrimSpace(l)
			if k := strings.LastIndex(frame, "("); k > 0 {
				frame = frame[:k]
			}
			break
		}
	}
	corrupt := strings.Contains(s, "bad pointer") || strings.Contains(s, "pointer to free object") || strings.Contains(s, "pointer to unallocated") || strings.Contains(s, "bad sweepgen") || strings.Contains(s, "SIGSEGV") || strings.Contains(s, "SIGBUS") || strings.Contains(s, "unexpected fault address") || strings.Contains(s, "corrupt")
	if frame == "" && !corrupt {
		return ""
	}
	if frame != "" {
		head += " in " + frame
	}
	return "the process dies: " + head
}

func attribute(dir string, p *proc) *Spec {
	var o workerOut
	limit := 150 * time.Second
	if !p.hung && readJSON(p.cfg.Out, &o) == nil && o.Viol != nil {
		s := *o.Viol
		single := s
		if t := attempt(dir, single, false, limit); t.spec.Class == s.Class {
			return minimise(dir, single)
		}
		batch := s
		batch.Choices, batch.Start, batch.Stride = nil, p.cfg.Start, p.cfg.Stride
		if t := attempt(dir, batch, true, limit+200*time.Second); t.spec.Class == s.Class {
			batch.Message, batch.Hash, batch.Trace = t.spec.Message, t.spec.Hash, tail(t.spec.Trace)
			batch.Note = "depends on the executions before it: the replay repeats the batch"
			return &batch
		}
		// perhaps the course depends on something the simulator does not own
		hits := 0
		var last trial
		for i := 0; i < 20; i++ {
			if t := attempt(dir, single, true, limit); t.spec.Class == s.Class {
				hits++
				last = t
			}
		}
		if hits > 0 {
			single.Message, single.Hash, single.Trace = last.spec.Message, last.spec.Hash, tail(last.spec.Trace)
			single.Note = fmt.Sprintf("reproduced in %d of 20 further executions: the library behaves differently from one execution to the next", hits)
			return &single
		}
		fatal("a violation of %s (%s: %s; run %d) could not be reproduced", s.Prop, s.Class, s.Message, s.Run)
	}
	run := p.prog[0]
	if run == 0 {
		show(p.stderr)
		fatal("a worker failed outside any execution: %v", p.err)
	}
	run--
	s := Spec{Prop: p.cfg.Prop, Seed: p.cfg.Seed, Run: run, Race: p.cfg.Race, Narrow: p.cfg.Narrow}
	if b, _ := os.ReadFile(p.stderr); strings.Contains(string(b), "harness failure") {
		show(p.stderr)
		fatal("failure of the simulator in run %d", run)
	}
	t := attempt(dir, s, false, limit)
	if t.hang {
		if !p.hung {
			fmt.Fprintf(os.Stderr, "zsim: run %d crashed a worker but takes too long when repeated\n", run)
			return nil
		}
		s.Class, s.Message, s.Note = "hang", t.spec.Message, "not minimised"
		return &s
	}
	if t.crash != "" {
		s.Class, s.Message = "crash", t.crash
		s.Choices = t.spec.Choices
		return minimiseCrash(dir, s, func(t trial) bool { return t.crash != "" })
	}
	if p.hung {
		fmt.Fprintf(os.Stderr, "zsim: run %d exceeded the time limit once, but finishes when repeated\n", run)
		return nil
	}
	if t.ok && t.spec.Class != "" {
		s.Class, s.Choices = t.spec.Class, t.spec.Choices
		return minimise(dir, s)
	}
	// only after the executions before it
	s.Start, s.Stride = p.cfg.Start, p.cfg.Stride
	t = attempt(dir, s, false, limit+200*time.Second)
	if strings.Contains(t.crash, "out of memory") {
		// the simulations before it have left too little: what the library keeps is asked by C17
		fmt.Fprintf(os.Stderr, "zsim: the memory ended in run %d, but suffices when it is repeated alone\n", run)
		return nil
	}
	if t.crash != "" {
		s.Class, s.Message = "crash", t.crash
		s.Note = "depends on the executions before it: the replay repeats the batch"
		return &s
	}
	show(p.stderr)
	fmt.Fprintf(os.Stderr, "zsim: a worker died in run %d, but the execution completes when repeated\n", run)
	return nil
}

func show(path string) {
	b, _ := os.ReadFile(path)
	if len(b) > 6000 {
		b = b[:6000]
	}
	os.Stderr.Write(b)
}

func tail(t []string) []string {
	if len(t) > 3000 {
		t = append([]string{fmt.Sprintf("(%d earlier lines)", len(t)-3000)}, t[len(t)-3000:]...)
	}
	return t
}

var shrinkSecs = func() int {
	n := 20
	fmt.Sscanf(os.Getenv("ZSIM_SHRINK"), "%d", &n)
	return n
}()

func minimise(dir string, s Spec) *Spec {
	if s.Race {
		// the detector reports each pair of places once per process
		m := minimiseCrash(dir, s, func(t trial) bool { return t.spec.Class == s.Class })
		if t := attempt(dir, *m, true, 150*time.Second); t.spec.Class == s.Class {
			m.Message, m.Hash, m.Trace, m.Case = t.spec.Message, t.spec.Hash, tail(t.spec.Trace), t.spec.Case
		}
		return m
	}
	in, out := filepath.Join(dir, "shrink.in"), filepath.Join(dir, "shrink.out")
	writeJSON(in, s)
	c := child(false, s.Narrow, filepath.Join(dir, "shrink.err"), "shrink", "-in", in, "-out", out, "-wall", fmt.Sprint(shrinkSecs))
	if err := c.Start(); err == nil {
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		select {
		case <-done:
		case <-time.After(time.Duration(shrinkSecs+40) * time.Second):
			c.Process.Kill()
			<-done
		}
	}
	var m Spec
	if readJSON(out, &m) == nil {
		if t := attempt(dir, m, true, 150*time.Second); t.spec.Class == s.Class {
			m.Message, m.Hash, m.Trace, m.Case = t.spec.Message, t.spec.Hash, tail(t.spec.Trace), t.spec.Case
			return &m
		}
	}
	if t := attempt(dir, s, true, 150*time.Second); t.spec.Class == s.Class {
		s.Message, s.Hash, s.Trace, s.Case = t.spec.Message, t.spec.Hash, tail(t.spec.Trace), t.spec.Case
	}
	s.Note = "not minimised"
	return &s
}

// minimiseCrash shrinks with one process per trial.
func minimiseCrash(dir string, s Spec, again func(trial) bool) *Spec {
	end := time.Now().Add(time.Duration(shrinkSecs) * time.Second)
	if len(s.Choices) == 0 {
		s.Choices = nil
	}
	orig := s
	n0 := len(s.Choices)
	trials := 0
	try := func(c []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		trials++
		x := s
		x.Choices = c
		if t := attempt(dir, x, false, 60*time.Second); again(t) {
			s.Choices, s.Message = c, t.spec.Message
			return true
		}
		return false
	}
	if s.Choices != nil && try(s.Choices) {
		for k := len(s.Choices) / 2; k >= 1; k /= 2 {
			for len(s.Choices) > k && try(append([]uint32{}, s.Choices[:len(s.Choices)-k]...)) {
			}
		}
		for k := len(s.Choices) / 2; k >= 1 && time.Now().Before(end); k /= 2 {
			for i := 0; i+k <= len(s.Choices) && time.Now().Before(end); {
				if !try(append(append([]uint32{}, s.Choices[:i]...), s.Choices[i+k:]...)) {
					i += k
				}
			}
		}
		s.Note = fmt.Sprintf("minimised from %d to %d choices in %d executions", n0, len(s.Choices), trials)
	} else {
		s = orig
		s.Choices = nil
		s.Note = "not minimised"
	}
	t := attempt(dir, s, true, 150*time.Second)
	if !again(t) {
		orig.Choices = nil
		orig.Note = "not minimised"
		return &orig
	}
	s.Trace = tail(t.spec.Trace)
	return &s
}

// audit re-executes a sample of the runs in a fresh process and compares the execution hashes.
func audit(dir string, ps []*proc, prop string, seed uint64) (n, bad int) {
	for i, p := range ps {
		var o workerOut
		if readJSON(p.cfg.Out, &o) != nil {
			continue
		}
		cfg := p.cfg
		cfg.Count = 48
		cfg.WallMs = 10000
		q := startWorker(dir, 1000000+i, cfg)
		if <-q.done != nil {
			continue
		}
		var o2 workerOut
		if readJSON(q.cfg.Out, &o2) != nil {
			continue
		}
		for k := range o2.First {
			if k < len(o.First) {
				n++
				if o.First[k] != o2.First[k] {
					bad++
				}
			}
		}
	}
	return
}

// ---------------------------------------------------------------- replay

func replay(path string) {
	var s Spec
	if err := readJSON(path, &s); err != nil {
		fatal("%v", err)
	}
	if scen.Scenarios[s.Prop] == nil {
		fatal("no simulation for property %q", s.Prop)
	}
	dir, err := os.MkdirTemp(filepath.Dir(exe), "replay")
	if err != nil {
		fatal("%v", err)
	}
	t := attempt(dir, s, true, 300*time.Second)
	os.RemoveAll(dir)
	for _, l := range tail(t.spec.Trace) {
		fmt.Println(l)
	}
	if t.spec.Case != "" {
		fmt.Println("case:", t.spec.Case)
	}
	switch {
	case t.spec.Class == "" && t.ok:
		fmt.Println("the execution completes without violation")
		os.Exit(0)
	case t.spec.Class == "":
		fatal("the execution failed outside the library")
	}
	fmt.Printf("%s: %s\n", t.spec.Class, t.spec.Message)
	switch {
	case t.spec.Class != s.Class:
		fmt.Printf("(another violation than the recorded one: %s)\n", s.Class)
	case t.ok && t.spec.Hash == s.Hash:
		fmt.Printf("reproduced exactly: execution hash %s\n", s.Hash)
	case t.ok:
		fmt.Printf("reproduced, with execution hash %s instead of %s\n", t.spec.Hash, s.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, path)
	os.Exit(1)
}

var _ = rt.Mix
