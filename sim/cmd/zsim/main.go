// Command zsim runs the simulations of one property: many seeds over several worker processes,
// failure attribution, minimisation, replay files and evidence.
//
//	zsim check -prop C01 -tier quick -verif /verif     run the check
//	zsim replay FILE                                   reproduce a reported failure
//	zsim audit -prop C01 -n 200                        determinism audit: hashes of runs, one per line
//	zsim one -prop C01 -seed 1 -run 17                 one run, with its trace
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

// Spec is what makes a run (or a batch of runs) repeatable.
type Spec struct {
	Prop    string   `json:"property"`
	Seed    uint64   `json:"seed"`
	Run     uint64   `json:"run"`               // index of the failing run
	Choices []uint32 `json:"choices,omitempty"` // minimised choice sequence (absent: those of the run's seed)
	Start   uint64   `json:"batch_start"`       // batch replay: runs Start, Start+Stride, ... up to Run
	Stride  uint64   `json:"batch_stride"`      // 0: the run alone
	Class   string   `json:"class"`
	Message string   `json:"message"`
	Hash    string   `json:"hash,omitempty"`
	Case    string   `json:"case,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Coarse  bool     `json:"coarse,omitempty"`
	Race    bool     `json:"race,omitempty"`   // needs the build with the race detector
	Narrow  bool     `json:"narrow,omitempty"` // needs the build for words of 32 bits
	Note    string   `json:"note,omitempty"`
}

var exe string
var coarse bool
var siteNames []string

func propHash(p string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(p); i++ {
		h = (h ^ uint64(p[i])) * 0x100000001b3
	}
	return h
}

func runSeed(prop string, seed, run uint64) uint64 {
	return rt.Mix(rt.Mix(seed, propHash(prop)), run)
}

// load reads what the build left next to the binary.
func load() {
	exe, _ = os.Executable()
	dir := filepath.Dir(exe)
	if b, err := os.ReadFile(filepath.Join(dir, "flags.txt")); err == nil {
		coarse = strings.Contains(string(b), "coarse=true")
	}
	if b, err := os.ReadFile(filepath.Join(dir, "sites.txt")); err == nil && len(b) > 0 {
		siteNames = strings.Split(string(b), "\n")
	}
	rt.Coarse = coarse
	rt.Hits = make([]bool, len(siteNames))
	rt.SiteName = func(site int) string {
		if site < 0 {
			return "a callback"
		}
		if site < len(siteNames) {
			return siteNames[site]
		}
		return fmt.Sprintf("stmt#%d", site)
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "zsim: "+format+"\n", a...)
	os.Exit(2)
}

// process settings of everything that executes the library
func confine() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("all")
	if !rt.RaceBuild { // the race detector reserves address space
		lim := syscall.Rlimit{Cur: 6 << 30, Max: scen.AddressSpace}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	nocore := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &nocore)
	scen.Setup()
}

var gcTick int

// tidy collects between runs when enough garbage has gathered.
func tidy() {
	gcTick++
	if gcTick%8 != 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 64<<20 {
		runtime.GC()
	}
}

func src(s Spec) *rt.Src {
	if s.Choices != nil {
		return rt.ReplaySrc(s.Choices)
	}
	return rt.NewSrc(runSeed(s.Prop, s.Seed, s.Run))
}

// runOnce is one execution, judged by the race detector as well where that is built in.
func runOnce(prop string, s *rt.Src, tracing bool, st *scen.Stats) scen.Result {
	before := rt.RaceReports()
	res := scen.Run(prop, s, tracing, st)
	if n := rt.RaceReports(); n > before && res.Viol == nil {
		res.Viol = &scen.Viol{Class: "data race", Msg: "two operations access the same memory without synchronisation"}
	}
	return res
}

// execute performs a Spec in this process and returns the result of its last run.
func execute(s Spec, tracing bool) scen.Result {
	st := scen.NewStats()
	if s.Stride != 0 {
		for r := s.Start; r < s.Run; r += s.Stride {
			p := s
			p.Run, p.Choices = r, nil
			res := runOnce(s.Prop, src(p), false, st)
			tidy()
			if res.Viol != nil && res.Viol.Class == s.Class {
				return res
			}
		}
	}
	return runOnce(s.Prop, src(s), tracing, st)
}

// ---------------------------------------------------------------- worker

type workerCfg struct {
	Prop                 string
	Seed                 uint64
	Start, Stride, Count uint64
	WallMs               int64
	State, Out           string
	Race, Narrow         bool
}

type workerOut struct {
	Runs, Nontrivial                            int64
	Faults, Probes                              map[string]int64
	Ops, SimTime, Steps, Switches, Preempts, GC int64
	FaultyRuns, SchedRuns                       int64
	Hits                                        []int
	Samples                                     []string
	First                                       [][2]uint64 // run, hash: for the determinism audit
	Viol                                        *Spec
	Known                                       map[string]int64
}

func worker(cfg workerCfg) {
	confine()
	f, err := os.OpenFile(cfg.State, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	f.Truncate(64)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("%v", err)
	}
	prog := (*[8]uint64)(unsafe.Pointer(&mem[0]))
	hf, err := os.Create(cfg.Out + ".hashes")
	if err != nil {
		fatal("%v", err)
	}
	hw := bufio.NewWriterSize(hf, 1<<16)
	out := workerOut{}
	st := scen.NewStats()
	end := time.Now().Add(time.Duration(cfg.WallMs) * time.Millisecond)
	sampleAt := map[uint64]bool{1: true, 7: true, 40: true, 200: true}
	for k := uint64(0); k < cfg.Count; k++ {
		if k&15 == 0 && time.Now().After(end) {
			break
		}
		run := cfg.Start + k*cfg.Stride
		prog[0] = run + 1
		prog[1]++
		s := Spec{Prop: cfg.Prop, Seed: cfg.Seed, Run: run, Race: cfg.Race, Narrow: cfg.Narrow}
		res := runOnce(cfg.Prop, src(s), false, st)
		out.Runs++
		out.Steps += res.Steps
		out.Switches += int64(res.Sw)
		out.Preempts += int64(res.Pre)
		out.GC += int64(res.GCs)
		if res.Fired > 0 {
			out.FaultyRuns++
		}
		if res.Sw > 0 {
			out.SchedRuns++
		}
		if res.Nontrivial {
			out.Nontrivial++
			var b [8]byte
			*(*uint64)(unsafe.Pointer(&b[0])) = res.Hash
			hw.Write(b[:])
		}
		if sampleAt[k] {
			out.Samples = append(out.Samples, fmt.Sprintf("run %d: %s [%d statements, %d switches, %d faults fired]", run, res.Desc, res.Steps, res.Sw, res.Fired))
		}
		if k < 64 {
			out.First = append(out.First, [2]uint64{run, res.Hash})
		}
		if res.Viol != nil {
			s.Class, s.Message, s.Choices, s.Case = res.Viol.Class, res.Viol.Msg, res.Rec, res.Desc
			if s.Choices == nil {
				s.Choices = []uint32{}
			}
			out.Viol = &s
			break
		}
		tidy()
	}
	prog[0] = 0
	hw.Flush()
	hf.Close()
	out.Faults, out.Probes, out.Ops, out.SimTime = st.Faults, st.Probes, st.Ops, st.SimTime
	for i, h := range rt.Hits {
		if h {
			out.Hits = append(out.Hits, i)
		}
	}
	writeJSON(cfg.Out, out)
	os.Exit(0)
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fatal("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		fatal("%v", err)
	}
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// runSpec executes a Spec in this (fresh) process and writes what happened.
func runSpec(in, out string, tracing bool) {
	confine()
	var s Spec
	if err := readJSON(in, &s); err != nil {
		fatal("%v", err)
	}
	res := execute(s, tracing)
	o := Spec{Prop: s.Prop, Hash: fmt.Sprintf("%016x", res.Hash), Trace: res.Trace, Case: res.Desc, Choices: res.Rec}
	if res.Viol != nil {
		o.Class, o.Message = res.Viol.Class, res.Viol.Msg
	}
	writeJSON(out, o)
	os.Exit(0)
}

func main() {
	load()
	if len(os.Args) < 2 {
		fatal("usage: zsim check|replay|audit|one ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "verification directory")
	seed := fs.Uint64("seed", envSeed(), "seed")
	run := fs.Uint64("run", 0, "run index")
	n := fs.Uint64("n", 0, "number of runs (0: by tier)")
	wall := fs.Int("wall", 0, "wall clock cap in seconds (0: by tier)")
	procs := fs.Int("procs", runtime.NumCPU(), "worker processes")
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	trace := fs.Bool("trace", false, "trace")
	fs.Parse(os.Args[2:])
	if *prop != "" && scen.Scenarios[*prop] == nil {
		fatal("no simulation for property %q", *prop)
	}
	switch cmd {
	case "hello":
	case "check":
		check(*prop, *tier, *verif, *seed, *n, *wall, *procs)
	case "replay":
		if fs.NArg() != 1 {
			fatal("usage: zsim replay FILE")
		}
		replay(fs.Arg(0))
	case "worker":
		var cfg workerCfg
		if err := readJSON(*in, &cfg); err != nil {
			fatal("%v", err)
		}
		worker(cfg)
	case "spec":
		runSpec(*in, *out, *trace)
	case "shrink":
		shrink(*in, *out, *wall)
	case "audit":
		confine()
		st := scen.NewStats()
		for i := uint64(0); i < *n; i++ {
			r := *run + i
			res := scen.Run(*prop, src(Spec{Prop: *prop, Seed: *seed, Run: r}), false, st)
			fmt.Printf("%s %d %016x %d\n", *prop, r, res.Hash, res.Steps)
			tidy()
		}
	case "one":
		confine()
		res := execute(Spec{Prop: *prop, Seed: *seed, Run: *run}, true)
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("case: %s\nhash %016x, %d statements, %d switches, %d choices\n", res.Desc, res.Hash, res.Steps, res.Sw, len(res.Rec))
		if res.Viol != nil {
			fmt.Printf("VIOLATED %s: %s\n", res.Viol.Class, res.Viol.Msg)
			os.Exit(1)
		}
	default:
		fatal("unknown command %q", cmd)
	}
}

func envSeed() uint64 {
	var s uint64 = 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &s)
	return s
}
