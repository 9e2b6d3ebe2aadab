// Package rt is the deterministic simulation runtime: the choice source, the cooperative
// task scheduler, the simulated clock, and the statement-level hook Y that the build overlay
// inserts into the library under test. It knows nothing about that library.
//
// Exactly one task goroutine runs at any time; all package state is owned by that task
// (ownership moves with the wake-up channel), so no locks are needed.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// ---------------------------------------------------------------- choice source

// Src hands out every choice of a run: which task runs, delays, faults, generated data.
// A recorded list of choices replays the run; choices past its end are 0 (the simplest).
type Src struct {
	state uint64
	Rec   []uint32
	rep   []uint32
	isRep bool
	pos   int
}

// Sink, when set, receives every choice as it is made (so that it survives a crash).
var Sink func(uint32)

// TraceSink, when set, receives every trace line as it is made.
var TraceSink func(string)

func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewSrc(seed uint64) *Src         { return &Src{state: seed} }
func ReplaySrc(choices []uint32) *Src { return &Src{rep: choices, isRep: true} }

func (s *Src) raw() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a choice in [0,n). 0 is always the simplest alternative.
func (s *Src) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.rep) {
			v = s.rep[s.pos]
			s.pos++
		}
		if v >= uint32(n) {
			v %= uint32(n)
		}
	} else {
		v = uint32(s.raw() % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	if Sink != nil {
		Sink(v)
	}
	return int(v)
}

// Chance is true with probability num/den; false is the simple alternative.
func (s *Src) Chance(num, den int) bool { return s.Draw(den) >= den-num }

// Pick draws an index by weight; put the simplest alternative first.
func (s *Src) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Draw(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// ---------------------------------------------------------------- tasks

type Task struct {
	ID     int
	Name   string
	wake   chan struct{}
	exited chan struct{}
	ready  func() bool // nil: runnable
	until  int64       // wake-up time, when asleep
	asleep bool
	parked bool // stalled for ever
	done   bool
	helper bool // spawned by the library itself
	join   bool // only waits for others to end
	gone   bool // its goroutine has ended
}

type Sim struct {
	Src      *Src
	Now      int64 // simulated nanoseconds
	Hash     uint64
	Switches int
	Preempts int
	Points   int
	GCs      int
	Spawned  int
	Deadlock string
	Err      interface{} // the panic value that ended the run
	ErrStack string
	Trace    []string
	Tracing  bool

	tasks    []*Task
	cur      *Task
	done     chan struct{}
	killing  bool
	finished bool

	StmtGap int // 0: no statement-level preemption; otherwise the largest gap between preemptions
	NoSeam  bool
	GCGap   int // 0: no forced collections; otherwise the largest gap (in statements)
	Fuel    int64

	steps    int64
	nextStep int64
	nextPre  int64
	nextGC   int64
	nextFair int64
	gcLeft   int
	fair     bool
}

// fairGap: a task that runs this long while others could run is made to pause, whatever the
// schedule says (real schedulers do that too; a spinning task would never end otherwise).
const fairGap = 300000

type Killed struct{}

// Hand-overs between tasks: invisible to the race detector.
func send(c chan struct{})    { raceOff(); c <- struct{}{}; raceOn() }
func recv(c chan struct{})    { raceOff(); <-c; raceOn() }
func closeCh(c chan struct{}) { raceOff(); close(c); raceOn() }

// hb stands for what the end of a task makes visible to those who wait for it.
var hb [8]byte

// Harness is the panic value of failures of the simulator itself.
type Harness struct{ Msg string }

type OutOfFuel struct{ Steps int64 }

func (o OutOfFuel) String() string {
	return fmt.Sprintf("operation did not finish within %d statements", o.Steps)
}

const inf = int64(1) << 62

var cur *Sim // the running simulation, if any
var on bool
var Hits []bool
var TotalSteps int64

// Coarse is set when the library contains constructs the scheduler does not own (channels):
// operations then run without any switch inside them.
var Coarse bool

// Y is called before every statement of the instrumented library.
func Y(site int) {
	if on {
		y(site)
	}
}

func y(site int) {
	if site < len(Hits) {
		Hits[site] = true
	}
	s := cur
	s.steps++
	if s.steps >= s.nextStep {
		s.slow(site)
	}
}

func (s *Sim) slow(site int) {
	if s.steps >= s.Fuel {
		st := s.steps
		s.Fuel = s.steps + 1000000
		s.calcNext()
		panic(OutOfFuel{st})
	}
	if s.steps >= s.nextGC {
		s.forceGC()
		s.drawGC()
	}
	if s.steps >= s.nextPre {
		s.Preempts++
		s.Hash = Mix(s.Hash, uint64(site)<<8|1)
		s.reschedule(s.cur, site)
	} else if s.steps >= s.nextFair {
		s.fair = true
		s.reschedule(s.cur, site)
	}
	s.calcNext()
}

func (s *Sim) forceGC() {
	s.GCs++
	wasOn := on
	on = false
	runtime.GC()
	on = wasOn
}

func (s *Sim) drawGC() {
	if s.GCGap == 0 || s.gcLeft == 0 {
		s.nextGC = inf
		return
	}
	s.gcLeft--
	s.nextGC = s.steps + 1 + int64(s.Src.Draw(s.GCGap))
}

// StartGC forces up to n collections, at intervals of up to gap statements.
func (s *Sim) StartGC(gap, n int) { s.GCGap, s.gcLeft = gap, n; s.drawGC(); s.calcNext() }

func (s *Sim) calcNext() {
	n := s.Fuel
	if s.nextPre < n {
		n = s.nextPre
	}
	if s.nextGC < n {
		n = s.nextGC
	}
	if s.nextFair < n {
		n = s.nextFair
	}
	s.nextStep = n
}

func (s *Sim) drawGap() {
	s.nextPre, s.nextFair = inf, inf
	if s.live() > 1 {
		s.nextFair = s.steps + fairGap
	}
	if s.StmtGap > 0 && s.live() > 1 {
		if k := s.Src.Draw(8); k != 0 {
			s.nextPre = s.steps + 1 + int64(s.Src.Draw(s.StmtGap))
		}
	}
	s.calcNext()
}

func (s *Sim) live() int {
	n := 0
	for _, t := range s.tasks {
		if !t.done && !t.parked && !t.join {
			n++
		}
	}
	return n
}

// Join blocks the current task until the given ones have ended or stalled.
func (s *Sim) Join(ts []*Task) {
	me := s.cur
	me.join = true
	WaitFor(func() bool {
		for _, t := range ts {
			if !t.Over() {
				return false
			}
		}
		return true
	})
	me.join = false
	RaceAcquire(unsafe.Pointer(&hb))
}

// RunID numbers the executions of this process.
var RunID int64

func New(src *Src) *Sim {
	RunID++
	return &Sim{Src: src, done: make(chan struct{}, 1), Fuel: 40000000, nextStep: inf, nextPre: inf, nextGC: inf, nextFair: inf}
}

func (s *Sim) Logf(format string, a ...interface{}) {
	if s.Tracing {
		n := "-"
		if s.cur != nil {
			n = s.cur.Name
		}
		s.trace(fmt.Sprintf("t=%dns %s: ", s.Now, n) + fmt.Sprintf(format, a...))
	}
}

func (s *Sim) trace(l string) {
	if len(l) > 4000 {
		l = l[:4000] + "..."
	}
	if len(s.Trace) < 200000 {
		s.Trace = append(s.Trace, l)
	}
	if TraceSink != nil {
		TraceSink(l)
	}
}

// Note folds an observable into the execution hash.
func (s *Sim) Note(v uint64) { s.Hash = Mix(s.Hash, v) }

func (s *Sim) Spawn(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.Spawned++
	go func() {
		recv(t.wake)
		defer func() {
			r := recover()
			t.done = true
			RaceRelease(unsafe.Pointer(&hb))
			if r != nil {
				if _, ok := r.(Killed); !ok && s.Err == nil {
					s.Err = r
					s.ErrStack = string(debug.Stack())
				}
			}
			t.gone = true
			closeCh(t.exited)
			if s.killing {
				return
			}
			if s.Err != nil {
				s.finish()
				return
			}
			s.reschedule(t, -1)
		}()
		if s.killing {
			return
		}
		f()
	}()
	if s.cur != nil {
		s.drawGap()
	}
	return t
}

// Go runs f as a new task: goroutines started by the library come here.
func Go(f func()) {
	if !on {
		go f()
		return
	}
	t := cur.Spawn(fmt.Sprintf("go%d", len(cur.tasks)), f)
	t.helper = true
}

func (s *Sim) finish() {
	if !s.finished {
		s.finished = true
		on = false
		send(s.done)
	}
}

// Run executes main as task 0 and returns when all tasks have ended (or the run was aborted,
// or only stalled tasks are left). Remaining goroutines are unwound.
func (s *Sim) Run(main func()) {
	prev := cur
	cur = s
	t := s.Spawn("main", main)
	s.cur = t
	s.drawGap()
	on = true
	send(t.wake)
	recv(s.done)
	on = false
	s.killing = true
	for _, t := range s.tasks {
		if t.gone {
			continue
		}
		s.cur = t
		send(t.wake)
		recv(t.exited)
	}
	RaceAcquire(unsafe.Pointer(&hb))
	TotalSteps += s.steps
	cur = prev
}

// Refuel bounds the work from here on to n more statements.
func (s *Sim) Refuel(n int64) {
	s.Fuel = s.steps + n
	s.calcNext()
}

// Over reports that the task has ended, or was stalled for ever.
func (t *Task) Over() bool { return t.done || t.parked }

func (s *Sim) candidates(self *Task) []*Task {
	var out []*Task
	if self != nil && !self.done && !self.parked && !self.asleep && (self.ready == nil || self.ready()) {
		out = append(out, self)
	}
	for _, t := range s.tasks {
		if t != self && !t.done && !t.parked && !t.asleep && (t.ready == nil || t.ready()) {
			out = append(out, t)
		}
	}
	return out
}

// reschedule picks the next task to run; self is the calling task (which may be done or blocked).
func (s *Sim) reschedule(self *Task, site int) {
	if s.killing {
		panic(Killed{})
	}
	var c []*Task
	for {
		c = s.candidates(self)
		if len(c) > 0 {
			break
		}
		// nothing runnable: jump the clock to the next sleeper
		var best *Task
		for _, t := range s.tasks {
			if t.asleep && !t.done && (best == nil || t.until < best.until) {
				best = t
			}
		}
		if best == nil {
			for _, t := range s.tasks {
				if !t.done && !t.parked {
					s.Deadlock += t.Name + " "
				}
			}
			s.finish()
			if self != nil && !self.done {
				recv(self.wake)
				panic(Killed{})
			}
			return
		}
		if best.until > s.Now {
			s.Now = best.until
		}
		best.asleep = false
	}
	if s.fair && len(c) > 1 && c[0] == self {
		c = c[1:]
	}
	s.fair = false
	next := c[0]
	if len(c) > 1 {
		next = c[s.Src.Draw(len(c))]
	}
	next.ready = nil
	if next != self {
		s.Switches++
		s.Hash = Mix(s.Hash, uint64(next.ID)<<32|uint64(uint32(site)))
		if s.Tracing {
			from := "-"
			if self != nil {
				from = self.Name
			}
			s.trace(fmt.Sprintf("t=%dns switch %s -> %s at %s", s.Now, from, next.Name, SiteName(site)))
		}
		s.cur = next
		if self != nil && !self.done {
			s.drawGap()
			send(next.wake)
			recv(self.wake)
			if s.killing {
				panic(Killed{})
			}
			s.cur = self
			return
		}
		s.drawGap()
		send(next.wake)
		return
	}
	s.drawGap()
}

// SiteName renders a scheduling point for traces.
var SiteName = func(site int) string {
	if site < 0 {
		return "seam"
	}
	return fmt.Sprintf("stmt#%d", site)
}

// Point is a scheduling point at a seam (a stream, hash or component callback).
func Point() {
	if !on || Coarse {
		return
	}
	s := cur
	if s.NoSeam {
		return
	}
	s.Points++
	if s.live() > 1 {
		s.reschedule(s.cur, -1)
	}
}

// Between is a scheduling point between operations (also honoured in coarse mode).
func Between() {
	if on && cur.live() > 1 {
		cur.reschedule(cur.cur, -1)
	}
}

// WaitFor blocks the current task until cond holds.
func WaitFor(cond func() bool) {
	if cond() {
		return
	}
	if !on {
		if cur != nil && cur.killing {
			panic(Killed{})
		}
		panic(Harness{"would block for ever outside a simulation"})
	}
	s := cur
	s.cur.ready = cond
	s.reschedule(s.cur, -1)
}

// Sleep advances simulated time for the current task.
func Sleep(d int64) {
	if !on {
		return
	}
	s := cur
	s.cur.until = s.Now + d
	s.cur.asleep = true
	s.reschedule(s.cur, -1)
}

// StallForever abandons the current task at this point: it never runs again.
func StallForever() {
	if !on {
		panic(Killed{})
	}
	s := cur
	s.cur.parked = true
	s.reschedule(s.cur, -1)
	panic(Killed{})
}

func Current() *Sim { return cur }
func Active() bool  { return on }

// Steps returns the number of library statements executed in this run.
func (s *Sim) Steps() int64 { return s.steps }

// Unfinished lists tasks that neither ended nor were stalled on purpose.
func (s *Sim) Unfinished() (out []string) {
	for _, t := range s.tasks {
		if !t.done && !t.parked {
			out = append(out, t.Name)
		}
	}
	return
}

// TaskID identifies the running task.
func TaskID() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.ID
}
