// Package scen holds the simulated worlds: one scenario per property, over simulated streams,
// disks, connections, sinks and hash functions, with the checks of that property.
package scen

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

// Viol is a violation of the property under simulation.
type Viol struct{ Class, Msg string }

type Stats struct {
	Faults  map[string]int64 // fault kinds that actually fired
	Probes  map[string]int64 // conditions that were reached
	Ops     int64
	SimTime int64
}

// bump counts; in builds with the race detector not in the map itself, whose accesses the
// run time reports even from code that is not instrumented.
func (e *Env) bump(m map[string]int64, k string) {
	if !rt.RaceBuild {
		m[k]++
		return
	}
	e.late = append(e.late, lateCount{m, k})
}

type lateCount struct {
	m map[string]int64
	k string
}

func NewStats() *Stats { return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}} }

// TD is a type under simulation: its model and the library's definition of it.
type TD struct {
	R   *ref.T
	Def types.SSZ
}

type Env struct {
	portable bool // series are processed element by element
	hashing  int
	fuel     int64 // statements one operation may take
	S        *rt.Src
	Sim      *rt.Sim
	St       *Stats
	Prop     string

	Fired   int // faults that fired in this run
	Soft    int // legal but unusual deliveries in this run
	desc    []string
	descLen int
	late    []lateCount
	Sched   bool // statement-level scheduling is on for this run
	big     bool // this run is about values of many kilobytes or megabytes
}

type Result struct {
	Viol  *Viol
	Hash  uint64
	Rec   []uint32
	Trace []string
	Steps int64
	Fired int
	Desc  string
	Sw    int
	Pre   int
	GCs   int
	Time  int64

	Nontrivial bool
}

// Scenarios by property.
var Scenarios = map[string]func(*Env){}

// Run executes one simulated execution of prop with the given choices.
// byteOrders lists the properties that are also examined where series are processed element by element, as on hosts
// that are not little-endian. (C13 compares that with the other way.)
var byteOrders = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C09": true, "C10": true, "C12": true, "C14": true, "C15": true, "C16": true, "C18": true, "C19": true, "C26": true}

func Run(prop string, src *rt.Src, tracing bool, st *Stats) (res Result) {
	sim := rt.New(src)
	sim.Tracing = tracing
	e := &Env{S: src, Sim: sim, St: st, Prop: prop, fuel: opFuel}
	htr.InitZeroHashes(sha256.Sum256)
	setLittleEndian(true)
	sim.Run(func() {
		debug.SetPanicOnFault(true)
		if haveEndian && byteOrders[prop] && src.Draw(10) == 9 {
			e.portable = true
			e.Probe("the host's byte order counts as unknown")
			setLittleEndian(false)
		}
		Scenarios[prop](e)
	})
	for _, l := range e.late {
		l.m[l.k]++
	}
	setLittleEndian(true)
	guardReset()
	res = Result{Hash: sim.Hash, Rec: src.Rec, Trace: sim.Trace, Steps: sim.Steps(), Fired: e.Fired, Desc: strings.Join(e.desc, "; "), Sw: sim.Switches, Pre: sim.Preempts, GCs: sim.GCs, Time: sim.Now}
	res.Nontrivial = e.Fired+e.Soft+sim.Switches+sim.GCs > 0
	switch x := sim.Err.(type) {
	case nil:
		if sim.Deadlock != "" {
			res.Viol = &Viol{"deadlock", "no progress is possible any more; blocked: " + sim.Deadlock}
		}
	case *Viol:
		res.Viol = x
	default:
		panic(fmt.Sprintf("harness failure in %s: %v\n%s", prop, x, sim.ErrStack))
	}
	st.SimTime += sim.Now
	return
}

// Fail ends the run with a violation.
func (e *Env) Fail(class, format string, a ...interface{}) {
	panic(&Viol{class, fmt.Sprintf(format, a...)})
}

func (e *Env) Fault(kind string) {
	e.bump(e.St.Faults, kind)
	e.Fired++
	e.Sim.Logf("fault: %s", kind)
}

// Quirk counts a legal but unusual behaviour of a stream.
func (e *Env) Quirk(kind string) {
	e.bump(e.St.Faults, kind)
	e.Soft++
}

func (e *Env) Probe(kind string) { e.bump(e.St.Probes, kind) }

func (e *Env) Note(v uint64) { e.Sim.Note(v) }

func (e *Env) NoteBytes(b []byte) {
	h := uint64(len(b))
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 0x100000001b3
	}
	e.Sim.Note(h)
}

func (e *Env) noteStr(b string) {
	h := uint64(len(b))
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 0x100000001b3
	}
	e.Sim.Note(h)
}

// Desc adds to the description of the case (used for samples and traces).
func (e *Env) Desc(format string, a ...interface{}) {
	if e.descLen < 1500 {
		s := fmt.Sprintf(format, a...)
		e.desc = append(e.desc, s)
		e.descLen += len(s)
		e.noteStr(s)
	}
	e.Sim.Logf(format, a...)
}

// Schedule draws how finely tasks interleave in this run.
func (e *Env) Schedule() {
	switch e.S.Pick(2, 2, 3, 3, 2) {
	case 0: // seams only
	case 1:
		e.Sim.StmtGap, e.Sim.NoSeam = 2000, false
	case 2:
		e.Sim.StmtGap = 200
	case 3:
		e.Sim.StmtGap = 30
	case 4:
		e.Sim.StmtGap, e.Sim.NoSeam = 6, true
	}
	if rt.Coarse {
		e.Sim.StmtGap = 0
	}
	e.Sched = e.Sim.StmtGap > 0
}

// Par runs the given functions as concurrent tasks and waits until each has ended or stalled.
func (e *Env) Par(fs ...func()) {
	var ts []*rt.Task
	for i, f := range fs {
		f := f
		ts = append(ts, e.Sim.Spawn(fmt.Sprintf("task%d", i), func() {
			debug.SetPanicOnFault(true)
			f()
		}))
	}
	e.Sim.Join(ts)
}

// ---------------------------------------------------------------- types and values

func (e *Env) Type() *TD {
	if e.big {
		return e.TypeOf(e.jumboType())
	}
	return e.TypeOf(catalog.Draw(e.S))
}

// Gen draws a value of the type, of the size class of the run.
func (e *Env) Gen(td *TD, budget int) *ref.V {
	if e.big && e.S.Draw(4) != 3 {
		return e.jumboVal(td)
	}
	return td.R.Gen(e.S, budget)
}

func (e *Env) TypeOf(g reflect.Type) *TD {
	td := &TD{R: ref.Of(g)}
	td.Def = e.Def(g)
	return td
}

func (e *Env) Def(g reflect.Type) (d types.SSZ) {
	pan := e.try(func() {
		var err error
		d, err = types.SSZFactory(g)
		if err != nil {
			e.Fail("type", "supported type %s is rejected: %v", ref.Of(g), err)
		}
	})
	if pan != nil {
		e.Fail("type", "constructing type %s panics: %s", ref.Of(g), pan)
	}
	return d
}

// Fresh is another definition of the same type.
func (e *Env) Fresh(td *TD) *TD { return &TD{R: td.R, Def: e.Def(td.R.Go)} }

// Budget draws the size class of the values of this run.
func (e *Env) Budget() int {
	switch e.S.Pick(20, 20, 8, 1) {
	case 0:
		return 60
	case 1:
		return 400
	case 2:
		return 3000
	}
	return []int{10000, 40000, 70000, 140000}[e.S.Draw(4)]
}

func (td *TD) New(v *ref.V) reflect.Value { return td.R.New(v) }
func (td *TD) Zero() reflect.Value        { return reflect.New(td.R.Go) }
func (td *TD) Get(p reflect.Value) *ref.V { return td.R.Get(p.Elem()) }

// ---------------------------------------------------------------- operations

// Pan describes a panic that escaped an operation.
type Pan struct {
	Val   interface{}
	Inj   bool // it is the injected one
	Stack string
}

func (p *Pan) String() string {
	if p == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%v", p.Val)
}

// Injected is the value of the panics the simulator injects into callbacks.
type Injected struct{ Where string }

const opFuel = 40000000

// try runs one library operation, bounding its work and catching its panics.
func (e *Env) try(f func()) (pan *Pan) {
	e.Sim.Refuel(e.fuel)
	e.St.Ops++
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case rt.Killed, *Viol:
			panic(r)
		case rt.Harness:
			panic(r)
		case Injected:
			pan = &Pan{Val: r, Inj: true}
		default:
			_ = x
			pan = &Pan{Val: r}
			if e.Sim.Tracing {
				pan.Stack = string(debug.Stack())
				e.Sim.Logf("panic: %v\n%s", r, pan.Stack)
			}
		}
	}()
	f()
	return
}

// Out is the observable outcome of one operation.
type Out struct {
	Ok    bool
	Err   error
	Pan   *Pan
	N     uint64
	B     []byte
	V     *ref.V
	Root  [32]byte
	Reads int
}

func (o Out) String() string {
	switch {
	case o.Pan != nil:
		return "panic: " + o.Pan.String()
	case !o.Ok:
		return fmt.Sprintf("error (%v)", o.Err)
	}
	s := "ok"
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	if o.B != nil {
		b := o.B
		if len(b) > 64 {
			b = b[:64]
		}
		s += fmt.Sprintf(" bytes=%x(%d)", b, len(o.B))
	}
	if o.V != nil {
		s += " value=" + o.V.String()
	}
	if o.Root != ([32]byte{}) {
		s += fmt.Sprintf(" root=%x", o.Root[:6])
	}
	return s
}

// Same compares outcomes: verdict, counts, bytes, values, roots; not error texts.
func Same(a, b Out) bool {
	if (a.Pan != nil) != (b.Pan != nil) || a.Ok != b.Ok {
		return false
	}
	if !a.Ok {
		return a.N == b.N && bytes.Equal(a.B, b.B)
	}
	return a.N == b.N && bytes.Equal(a.B, b.B) && a.Root == b.Root && ref.Equal(a.V, b.V)
}

func (e *Env) Decode(r io.Reader, n uint64, dst reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() { o.Err = zssz.Decode(r, n, dst.Interface(), td.Def) })
	o.Ok = o.Pan == nil && o.Err == nil
	e.sized(n)
	e.outNote(o)
	return
}

func (e *Env) Dry(r io.Reader, n uint64, td *TD) (o Out) {
	o.Pan = e.try(func() { o.Err = zssz.DryCheck(r, n, td.Def) })
	o.Ok = o.Pan == nil && o.Err == nil
	e.sized(n)
	e.outNote(o)
	return
}

func (e *Env) Fuzz(r io.Reader, n uint64, dst reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() { o.N, o.Err = zssz.DecodeFuzzBytes(r, n, dst.Interface(), td.Def) })
	o.Ok = o.Pan == nil && o.Err == nil
	e.sized(n)
	e.outNote(o)
	return
}

func (e *Env) Encode(w io.Writer, src reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() {
		n, err := zssz.Encode(w, src.Interface(), td.Def)
		o.N, o.Err = uint64(n), err
	})
	o.Ok = o.Pan == nil && o.Err == nil
	e.sized(o.N)
	e.outNote(o)
	return
}

func (e *Env) Size(src reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() { o.N = zssz.SizeOf(src.Interface(), td.Def) })
	o.Ok = o.Pan == nil
	e.outNote(o)
	return
}

// asHost lets roots be computed with the byte order memory really has, until the last computation is over.
func (e *Env) asHost() func() {
	if !e.portable {
		return func() {}
	}
	e.hashing++
	setLittleEndian(true)
	return func() {
		if e.hashing--; e.hashing == 0 {
			setLittleEndian(false)
		}
	}
}

func (e *Env) Root(h htr.MerkleFn, src reflect.Value, td *TD) (o Out) {
	defer e.asHost()()
	o.Pan = e.try(func() { o.Root = zssz.HashTreeRoot(h, src.Interface(), td.Def) })
	o.Ok = o.Pan == nil
	e.outNote(o)
	return
}

func (e *Env) SRoot(h htr.MerkleFn, src reflect.Value, td *TD) (o Out) {
	defer e.asHost()()
	d, ok := td.Def.(types.SignedSSZ)
	if !ok {
		return Out{Ok: true}
	}
	o.Pan = e.try(func() { o.Root = zssz.SigningRoot(h, src.Interface(), d) })
	o.Ok = o.Pan == nil
	e.outNote(o)
	return
}

func (e *Env) PrettyP(w io.Writer, src reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() { zssz.Pretty(w, " ", src.Interface(), td.Def) })
	o.Ok = o.Pan == nil
	e.outNote(o)
	return
}

// sized counts operations on large streams.
func (e *Env) sized(n uint64) {
	if n > 4096 {
		switch {
		case n > 1<<26: // claims only
		case n > 1<<20:
			e.Probe("operation on more than 1 MiB")
		case n > 1<<16:
			e.Probe("operation on more than 64 KiB")
		default:
			e.Probe("operation on more than 4 KiB")
		}
	}
}

func (e *Env) outNote(o Out) {
	x := o.N << 2
	if o.Ok {
		x |= 1
	}
	if o.Pan != nil {
		x |= 2
	}
	for i := 0; i < 8; i++ {
		x ^= uint64(o.Root[i]) << (8 * uint(i))
	}
	e.Note(x)
}

// Signed reports whether the library offers a signing root for the type.
func (td *TD) Signed() bool {
	_, ok := td.Def.(types.SignedSSZ)
	return ok && td.R.K == ref.Cont && td.R.Ptrs == 0
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x..(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

// Setup prepares a process that executes simulations.
func Setup() {
	if p := os.Getenv("ZSIM_REC"); p != "" {
		recordTo(p)
	}
}

// recordTo keeps the choices and the trace in files, for executions that may kill the process.
func recordTo(path string) {
	const max = 1 << 22
	f, err := os.Create(path)
	if err != nil {
		die("%v", err)
	}
	f.Truncate(4 + 4*max)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4+4*max, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("%v", err)
	}
	n := 0
	rt.Sink = func(v uint32) {
		if n < max {
			binary.LittleEndian.PutUint32(mem[4+4*n:], v)
			n++
			binary.LittleEndian.PutUint32(mem, uint32(n))
		}
	}
	tf, err := os.Create(path + ".trace")
	if err != nil {
		die("%v", err)
	}
	rt.TraceSink = func(l string) { tf.WriteString(l + "\n") }
}
