package scen

import (
	"fmt"
	"reflect"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C07"] = c07
	Scenarios["C11"] = c11
}

type opKind int

const (
	opEncode opKind = iota
	opDecode
	opRoot
	opDry
	opSize
	opSRoot
	opFuzz
	opPretty
	opMake  // construct the type again and encode with that
	opFirst // construct a type nobody has constructed before, encode and decode with that
	opMerkle
	opProof
	opKinds
)

var opNames = []string{"encode", "decode", "root", "dry check", "size", "signing root", "fuzz decode", "pretty", "construct", "first construction", "merkleize", "proof"}

// op is one operation, completely determined so that it can be run again elsewhere.
type op struct {
	kind opKind
	ti   int // index of the type
	vi   int // index of the shared value
	in   []byte
	n    uint64
	rc   RdCfg
	wc   WrCfg
	hm   int // how the hash function is provided
	cnt  uint64
	lim  uint64
	idx  uint64
	hp   int // hash call to panic at
	hs   int // hash call to stall at
	used *ref.V
	new  *ref.T // type to be constructed for the first time
	twin *ref.T // the same with other field names, for the solo execution
	hook func() // what its callbacks do
}

func (o op) String() string { return fmt.Sprintf("%s of type %d", opNames[o.kind], o.ti) }

// world is what the operations share: definitions, values, hash function.
type world struct {
	tds  []*TD
	vals []reflect.Value
	vts  []int // type of each value
	h    *ref.Hash
	news [][2]*ref.T // types not constructed yet, one for the tasks and one for the solo executions
	solo bool
	dsts map[int]reflect.Value // destinations to be used again and again
}

// genWorld draws shared types and values.
func (e *Env) genWorld(budget int) (w *world, vs []*ref.V) {
	w = &world{h: e.UseHash()}
	for i, n := 0, e.S.Draw(2)+1; i < n; i++ {
		w.tds = append(w.tds, e.Type())
	}
	for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
		ti := e.S.Draw(len(w.tds))
		v := w.tds[ti].R.Gen(e.S, budget)
		vs = append(vs, v)
		w.vts = append(w.vts, ti)
		w.vals = append(w.vals, w.tds[ti].New(v))
	}
	for range w.tds {
		w.news = append(w.news, [2]*ref.T{})
	}
	return
}

// unseen is a pair of types around type ti that the library has not met in this process.
func (e *Env) unseen(w *world, ti int) [2]*ref.T {
	if w.news[ti][0] == nil {
		id := e.S.Draw(1 << 30)
		var pair [2]*ref.T
		for k, p := range []string{"A", "B"} {
			in := reflect.StructOf([]reflect.StructField{
				{Name: fmt.Sprintf("%s%x", p, id), Type: reflect.TypeOf(uint16(0))},
				{Name: "V", Type: w.tds[ti].R.Go},
			})
			pair[k] = ref.Of(reflect.StructOf([]reflect.StructField{
				{Name: "In", Type: in},
				{Name: fmt.Sprintf("%s%x", p, id), Type: reflect.ArrayOf(2, in)},
			}))
		}
		w.news[ti] = pair
	}
	return w.news[ti]
}

// first uses a type for the first time: its encoding, its root, and what is decoded from it.
func (e *Env) first(w *world, o op) (out Out) {
	td := &TD{R: o.new}
	if w.solo {
		td.R = o.twin
	}
	td.Def = e.Def(td.R.Go)
	v := td.Zero()
	shared := w.vals[o.vi].Elem()
	v.Elem().Field(0).Field(1).Set(shared)
	v.Elem().Field(1).Index(0).Field(1).Set(shared)
	v.Elem().Field(1).Index(1).Field(1).Set(shared)
	s := e.NewWr(o.wc)
	out = e.Encode(s.W(), v, td)
	if !out.Ok {
		return
	}
	enc := s.Got()
	root := e.Root(htr.HashFn(w.h.F), v, td)
	dst := td.Zero()
	r, _ := e.NewRd(enc, o.rc).R()
	back := e.Decode(r, uint64(len(enc)), dst, td)
	if !root.Ok || !back.Ok {
		e.Fail("interference", "%s: first use of the type: root %s, decoding of its own encoding %s", td.R, root, back)
	}
	if a, b := td.Get(v), td.Get(dst); !ref.Equal(a, b) {
		e.Fail("interference", "%s: first use of the type: encoded %s, decoded %s", td.R, a, b)
	}
	out.B = append(append([]byte(nil), enc...), root.Root[:]...)
	return
}

// alone is a copy of the world with definitions and values of its own.
func (e *Env) alone(w *world, vs []*ref.V) *world {
	o := &world{h: w.h, vts: w.vts, solo: true}
	for _, td := range w.tds {
		o.tds = append(o.tds, e.Fresh(td))
	}
	for i, v := range vs {
		o.vals = append(o.vals, o.tds[w.vts[i]].New(v))
	}
	return o
}

func (e *Env) genOp(w *world, vs []*ref.V, budget int) op {
	o := op{hp: -1, hs: -1}
	o.kind = opKind(e.S.Pick(5, 5, 5, 3, 2, 2, 2, 1, 1, 1, 1, 1))
	o.vi = e.S.Draw(len(vs))
	o.ti = w.vts[o.vi]
	td := w.tds[o.ti]
	o.rc, o.wc = Plain(), HealthyW()
	switch o.kind {
	case opDecode, opDry:
		switch e.S.Pick(4, 2) {
		case 0:
			o.in = td.R.Enc(td.R.Gen(e.S, budget))
			o.n = uint64(len(o.in))
		case 1:
			o.in, o.n = e.damaged(td, budget)
		}
		o.rc = e.RdCfg()
		if e.S.Draw(4) == 3 {
			o.used = td.R.Gen(e.S, budget)
		}
	case opFuzz:
		o.in = e.fuzzInput(td, budget)
		o.n = uint64(len(o.in))
		o.rc = e.RdCfg()
	case opEncode, opPretty, opMake:
		o.wc = e.WrCfg()
		if o.kind == opEncode && e.S.Draw(6) == 5 {
			o.wc.Fail, o.wc.Err, o.wc.Style = e.S.Draw(60), errDisk, e.S.Draw(4)
		}
	case opFirst:
		p := e.unseen(w, o.ti)
		o.new, o.twin = p[0], p[1]
	case opRoot, opSRoot:
		o.hm = e.S.Draw(4)
	case opMerkle, opProof:
		o.hm = e.S.Draw(4)
		o.cnt = uint64(e.S.Draw([]int{20, 20, 20, 70, 300, 1100}[e.S.Draw(6)]))
		o.lim = o.cnt + uint64(e.S.Draw(20)) + 1
		o.idx = uint64(e.S.Draw(int(o.lim)))
	}
	return o
}

func (w *world) hasher(e *Env, o op) htr.MerkleFn {
	if o.hm == 0 && o.hp < 0 && o.hs < 0 && o.hook == nil {
		return htr.HashFn(w.h.F)
	}
	h := e.NewHs(w.h)
	h.Yield = o.hm >= 2
	h.Panic, h.Stall, h.Hook = o.hp, o.hs, o.hook
	if o.hm == 0 || o.hm == 3 {
		return h.Fn()
	}
	return h
}

func (w *world) dst(td *TD, o op) reflect.Value {
	if w.dsts != nil {
		return w.dsts[o.ti]
	}
	return td.Zero()
}

func leafOf(i uint64) []byte {
	b := make([]byte, 32)
	for j := range b {
		b[j] = byte(rt.Mix(i, uint64(j)))
	}
	return b
}

// exec runs the operation in the given world.
func (e *Env) exec(w *world, o op) (out Out) {
	td := w.tds[o.ti]
	val := w.vals[o.vi]
	leaf := leafOf
	if o.hook != nil {
		o.rc.Hook, o.wc.Hook = o.hook, o.hook
		leaf = func(i uint64) []byte {
			o.hook()
			return leafOf(i)
		}
	}
	switch o.kind {
	case opEncode:
		s := e.NewWr(o.wc)
		out = e.Encode(s.W(), val, td)
		out.B = s.Got()
	case opDecode:
		dst := w.dst(td, o)
		if o.used != nil && w.dsts == nil {
			dst = td.New(o.used)
		}
		r, _ := e.NewRd(o.in, o.rc).R()
		out = e.Decode(r, o.n, dst, td)
		if out.Ok {
			out.V = td.Get(dst)
		}
	case opDry:
		r, _ := e.NewRd(o.in, o.rc).R()
		out = e.Dry(r, o.n, td)
	case opFuzz:
		dst := w.dst(td, o)
		r, _ := e.NewRd(o.in, o.rc).R()
		out = e.Fuzz(r, o.n, dst, td)
		if out.Ok {
			out.V = td.Get(dst)
		}
	case opRoot:
		out = e.Root(w.hasher(e, o), val, td)
	case opSRoot:
		if !td.Signed() {
			return Out{Ok: true}
		}
		out = e.SRoot(w.hasher(e, o), val, td)
	case opSize:
		out = e.Size(val, td)
	case opPretty:
		s := e.NewWr(o.wc)
		out = e.PrettyP(s.W(), val, td)
		out.B = s.Got()
	case opMake:
		t2 := e.Fresh(td)
		s := e.NewWr(o.wc)
		out = e.Encode(s.W(), val, t2)
		out.B = s.Got()
	case opFirst:
		out = e.first(w, o)
	case opMerkle:
		out.Pan = e.try(func() { out.Root = merkle.Merkleize(w.hasher(e, o), o.cnt, o.lim, leaf) })
		out.Ok = out.Pan == nil
	case opProof:
		var br [][32]byte
		out.Pan = e.try(func() { br = merkle.ConstructProof(w.hasher(e, o), o.cnt, o.lim, leaf, o.idx) })
		out.Ok = out.Pan == nil
		for _, x := range br {
			out.B = append(out.B, x[:]...)
		}
	}
	e.NoteBytes(out.B)
	return
}

// ---------------------------------------------------------------- C07

func (e *Env) checkShared(w *world, vs []*ref.V, when string) {
	for i, v := range vs {
		if g := w.tds[w.vts[i]].Get(w.vals[i]); !ref.Equal(g, v) {
			e.Fail("value modified", "%s: shared value %s was %s, now %s (%s)", w.tds[w.vts[i]].R, when, v, g, "read-only operations only")
		}
	}
}

// concBudget is the size class of the values in executions with many switches.
func (e *Env) concBudget() int {
	b := e.Budget()
	if b > 3000 {
		if e.S.Draw(4) != 3 || e.Sim.StmtGap > 0 && e.Sim.StmtGap < 100 {
			b = 3000
		} else {
			e.Probe("large values shared")
		}
	}
	if e.Sim.StmtGap > 0 && e.Sim.StmtGap < 100 && b > 400 {
		if e.S.Draw(8) != 7 {
			b = 400
		}
	}
	return b
}

func c07(e *Env) {
	e.Schedule()
	budget := e.concBudget()
	w, vs := e.genWorld(budget)
	nt := e.S.Draw(3) + 2
	progs := make([][]op, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
			progs[t] = append(progs[t], e.genOp(w, vs, budget))
		}
	}
	e.Desc("%d tasks on %s, %d values, gap %d", nt, w.tds[0].R, len(vs), e.Sim.StmtGap)
	soloFirst := e.S.Draw(2) == 1
	solo := make([][]Out, nt)
	runSolo := func() {
		for t := range progs {
			for _, o := range progs[t] {
				solo[t] = append(solo[t], e.exec(e.alone(w, vs), o))
			}
		}
	}
	if soloFirst {
		runSolo()
	}
	res := make([][]Out, nt)
	var tasks []func()
	left := nt
	for t := range progs {
		t := t
		tasks = append(tasks, func() {
			for _, o := range progs[t] {
				e.Sim.Logf("begin %s", o)
				x := e.exec(w, o)
				e.Sim.Logf("end %s: %s", o, x)
				res[t] = append(res[t], x)
				rt.Between()
			}
			left--
		})
	}
	if e.S.Draw(3) == 2 { // a reader of the shared values, at arbitrary moments
		tasks = append(tasks, func() {
			for i := 0; i < 20 && left > 0; i++ {
				e.checkShared(w, vs, "while operations run")
				rt.Between()
			}
		})
	}
	e.Par(tasks...)
	e.checkShared(w, vs, "at the end")
	if !soloFirst {
		runSolo()
	}
	for t := range progs {
		for i, o := range progs[t] {
			if !Same(res[t][i], solo[t][i]) {
				e.Fail("interference", "%s (%s): concurrently %s, alone %s", o, w.tds[o.ti].R, res[t][i], solo[t][i])
			}
		}
	}
}

// ---------------------------------------------------------------- C11

// abort makes an operation be abandoned at one of its callbacks.
func (e *Env) abort(o op) (op, bool) {
	at := e.S.Draw(3)
	switch e.S.Draw(3) {
	case 1:
		at = e.S.Draw(12)
	case 2:
		at = e.S.Draw(60)
	}
	stall := e.S.Draw(3) == 2
	set := func(p, s *int) {
		if stall {
			*s = at
		} else {
			*p = at
		}
	}
	switch o.kind {
	case opEncode, opPretty, opMake:
		set(&o.wc.Panic, &o.wc.Stall)
	case opDecode, opDry, opFuzz:
		set(&o.rc.Panic, &o.rc.Stall)
		if o.rc.Wrap == 3 { // a panicking callback leaves the caller's own bufio.Reader unusable, not the library
			o.rc.Wrap = 0
		}
	case opRoot, opSRoot, opMerkle, opProof:
		set(&o.hp, &o.hs)
	default:
		return o, false
	}
	return o, true
}

func c11(e *Env) {
	e.Schedule()
	budget := e.concBudget()
	w, vs := e.genWorld(budget)
	nt := e.S.Draw(3) + 1
	type step struct {
		o     op
		abort bool
		retry bool
	}
	progs := make([][]step, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
			o := e.genOp(w, vs, budget)
			if e.S.Draw(2) == 1 {
				if a, ok := e.abort(o); ok {
					progs[t] = append(progs[t], step{a, true, false})
					if e.S.Draw(2) == 1 {
						progs[t] = append(progs[t], step{o, false, true})
					}
					continue
				}
			}
			progs[t] = append(progs[t], step{o, false, false})
		}
	}
	e.Desc("%d tasks on %s, %d values, gap %d", nt, w.tds[0].R, len(vs), e.Sim.StmtGap)
	solo := make([][]Out, nt)
	runSolo := func() {
		for t := range progs {
			for _, s := range progs[t] {
				if s.abort {
					solo[t] = append(solo[t], Out{})
					continue
				}
				solo[t] = append(solo[t], e.exec(e.alone(w, vs), s.o))
			}
		}
	}
	soloFirst := e.S.Draw(4) != 0
	if soloFirst {
		runSolo()
	}
	res := make([][]Out, nt)
	var tasks []func()
	var follow []func() // work of tasks that were abandoned goes on in new ones
	for t := range progs {
		t := t
		i := 0
		var run func()
		run = func() {
			for i < len(progs[t]) {
				s := progs[t][i]
				i++
				e.Sim.Logf("begin %s abort=%v", s.o, s.abort)
				if s.abort {
					res[t] = append(res[t], Out{})
				}
				x := e.exec(w, s.o)
				e.Sim.Logf("end %s: %s", s.o, x)
				if s.abort {
					if x.Pan != nil && !x.Pan.Inj && !soloPanics(e, w, vs, s.o) {
						e.Fail("panic", "%s (%s) aborted by its callback panics with %s", s.o, w.tds[s.o.ti].R, x.Pan)
					}
				} else {
					res[t] = append(res[t], x)
				}
				rt.Between()
			}
		}
		tasks = append(tasks, run)
		follow = append(follow, func() {
			if i < len(progs[t]) {
				e.Probe("continued after a stalled operation")
				run()
			}
		})
	}
	e.Par(tasks...)
	// what was left behind by stalled tasks is done by others
	for round := 0; round < 12; round++ {
		e.Par(follow...)
		done := true
		for t := range progs {
			if len(res[t]) < len(progs[t]) {
				done = false
			}
		}
		if done {
			break
		}
	}
	e.checkShared(w, vs, "after aborted operations")
	if !soloFirst {
		runSolo()
	}
	for t := range progs {
		for i, s := range progs[t] {
			if s.abort || i >= len(res[t]) {
				continue
			}
			if !Same(res[t][i], solo[t][i]) {
				cl := "interference"
				if s.retry {
					cl = "retry"
				}
				e.Fail(cl, "%s (%s): after aborted operations %s, normally %s", s.o, w.tds[s.o.ti].R, res[t][i], solo[t][i])
			}
		}
	}
}

func soloPanics(e *Env, w *world, vs []*ref.V, o op) bool {
	o.rc.Panic, o.rc.Stall, o.wc.Panic, o.wc.Stall, o.hp, o.hs = -1, -1, -1, -1, -1, -1
	return e.exec(e.alone(w, vs), o).Pan != nil
}
