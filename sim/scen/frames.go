package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"syscall"

	"github.com/protolambda/zssz/merkle"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C16"] = c16
	Scenarios["C17"] = c17
	Scenarios["C18"] = c18
	Scenarios["C19"] = c19
}

// ---------------------------------------------------------------- C16

// piece is one frame on a stream: its bytes may be damaged, its length is what the header says.
type piece struct {
	td   *TD
	mode int // 0 decode, 1 dry check, 2 fuzz mode
	b    []byte
	want *ref.V // nil: the bytes are not canonical
}

func (e *Env) genPart(td *TD, budget int) (p piece) {
	p.td = td
	p.mode = e.S.Pick(5, 2, 2)
	if p.mode == 2 {
		p.b = e.fuzzInput(td, budget)
		return
	}
	v := e.Gen(td, budget)
	p.b = td.R.Enc(v)
	switch e.S.Pick(4, 5, 2) {
	case 0:
	case 1:
		for k := e.S.Pick(0, 5, 2, 1); k > 0; k-- {
			p.b = e.corrupt(td, v, p.b)
		}
	case 2:
		p.b, _ = e.hostile(td, budget)
	}
	if w, err := td.R.Dec(p.b); err == nil {
		p.want = w
	}
	return
}

// receive performs the operation on one frame and skips what it leaves of it.
func (e *Env) receive(i int, p piece, r io.Reader, pos func() int, dst reflect.Value, how string) {
	what := []string{"decode", "dry check", "fuzz-mode decode"}[p.mode]
	at := pos()
	var o Out
	n := uint64(len(p.b))
	switch p.mode {
	case 0:
		o = e.Decode(r, n, dst, p.td)
	case 1:
		o = e.Dry(r, n, p.td)
	case 2:
		o = e.Fuzz(r, n, dst, p.td)
	}
	used := pos() - at
	if o.Pan != nil {
		e.Fail("panic", "%s of frame %d of %s (%s) panics: %s (%s)", what, i, p.td.R, hexs(p.b), o.Pan, how)
	}
	if used < 0 || used > len(p.b) {
		e.Fail("overrun", "%s of frame %d of %s took %d bytes from the stream, the frame has %d: %s (%s; outcome %s)", what, i, p.td.R, used, len(p.b), hexs(p.b), how, o)
	}
	if p.mode != 2 {
		switch {
		case o.Ok && p.want == nil:
			e.Fail("verdict", "%s of frame %d of %s: the damaged bytes %s are accepted (%s)", what, i, p.td.R, hexs(p.b), how)
		case !o.Ok && p.want != nil:
			e.Fail("neighbour lost", "%s of the intact frame %d of %s fails: %v (%s)", what, i, p.td.R, o.Err, how)
		case o.Ok && used != len(p.b):
			e.Fail("consumed", "%s of frame %d of %s took %d of its %d bytes (%s)", what, i, p.td.R, used, len(p.b), how)
		}
		if o.Ok && p.mode == 0 {
			if g := p.td.Get(dst); !ref.Equal(g, p.want) {
				e.Fail("neighbour lost", "frame %d of %s carries %s, received %s (%s)", i, p.td.R, p.want, g, how)
			}
			e.Probe("intact frame received")
		}
	}
	if !o.Ok {
		e.Probe("frame rejected")
		if used < len(p.b) {
			e.Probe("rest of a rejected frame skipped")
		}
	}
	rest := make([]byte, len(p.b)-used)
	if len(rest) > 0 {
		if _, err := io.ReadFull(r, rest); err != nil {
			e.Fail("overrun", "frame %d of %s: the rest of the frame (%d bytes) cannot be skipped: %v (%s)", i, p.td.R, len(rest), err, how)
		}
	}
	for k, x := range rest {
		if x != p.b[used+k] {
			e.Fail("overrun", "frame %d of %s: after %d bytes the stream does not continue within the frame (%s)", i, p.td.R, used, how)
		}
	}
}

func c16(e *Env) {
	e.isJumbo()
	budget := e.Budget()
	if budget > 40000 {
		budget = 40000
	}
	tds := []*TD{e.Type()}
	if e.S.Draw(2) == 1 {
		tds = append(tds, e.Type())
	}
	gen := func() (ps []piece) {
		for i, n := 0, e.S.Draw(5)+2; i < n; i++ {
			p := e.genPart(tds[e.S.Draw(len(tds))], budget)
			ps = append(ps, p)
		}
		return
	}
	dsts := func(keep bool) func(p piece) reflect.Value {
		m := make([]reflect.Value, len(tds))
		return func(p piece) reflect.Value {
			for i, td := range tds {
				if td == p.td {
					if !m[i].IsValid() || !keep {
						m[i] = td.Zero()
					}
					return m[i]
				}
			}
			return p.td.Zero()
		}
	}
	if e.big || e.S.Draw(4) != 3 {
		ps := gen()
		var data []byte
		for _, p := range ps {
			data = append(data, p.b...)
		}
		c := e.RdCfg()
		rd := e.NewRd(data, c)
		r, pos := rd.R()
		e.Desc("%d frames of %s on one stream (%s)", len(ps), tds[0].R, c)
		dst := dsts(e.S.Draw(2) == 1)
		for i, p := range ps {
			e.receive(i, p, r, pos, dst(p), c.String())
		}
		if pos() != len(data) {
			e.Fail("overrun", "the receiver is at byte %d of the stream, the frames end at %d", pos(), len(data))
		}
		return
	}
	e.Schedule()
	if budget > 3000 {
		budget = 3000
	}
	var tasks []func()
	for k, n := 0, e.S.Draw(2)+1; k < n; k++ {
		conn := e.NewConn()
		ps := gen()
		dst := dsts(e.S.Draw(2) == 1)
		e.Desc("connection %d: %d frames of %s; window %d segments<=%d latency %d", k, len(ps), tds[0].R, conn.window, conn.maxSeg, conn.latency)
		tasks = append(tasks, func() {
			for _, p := range ps {
				conn.Write(p.b)
			}
			conn.Close()
		}, func() {
			for i, p := range ps {
				e.receive(i, p, conn, func() int { return conn.Taken }, dst(p), "connection")
			}
		})
	}
	e.Par(tasks...)
}

// ---------------------------------------------------------------- C17

// retained is what the heap holds after everything unreachable is gone.
func retained() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func c17(e *Env) {
	if e.S.Draw(6) == 5 {
		e.c17dropped()
		return
	}
	budget := 60
	if e.S.Draw(2) == 1 {
		budget = 300
	}
	w, vs := e.genWorld(budget)
	for i := 0; i < 5; i++ { // not with values that take seconds to go through hundreds of rounds
		heavy := false
		for _, td := range w.tds {
			heavy = heavy || td.R.Min > 4096
		}
		if !heavy {
			break
		}
		w, vs = e.genWorld(budget)
	}
	var ops []op
	for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
		o := e.genOp(w, vs, budget)
		if o.kind == opFirst { // new types every time are kept by reflection itself
			o.kind = opMake
		}
		if e.S.Draw(3) == 2 {
			if a, ok := e.abort(o); ok && a.rc.Stall < 0 && a.wc.Stall < 0 && a.hs < 0 {
				o = a
			}
		}
		ops = append(ops, o)
	}
	fresh := e.S.Draw(3) == 2 // type definitions made anew all the time
	const k = 16
	// either one destination for all decodes of a type, or new values all the time
	keep, vary := false, false
	switch e.S.Draw(3) {
	case 1:
		keep = true
	case 2:
		vary = true
	}
	seed := uint64(e.S.Draw(1 << 30))
	e.Desc("%d operations over and over (fresh definitions %v, kept destinations %v, new values %v): first %s of %s", len(ops), fresh, keep, vary, ops[0], w.tds[ops[0].ti].R)
	total := 0
	var dsts map[int]reflect.Value
	if keep {
		dsts = map[int]reflect.Value{}
		for i, td := range w.tds {
			dsts[i] = td.Zero()
		}
	}
	run := func(n int) {
		for i := 0; i < n; i++ {
			x := &world{h: w.h, vts: w.vts, tds: w.tds, solo: true, dsts: dsts}
			if fresh {
				x.tds = nil
				for _, td := range w.tds {
					x.tds = append(x.tds, e.Fresh(td))
				}
			}
			for j, v := range vs {
				if vary {
					v = w.tds[w.vts[j]].R.Gen(rt.NewSrc(rt.Mix(seed, uint64(total*8+j))), budget)
				}
				x.vals = append(x.vals, x.tds[w.vts[j]].New(v))
			}
			for _, o := range ops {
				if vary {
					td := w.tds[o.ti]
					sub := rt.NewSrc(rt.Mix(seed, ^uint64(total)))
					switch o.kind {
					case opDecode, opDry:
						o.in = td.R.Enc(td.R.Gen(sub, budget))
						o.n = uint64(len(o.in))
						if len(o.in) > 0 && sub.Draw(3) == 2 {
							o.in[sub.Draw(len(o.in))] ^= byte(sub.Draw(255)) + 1
						}
					case opFuzz:
						o.in = append([]byte(nil), o.in...)
						for j := range o.in {
							if j%8 > 1 {
								o.in[j] = byte(sub.Draw(256))
							}
						}
					}
				}
				e.exec(x, o)
				total++
			}
		}
	}
	run(k)
	h0 := retained()
	run(3 * k)
	h1 := retained()
	run(12 * k)
	h2 := retained()
	e.Probe("history measured")
	g1, g2 := int64(h1-h0), int64(h2-h1)
	// what is kept per operation would take a word or more in each round
	if g1 > 3*k*2 && g2 > 4*k*8 {
		e.Probe("measured again")
		run(48 * k)
		if g3 := int64(retained() - h2); g3 > 8*k*8 {
			e.Fail("accumulates", "%d operations (%s of %s, ...) over and over: retained memory grows by %d bytes in the first %d rounds, by %d in the next %d and by %d in the next %d, although nothing is kept", len(ops), ops[0], w.tds[ops[0].ti].R, g1, 3*k, g2, 12*k, g3, 48*k)
		}
	}
}

// ---------------------------------------------------------------- C18

// effort bounds the statements an operation may take: a + k per byte of the value.
type effort struct{ a, k float64 }

var efforts = map[reflect.Type]effort{}

func effortOf(t *ref.T) effort {
	if x, ok := efforts[t.Go]; ok {
		return x
	}
	x := effort{a: 60, k: 6}
	if t.IsBool || t.Elem != nil && t.Elem.IsBool {
		x.k = 16
	}
	switch t.K {
	case ref.BasicList, ref.Bitlist, ref.Bitvec, ref.BasicVec:
		x.a += 60
	case ref.Vec:
		e := effortOf(t.Elem)
		x = effort{60 + float64(t.N)*(e.a+20), e.k + 2}
	case ref.List:
		e := effortOf(t.Elem)
		w := t.Elem.FixedSize
		if !t.Elem.Fixed {
			w = t.Elem.Min + 4
		}
		if w == 0 {
			w = 1
		}
		x.a += 60
		x.k = e.k + 2 + (e.a+20)/float64(w)
	case ref.Cont:
		for _, f := range t.F {
			e := effortOf(f.T)
			x.a += e.a + 20
			if e.k+2 > x.k {
				x.k = e.k + 2
			}
		}
	}
	switch t.K {
	case ref.BasicList, ref.Bitlist, ref.List: // up to the limit, level by level
		x.a += 8 * float64(bits.Len64(t.Limit))
	}
	x.a += 30 * float64(t.Ptrs)
	efforts[t.Go] = x
	return x
}

// hashesOf bounds the hash calls for the root of a value: a + k per byte of it.
func hashesOf(t *ref.T) (x effort) {
	switch t.K {
	case ref.BasicVec, ref.Bitvec:
		x.a = float64(t.FixedSize)/16 + 2
	case ref.BasicList, ref.Bitlist:
		x = effort{float64(bits.Len64(t.Limit)) + 4, 1. / 16}
	case ref.Vec:
		e := hashesOf(t.Elem)
		x = effort{float64(t.N)*(e.a+2) + 2, e.k}
	case ref.List:
		e := hashesOf(t.Elem)
		w := t.Elem.FixedSize
		if !t.Elem.Fixed {
			w = t.Elem.Min + 4
		}
		x = effort{float64(bits.Len64(t.Limit)) + 4, e.k + (e.a+2)/math.Max(1, float64(w))}
	case ref.Cont:
		x.a = 2
		for _, f := range t.F {
			e := hashesOf(f.T)
			x.a += e.a + 2
			x.k = math.Max(x.k, e.k)
		}
	}
	return
}

func c18(e *Env) {
	td := e.Type()
	budget := []int{400, 3000, 10000, 40000, 140000}[e.S.Pick(2, 3, 3, 2, 1)]
	h := e.UseHash()
	x, y := effortOf(td.R), costOf(td.R)
	for round, rounds := 0, e.S.Draw(2)+1; round < rounds; round++ {
		mode := e.S.Pick(4, 4, 2, 2, 1, 2)
		var o Out
		var size int
		what := []string{"decoding", "dry-checking", "fuzz-decoding", "encoding", "sizing", "hashing"}[mode]
		c := e.RdCfg()
		c.Wrap, c.Yield, c.Delay = 0, false, false
		hs := e.NewHs(h)
		var before int64
		var mem uint64
		switch mode {
		case 0, 1, 2:
			var b []byte
			var n uint64
			switch {
			case mode == 2:
				b = e.fuzzInput(td, budget)
				n = uint64(len(b))
				if e.S.Draw(3) == 2 {
					n = satAdd(n, []uint64{100, 1 << 16, 1 << 20}[e.S.Draw(3)])
					e.Fault("more announced than present")
				}
			case e.S.Draw(3) == 0:
				b = td.R.Enc(td.R.Gen(e.S, budget))
				n = uint64(len(b))
			case e.S.Draw(2) == 0:
				b, n = e.damaged(td, budget)
			default:
				b, n = e.hostile(td, budget)
			}
			size = len(b)
			// room for what is announced may be prepared, up to what the type permits
			if m := min(n, td.R.Max); m > uint64(size) && m < 1<<40 {
				size = int(m)
				e.Probe("work may grow with what is announced")
			}
			e.Desc("%s %s: %d bytes, announced %d (%s)", what, td.R, len(b), n, c)
			rd := e.NewRd(b, c)
			dst := td.Zero()
			mem, before = totalAlloc(), e.Sim.Steps()
			switch mode {
			case 0:
				o = e.Decode(rd, n, dst, td)
			case 1:
				o = e.Dry(rd, n, td)
			case 2:
				o = e.Fuzz(rd, n, dst, td)
			}
		default:
			v := td.R.Gen(e.S, budget)
			size = len(td.R.Enc(v))
			p := td.New(v)
			e.Desc("%s %s: %d bytes", what, td.R, size)
			mem, before = totalAlloc(), e.Sim.Steps()
			switch mode {
			case 3:
				o = e.Encode(e.NewWr(HealthyW()), p, td)
			case 4:
				o = e.Size(p, td)
			case 5:
				o = e.Root(hs, p, td)
			}
		}
		steps := e.Sim.Steps() - before
		mem = totalAlloc() - mem
		if o.Pan != nil {
			if _, ok := o.Pan.Val.(rt.OutOfFuel); ok {
				steps = opFuel
			} else {
				return // judged elsewhere
			}
		}
		bound := 6 * (x.a + x.k*float64(size))
		if float64(steps) > bound/24 {
			e.Probe("above 1/24 of the bound")
		}
		if float64(steps) > bound/4 {
			e.Probe("above a quarter of the bound")
		}
		if size > 3000 {
			e.Probe("more than 3000 bytes")
		}
		if float64(steps) > bound {
			e.Fail("work", "%s %s takes %d statements for %d bytes present or announced, the bound is %.0f (outcome: %s)", what, td.R, steps, size, bound, o)
		}
		// copies made in single statements show as memory; C12 judges the reading operations
		if most := 40 * (y.a + y.k*float64(size)); mode >= 3 && float64(mem) > most {
			e.Fail("work", "%s %s of %d bytes allocates %d bytes, the bound is %.0f", what, td.R, size, mem, most)
		}
		// hashing: each leaf, each part of a signed or mixed-in value, and the zero subtrees of each part
		if mode == 5 {
			b := hashesOf(td.R)
			if most := 4 * (b.a + b.k*float64(size) + 4); float64(hs.calls) > most {
				e.Fail("work", "hashing %s of %d bytes calls the hash function %d times, the bound is %.0f", td.R, size, hs.calls, most)
			} else if float64(hs.calls) > most/8 {
				e.Probe("hash calls above an eighth of the bound")
			} else if float64(hs.calls) > most/2 {
				e.Probe("hash calls above half of the bound")
			}
		}
	}
	if e.S.Draw(4) == 3 {
		cnt := uint64(e.S.Draw(3000))
		lim := cnt + uint64(e.S.Draw(3000)) + 1
		if e.S.Draw(2) == 1 {
			lim = []uint64{1 << 20, 1 << 32, 1<<40 + 1, 1 << 62}[e.S.Draw(4)]
		}
		hs := e.NewHs(h)
		reads := 0
		leaf := func(i uint64) []byte { reads++; return leafOf(i) }
		e.Desc("merkleizing %d leaves, limit %d", cnt, lim)
		before := e.Sim.Steps()
		pan := e.try(func() { merkle.Merkleize(hs, cnt, lim, leaf) })
		if pan != nil {
			if _, ok := pan.Val.(rt.OutOfFuel); !ok {
				return
			}
		}
		if steps := e.Sim.Steps() - before; pan != nil || steps > 400*int64(cnt)+20000 || hs.calls > 4*int(cnt)+300 || reads > 4*int(cnt)+100 {
			e.Fail("work", "merkleizing %d leaves, limit %d takes %d statements, %d hash calls, %d leaf reads (%v)", cnt, lim, steps, hs.calls, reads, pan)
		}
	}
}

// ---------------------------------------------------------------- C19

func c19(e *Env) {
	e.isJumbo()
	td := e.Type()
	budget := e.Budget()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		fault := fmt.Errorf("simulated failure %d", e.S.Draw(1000))
		switch e.S.Draw(4) {
		case 2:
			fault = &codeErr{e.S.Draw(1000)}
		case 3: // errors that others know as well, or that are made from io.EOF
			fault = knownErrs[e.S.Draw(len(knownErrs))]
		}
		mode := e.S.Pick(4, 3, 2, 4)
		what := []string{"decode", "dry check", "fuzz-mode decode", "encode"}[mode]
		v := e.Gen(td, budget)
		if mode == 3 {
			enc := td.R.Enc(v)
			if len(enc) == 0 {
				continue
			}
			c := e.WrCfg()
			c.Fail, c.Err, c.Style = e.cutPoint(td, v, enc), fault, e.S.Draw(4)
			if c.Fail >= len(enc) {
				c.Fail = len(enc) - 1
			}
			w := e.NewWr(c)
			e.Desc("encode %s: %d bytes, sink fails at %d (way %d)", td.R, len(enc), c.Fail, c.Style)
			o := e.Encode(w.W(), td.New(v), td)
			if o.Pan != nil || o.Ok || !w.Failed {
				continue // C02 judges that
			}
			e.Probe("sink failure reported")
			if !errors.Is(o.Err, fault) {
				e.Fail("masked", "encode of %s: the sink failed with %q after %d bytes, the error returned is %q", td.R, fault, len(w.Got()), o.Err)
			}
			continue
		}
		var b []byte
		need := 0
		if mode == 2 {
			b = e.fuzzInput(td, budget)
			o := e.Fuzz(e.NewRd(b, Plain()), uint64(len(b)), td.Zero(), td)
			if !o.Ok || o.N > uint64(len(b)) {
				continue
			}
			need = int(o.N)
		} else {
			b = td.R.Enc(v)
			need = len(b)
		}
		if need == 0 {
			continue
		}
		c := e.RdCfg()
		c.Cut, c.CutErr = e.S.Draw(need), fault
		if e.S.Draw(2) == 1 {
			if c.Cut = e.cutPoint(td, v, b); c.Cut >= need {
				c.Cut = need - 1
			}
		}
		r, _ := e.NewRd(b, c).R()
		e.Desc("%s %s: %d bytes, %s", what, td.R, need, c)
		var o Out
		switch mode {
		case 0:
			o = e.Decode(r, uint64(len(b)), td.Zero(), td)
		case 1:
			o = e.Dry(r, uint64(len(b)), td)
		case 2:
			o = e.Fuzz(r, uint64(len(b)), td.Zero(), td)
		}
		if o.Pan != nil || o.Ok {
			continue // C03 judges that
		}
		e.Probe("stream failure reported")
		if !errors.Is(o.Err, fault) {
			e.Fail("masked", "%s of %s: the stream failed with %q after %d of %d bytes, the error returned is %q (%s)", what, td.R, fault, c.Cut, need, o.Err, c)
		}
	}
}

var knownErrs = []error{
	fmt.Errorf("connection lost: %w", io.EOF), fmt.Errorf("connection reset: %w", io.ErrUnexpectedEOF),
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrUnexpectedEOF, io.ErrShortWrite,
	os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, context.DeadlineExceeded, syscall.ENOSPC, syscall.EAGAIN, bytes.ErrTooLarge,
	&os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
}

type codeErr struct{ code int }

func (c *codeErr) Error() string   { return fmt.Sprintf("simulated failure with code %d", c.code) }
func (c *codeErr) Timeout() bool   { return true }
func (c *codeErr) Temporary() bool { return true }
