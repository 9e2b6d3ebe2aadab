//go:build custom

package scen

import (
	"bytes"
	"errors"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/pretty"
	"github.com/protolambda/zssz/types"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C14"] = c14
}

func init() {
	keyedSSZ = func(key byte, h *ref.Hash) types.SSZ { return &keyed{key: key, h: h} }
}

// keyed is a well-behaved custom component that stores its bytes XOR key.
type keyed struct {
	component
	key byte
	h   *ref.Hash
}

var custRef = ref.Of(catalog.CustType)

func (c *keyed) flip(b []byte) []byte {
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = x ^ c.key
	}
	return o
}
func (c *keyed) Encode(eb *enc.EncodingWriter, p unsafe.Pointer) error {
	return eb.Write(c.flip(*(*[]byte)(p)))
}
func (c *keyed) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	b := make([]byte, dr.GetBytesSpan())
	if _, err := dr.Read(b); err != nil {
		return err
	}
	*(*[]byte)(p) = c.flip(b)
	return nil
}
func (c *keyed) DryCheck(dr *dec.DecodingReader) error {
	_, err := dr.Skip(dr.GetBytesSpan())
	return err
}
func (c *keyed) HashTreeRoot(h htr.MerkleFn, p unsafe.Pointer) [32]byte {
	return c.h.Root(custRef, &ref.V{B: c.flip(*(*[]byte)(p))})
}

const (
	actGood    = iota
	actShort   // leaves bytes of its part unread
	actLong    // asks for more than its part; passes the refusal on
	actSwallow // reads its part, asks for more, ignores the refusal
	actError   // reports an error of its own
)

var errComponent = errors.New("simulated component error")

type act struct {
	what int
	k    int    // how many bytes it leaves, wants on top, or reads before it reports an error
	way  int    // how it asks for more
	seed uint64 // how it reads
}

// call is what one component did and saw in one operation.
type call struct {
	act      act
	span     uint64 // what it was offered
	got      []byte // what it read
	used     uint64 // bytes consumed
	refused  bool   // asked for more and was refused
	returned bool
	erred    bool
	blind    bool // skipped bytes without looking at them
}

// plan directs the components during one operation of one task.
type plan struct {
	e     *Env
	acts  []act
	calls []*call
	dry   bool
	enc   bool
	fuzz  bool
	at    int // bytes written when a component reported its error
}

// component is the custom SSZ type behind catalog.Cust.
type component struct {
	plans map[int]*plan
	fmin  uint64 // bytes it needs in fuzz mode
}

func (c *component) FuzzMinLen() uint64 { return c.fmin }
func (c *component) FuzzMaxLen() uint64 { return 1 << 40 }
func (c *component) MinLen() uint64     { return 0 }
func (c *component) MaxLen() uint64     { return 1 << 40 }
func (c *component) FixedLen() uint64   { return 0 }
func (c *component) IsFixed() bool      { return false }

func (c *component) SizeOf(p unsafe.Pointer) uint64 { return uint64(len(*(*[]byte)(p))) }
func (c *component) Encode(eb *enc.EncodingWriter, p unsafe.Pointer) error {
	b := *(*[]byte)(p)
	pl := c.plans[rt.TaskID()]
	if pl == nil || !pl.enc {
		return eb.Write(b)
	}
	i := len(pl.calls)
	cl := &call{}
	pl.calls = append(pl.calls, cl)
	if i < len(pl.acts) {
		cl.act = pl.acts[i]
	}
	a := &cl.act
	rnd := &prng{a.seed}
	bad := a.what != actGood
	n := len(b)
	if bad {
		n = a.k % (n + 1)
	}
	for at := 0; at < n; { // in pieces
		rt.Point()
		k := rnd.n(n-at) + 1
		if rnd.n(2) == 0 {
			k = n - at
		}
		if err := eb.Write(b[at : at+k]); err != nil {
			return err
		}
		at += k
		cl.used += uint64(k)
	}
	if bad {
		pl.e.Fault("component reports an error while encoding")
		pl.at = eb.Written()
		cl.erred = true
		return errComponent
	}
	return nil
}
func (c *component) HashTreeRoot(h htr.MerkleFn, p unsafe.Pointer) (out [32]byte) { return }
func (c *component) Pretty(indent uint32, w *pretty.PrettyWriter, p unsafe.Pointer) {
	w.Write("custom")
}

func (c *component) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	b, err := c.run(dr)
	if err == nil {
		*(*[]byte)(p) = b
	}
	return err
}

func (c *component) DryCheck(dr *dec.DecodingReader) error {
	_, err := c.run(dr)
	return err
}

// take reads exactly n bytes in one of the ways the reader offers.
func (cl *call) take(dr *dec.DecodingReader, n int, rnd *prng, dry bool) error {
	for n > 0 {
		rt.Point()
		switch w := rnd.n(7); {
		case w == 6 && dry:
			k := rnd.n(n) + 1
			if _, err := dr.Skip(uint64(k)); err != nil {
				return err
			}
			cl.blind = true
			cl.used, n = cl.used+uint64(k), n-k
		case w == 0 || n == 1 && w < 3:
			b, err := dr.ReadByte()
			if err != nil {
				return err
			}
			cl.got, cl.used, n = append(cl.got, b), cl.used+1, n-1
		case w == 1 && n >= 4:
			x, err := dr.ReadUint32()
			if err != nil {
				return err
			}
			cl.got, cl.used, n = append(cl.got, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)), cl.used+4, n-4
		case w == 2 && n >= 2: // through a scope of its own
			k := rnd.n(n) + 1
			sub, err := dr.Scope(uint64(k))
			if err != nil {
				return err
			}
			b := make([]byte, k)
			if _, err := sub.Read(b); err != nil {
				return err
			}
			dr.UpdateIndexFromScoped(sub)
			cl.got, cl.used, n = append(cl.got, b...), cl.used+uint64(k), n-k
		default:
			k := n
			if w == 3 {
				k = rnd.n(n) + 1
			}
			b := make([]byte, k)
			if _, err := dr.Read(b); err != nil {
				return err
			}
			cl.got, cl.used, n = append(cl.got, b...), cl.used+uint64(k), n-k
		}
	}
	return nil
}

// more asks for k bytes beyond what is left of the part.
func (cl *call) more(dr *dec.DecodingReader, k int, way int) error {
	left := int(cl.span - cl.used)
	switch way {
	case 0:
		b := make([]byte, left+k)
		_, err := dr.Read(b)
		if err == nil {
			cl.used += uint64(left + k)
			cl.got = append(cl.got, b...)
		}
		return err
	case 1:
		_, err := dr.Skip(uint64(left + k))
		if err == nil {
			cl.used += uint64(left + k)
		}
		return err
	case 2: // byte by byte
		for i := 0; i < left+k; i++ {
			b, err := dr.ReadByte()
			if err != nil {
				return err
			}
			cl.used++
			cl.got = append(cl.got, b)
		}
		return nil
	case 3:
		if left < 8 {
			_, err := dr.ReadUint64()
			if err == nil {
				cl.used += 8
			}
			return err
		}
	case 4:
		if left < 4 {
			_, err := dr.ReadOffset()
			if err == nil {
				cl.used += 4
			}
			return err
		}
	case 5:
		sub, err := dr.Scope(uint64(left + k))
		if err != nil {
			return err
		}
		b := make([]byte, left+k)
		if _, err := sub.Read(b); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(sub)
		cl.used += uint64(left + k)
		return nil
	}
	_, err := dr.Skip(uint64(left) + uint64(k)<<20)
	if err == nil {
		cl.used += uint64(left) + uint64(k)<<20
	}
	return err
}

func (c *component) run(dr *dec.DecodingReader) ([]byte, error) {
	pl := c.plans[rt.TaskID()]
	if pl == nil {
		panic(rt.Harness{Msg: "component called without a plan"})
	}
	cl := &call{span: dr.GetBytesSpan(), got: []byte{}}
	if i := len(pl.calls); i < len(pl.acts) {
		cl.act = pl.acts[i]
	} else if pl.fuzz && len(pl.acts) > 0 {
		cl.act.seed = pl.acts[0].seed + uint64(i)*977
	}
	pl.calls = append(pl.calls, cl)
	if pl.fuzz {
		return c.runFuzz(dr, pl, cl)
	}
	if len(pl.calls) > 100000 || cl.span > 1<<26 {
		panic(rt.OutOfFuel{Steps: int64(len(pl.calls))})
	}
	rnd := &prng{cl.act.seed}
	span := int(cl.span)
	a := &cl.act
	if a.what == actShort && span == 0 {
		a.what = actGood
	}
	names := []string{"", "component reads too little", "component asks for too much", "component ignores the refusal", "component reports an error"}
	if a.what != actGood {
		pl.e.Fault(names[a.what])
	}
	var err error
	switch a.what {
	case actGood:
		err = cl.take(dr, span, rnd, pl.dry)
	case actShort:
		err = cl.take(dr, span-1-a.k%span, rnd, pl.dry)
	case actLong:
		if err = cl.take(dr, a.k%(span+1), rnd, pl.dry); err == nil {
			if err = cl.more(dr, a.k%7+1, a.way); err != nil {
				cl.refused = true
			}
		}
	case actSwallow:
		if err = cl.take(dr, span, rnd, pl.dry); err == nil {
			if e := cl.more(dr, a.k%7+1, a.way); e != nil {
				cl.refused = true
			}
		}
	case actError:
		if err = cl.take(dr, a.k%(span+1), rnd, pl.dry); err == nil {
			err = errComponent
		}
	}
	rt.Point()
	cl.returned, cl.erred = true, err != nil
	return append([]byte(nil), cl.got...), err
}

// runFuzz takes as many bytes as the component likes of those it is offered, at least the fmin it announced.
func (c *component) runFuzz(dr *dec.DecodingReader, pl *plan, cl *call) ([]byte, error) {
	a := &cl.act
	rnd := &prng{a.seed}
	if len(pl.calls) > 100000 {
		panic(rt.OutOfFuel{Steps: int64(len(pl.calls))})
	}
	if !dr.IsFuzzMode() {
		pl.e.Fail("mode", "in fuzz mode, component %d is given a reader that is not in fuzz mode", len(pl.calls)-1)
	}
	k := c.fmin
	if cl.span < k {
		if !pl.misbehaved() {
			pl.e.Fail("starved", "in fuzz mode, component %d is offered %d bytes, it announced to need %d", len(pl.calls)-1, cl.span, k)
		}
		cl.returned, cl.erred = true, true
		return nil, errComponent
	}
	if spare := cl.span - k; spare > 0 && rnd.n(3) > 0 {
		if spare > 50 {
			spare = 50
		}
		k += uint64(rnd.n(int(spare) + 1))
	}
	var err error
	switch a.what {
	case actLong:
		pl.e.Fault("component asks for too much in fuzz mode")
		if err = cl.take(dr, int(k), rnd, false); err == nil {
			if err = cl.more(dr, a.k%7+1, a.way); err != nil {
				cl.refused = true
			}
		}
	case actError:
		pl.e.Fault("component reports an error in fuzz mode")
		if err = cl.take(dr, a.k%int(k+1), rnd, false); err == nil {
			err = errComponent
		}
	default:
		a.what = actGood
		err = cl.take(dr, int(k), rnd, false)
	}
	rt.Point()
	cl.returned, cl.erred = true, err != nil
	return append([]byte(nil), cl.got...), err
}

func (p *plan) misbehaved() bool {
	for _, c := range p.calls {
		if c.act.what != actGood {
			return true
		}
	}
	return false
}

// c14fuzzed judges a fuzz-mode decode of the bytes b.
func (e *Env) c14fuzzed(td *TD, b []byte, o Out, dst reflect.Value, pl *plan) {
	if o.Pan != nil {
		e.Fail("panic", "fuzz-mode decode of %s (%s) with a custom component panics: %s", td.R, hexs(b), o.Pan)
	}
	used, bad := 0, false
	for i, c := range pl.calls {
		if c.used > c.span || c.span > uint64(len(b)) {
			e.Fail("escape", "fuzz-mode decode of %s (%s): component %d was offered %d bytes and obtained %d (way %d)", td.R, hexs(b), i, c.span, c.used, c.act.way)
		}
		at := bytes.Index(b[used:], c.got) // pieces do not overlap and are taken in order
		if at < 0 {
			e.Fail("parts", "fuzz-mode decode of %s (%s): component %d reads %s, not in the input after the first %d bytes, which others have read", td.R, hexs(b), i, hexs(c.got), used)
		}
		used += at + len(c.got)
		if c.erred {
			bad = true
			if o.Ok {
				e.Fail("swallowed", "fuzz-mode decode of %s (%s) succeeds although component %d reported an error", td.R, hexs(b), i)
			}
			if c.act.what == actError && !errors.Is(o.Err, errComponent) {
				e.Fail("error lost", "fuzz-mode decode of %s (%s): component %d reported an error of its own, the operation returns %v", td.R, hexs(b), i, o.Err)
			}
			if i < len(pl.calls)-1 {
				e.Fail("continued", "fuzz-mode decode of %s (%s) goes on after component %d reported an error", td.R, hexs(b), i)
			}
		}
	}
	if bad {
		e.Probe("component misbehaved in fuzz mode")
		return
	}
	if !o.Ok {
		e.Fail("refused", "fuzz-mode decode of %s (%s) fails although all components behave: %v", td.R, hexs(b), o.Err)
	}
	if o.N < uint64(used) || o.N > uint64(len(b)) {
		e.Fail("count", "fuzz-mode decode of %s (%s): the components read up to byte %d, of %d, it reports %d", td.R, hexs(b), used, len(b), o.N)
	}
	v := td.Get(dst)
	parts := custParts(td.R, v, nil)
	if len(parts) != len(pl.calls) {
		e.Fail("parts", "fuzz-mode decode of %s (%s) asks %d components, the value has %d", td.R, hexs(b), len(pl.calls), len(parts))
	}
	for i, c := range pl.calls {
		if !bytes.Equal(parts[i], c.got) {
			e.Fail("value", "fuzz-mode decode of %s (%s): component %d of the value holds %s, it read %s", td.R, hexs(b), i, hexs(parts[i]), hexs(c.got))
		}
	}
	w := e.NewWr(HealthyW())
	pl.fuzz, pl.calls = false, nil
	if o := e.Encode(w.W(), dst, td); !o.Ok || !bytes.Equal(w.Got(), td.R.Enc(v)) {
		e.Fail("value", "the fuzz-mode result %s of %s (%s) encodes as %s with bytes %s", v, td.R, hexs(b), o, hexs(w.Got()))
	}
	e.Probe("all components behaved in fuzz mode")
}

// custParts lists the parts of the components in a value, in stream order.
func custParts(t *ref.T, v *ref.V, out [][]byte) [][]byte {
	g := t.Go
	for i := 0; i < t.Ptrs; i++ {
		g = g.Elem()
	}
	if g == catalog.CustType {
		return append(out, v.B)
	}
	switch t.K {
	case ref.Vec, ref.List:
		for _, x := range v.L {
			out = custParts(t.Elem, x, out)
		}
	case ref.Cont:
		for i, x := range v.L {
			out = custParts(t.F[i].T, x, out)
		}
	}
	return out
}

func c14(e *Env) {
	comp := &component{plans: map[int]*plan{}, fmin: uint64([]int{1, 2, 9}[e.S.Draw(3)])}
	var factory types.SSZFactoryFn
	factory = func(g reflect.Type) (types.SSZ, error) {
		if g == catalog.CustType {
			return comp, nil
		}
		return types.DefaultSSZFactory(factory, g)
	}
	mk := func() *TD {
		g := catalog.DrawCust(e.S)
		td := &TD{R: ref.Of(g)}
		pan := e.try(func() {
			var err error
			if td.Def, err = factory(g); err != nil {
				e.Fail("type", "type %s with a custom component is rejected: %v", td.R, err)
			}
		})
		if pan != nil {
			e.Fail("panic", "constructing %s with a custom component panics: %s", td.R, pan)
		}
		return td
	}
	budget := e.Budget()
	if budget > 3000 {
		budget = 3000
	}
	nt := 1
	if e.S.Draw(4) == 3 {
		nt = e.S.Draw(2) + 2
		e.Schedule()
	}
	td := mk()
	type job struct {
		enc     bool
		fuzz    bool
		w       WrCfg
		td      *TD
		v       *ref.V // nil: damaged input
		b       []byte
		n       uint64
		dry     bool
		reuse   bool
		c       RdCfg
		acts    []act
		damaged bool
	}
	var tasks []func()
	for k := 0; k < nt; k++ {
		if k > 0 && e.S.Draw(2) == 1 {
			td = mk()
		}
		var jobs []job
		for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
			j := job{td: td, dry: e.S.Draw(2) == 1, c: e.RdCfg(), reuse: e.S.Draw(2) == 1}
			j.v = td.R.Gen(e.S, budget)
			j.b = td.R.Enc(j.v)
			j.n = uint64(len(j.b))
			switch e.S.Pick(2, 5, 1, 2, 2) {
			case 4:
				j.fuzz = true
				j.b = randBytes(uint64(e.S.Draw(1<<30)), int(td.Def.FuzzMinLen())+e.S.Draw([]int{1, 40, 600}[e.S.Draw(3)]))
				j.n = uint64(len(j.b))
				j.acts = make([]act, 12)
				for q := range j.acts {
					j.acts[q].seed = uint64(e.S.Draw(1 << 16))
				}
				if e.S.Draw(3) != 0 {
					q := e.S.Draw([]int{1, 3, 12}[e.S.Draw(3)])
					j.acts[q].what, j.acts[q].k, j.acts[q].way = []int{actLong, actError}[e.S.Draw(2)], e.S.Draw(40), e.S.Draw(7)
				}
			case 3:
				j.enc = true
				j.acts = e.acts(j.td, j.v, e.S.Pick(2, 6, 1))
				j.w = e.WrCfg()
				if e.S.Draw(4) == 3 {
					j.w.Fail, j.w.Style, j.w.Err = e.cutPoint(j.td, j.v, j.b), e.S.Draw(4), errDisk
				}
			case 0: // all behave
				j.acts = e.acts(j.td, j.v, 0)
			case 1:
				j.acts = e.acts(j.td, j.v, e.S.Pick(6, 2, 1)+1)
			case 2:
				j.damaged = true
				for q := e.S.Draw(2) + 1; q > 0; q-- {
					j.b = e.corrupt(td, j.v, j.b)
				}
				j.n = uint64(len(j.b))
				if w, err := td.R.Dec(j.b); err == nil {
					j.v = w
				} else {
					j.v = nil
				}
				j.acts = nil
			}
			e.Desc("task %d: %s of %s, %d bytes, %d components planned, damaged %v (%s)", k, map[bool]string{true: "dry check", false: "decode"}[j.dry], td.R, len(j.b), len(j.acts), j.damaged, j.c)
			jobs = append(jobs, j)
		}
		tasks = append(tasks, func() {
			var dst reflect.Value
			for _, j := range jobs {
				pl := &plan{e: e, acts: j.acts, dry: j.dry, enc: j.enc}
				comp.plans[rt.TaskID()] = pl
				if j.enc {
					w := e.NewWr(j.w)
					o := e.Encode(w.W(), j.td.New(j.v), j.td)
					e.c14encoded(j.td, j.v, j.b, o, w, pl)
					rt.Between()
					continue
				}
				if !j.reuse || !dst.IsValid() {
					dst = j.td.Zero()
				}
				rd := e.NewRd(j.b, j.c)
				r, _ := rd.R()
				var o Out
				if j.fuzz {
					pl.fuzz = true
					o = e.Fuzz(r, j.n, dst, j.td)
					e.c14fuzzed(j.td, j.b, o, dst, pl)
					rt.Between()
					continue
				}
				if j.dry {
					o = e.Dry(r, j.n, j.td)
				} else {
					o = e.Decode(r, j.n, dst, j.td)
				}
				e.c14judge(j.td, j.v, j.b, j.damaged, j.dry, o, dst, pl)
				rt.Between()
			}
		})
	}
	if nt == 1 {
		tasks[0]()
	} else {
		e.Par(tasks...)
	}
}

// acts draws what each component will do: bad of them misbehave.
func (e *Env) acts(td *TD, v *ref.V, bad int) []act {
	n := len(custParts(td.R, v, nil))
	out := make([]act, n)
	seed := uint64(e.S.Draw(1 << 16))
	for i := range out {
		out[i].seed = seed + uint64(i)*977
	}
	for ; bad > 0 && n > 0; bad-- {
		i := e.S.Draw(n)
		out[i].what = e.S.Draw(4) + 1
		out[i].k = e.S.Draw([]int{1, 4, 40, 1000}[e.S.Draw(4)])
		out[i].way = e.S.Draw(7)
	}
	return out
}

func (e *Env) c14judge(td *TD, v *ref.V, b []byte, damaged, dry bool, o Out, dst reflect.Value, pl *plan) {
	what := "decode"
	if dry {
		what = "dry check"
	}
	if o.Pan != nil {
		e.Fail("panic", "%s of %s (%s) with a custom component panics: %s", what, td.R, hexs(b), o.Pan)
	}
	exact, refused := true, false
	for i, c := range pl.calls {
		if c.used > c.span {
			e.Fail("escape", "%s of %s (%s): component %d was offered %d bytes and obtained %d (way %d)", what, td.R, hexs(b), i, c.span, c.used, c.act.way)
		}
		if c.used != c.span || c.erred || !c.returned {
			exact = false
		}
		if c.refused {
			refused = true
		}
	}
	if !exact && o.Ok {
		for i, c := range pl.calls {
			if c.used != c.span || c.erred {
				e.Fail("swallowed", "%s of %s (%s) succeeds although component %d, offered %d bytes, consumed %d and returned an error: %v", what, td.R, hexs(b), i, c.span, c.used, c.erred)
			}
		}
	}
	if last := len(pl.calls) - 1; last >= 0 && pl.calls[last].erred && pl.calls[last].act.what == actError && !errors.Is(o.Err, errComponent) {
		e.Fail("error lost", "%s of %s (%s): component %d reported an error of its own, the operation returns %v", what, td.R, hexs(b), last, o.Err)
	}
	var want [][]byte
	if v != nil {
		want = custParts(td.R, v, nil)
	}
	if damaged {
		if (v != nil) != o.Ok {
			e.Fail("verdict", "%s of damaged bytes %s as %s with well-behaved components: %s; the bytes are canonical: %v", what, hexs(b), td.R, o, v != nil)
		}
		if v == nil {
			return
		}
	}
	// until the first component misbehaves, each sees exactly its own bytes
	for i, c := range pl.calls {
		if i >= len(want) {
			e.Fail("parts", "%s of %s (%s): %d components are called, there are %d", what, td.R, hexs(b), len(pl.calls), len(want))
		}
		if c.span != uint64(len(want[i])) {
			e.Fail("parts", "%s of %s (%s): component %d is offered %d bytes, its part has %d", what, td.R, hexs(b), i, c.span, len(want[i]))
		}
		k := len(c.got)
		if k > len(want[i]) {
			k = len(want[i])
		}
		if !c.blind && !bytes.Equal(c.got[:k], want[i][:k]) {
			e.Fail("parts", "%s of %s (%s): component %d reads %s, its part is %s", what, td.R, hexs(b), i, hexs(c.got), hexs(want[i]))
		}
		if c.used != c.span || c.erred {
			e.Probe("component misbehaved")
			return
		}
	}
	if refused {
		e.Probe("refusal ignored")
		return
	}
	if !o.Ok {
		e.Fail("refused", "%s of %s (%s) fails although all components behave: %v", what, td.R, hexs(b), o.Err)
	}
	if len(pl.calls) != len(want) {
		e.Fail("parts", "%s of %s (%s): %d components are called, there are %d", what, td.R, hexs(b), len(pl.calls), len(want))
	}
	if !dry {
		if g := td.Get(dst); !ref.Equal(g, v) {
			e.Fail("value", "decode of %s (%s) with well-behaved components gives %s, want %s", td.R, hexs(b), g, v)
		}
	}
	e.Probe("all components behaved")
}

// c14encoded judges an encode with components that may report an error.
func (e *Env) c14encoded(td *TD, v *ref.V, b []byte, o Out, w *Wr, pl *plan) {
	if o.Pan != nil {
		e.Fail("panic", "encoding %s with a custom component panics: %s", td.R, o.Pan)
	}
	if !bytes.HasPrefix(b, w.Got()) {
		e.Fail("bytes", "encoding %s with a custom component writes %s, want %s", td.R, hexs(w.Got()), hexs(b))
	}
	if o.N != uint64(len(w.Got())) {
		e.Fail("count", "encoding %s with a custom component: the sink accepted %d bytes, encode reports %d", td.R, len(w.Got()), o.N)
	}
	if w.Failed {
		if o.Ok {
			e.Fail("swallowed", "encoding %s with a custom component succeeds although the sink failed after %d bytes", td.R, len(w.Got()))
		}
		return
	}
	for i, c := range pl.calls {
		if !c.erred {
			continue
		}
		if o.Ok {
			e.Fail("swallowed", "encoding %s succeeds although component %d reported an error", td.R, i)
		}
		if !errors.Is(o.Err, errComponent) {
			e.Fail("error lost", "encoding %s: component %d reported an error of its own, encode returns %v", td.R, i, o.Err)
		}
		if i < len(pl.calls)-1 || len(w.Got()) > pl.at {
			e.Fail("continued", "encoding %s goes on after component %d reported an error: %d bytes written then, %d in the end, %d components asked", td.R, i, pl.at, len(w.Got()), len(pl.calls))
		}
		e.Probe("component failed while encoding")
		return
	}
	if !o.Ok || len(w.Got()) != len(b) {
		e.Fail("bytes", "encoding %s with well-behaved components: %s with %d bytes, want %d", td.R, o, len(w.Got()), len(b))
	}
}
