package scen

import (
	"fmt"
	"reflect"
	"unsafe"

	"verif.local/sim/ref"
)

func init() {
	Scenarios["C09"] = c09
}

// upset draws what happens to the Go runtime's memory during callbacks.
func (e *Env) upset() func() {
	kind := e.S.Draw(4)
	if kind == 0 {
		return nil
	}
	rnd := prng{uint64(e.S.Draw(1 << 16))}
	left := 4
	return func() {
		if left == 0 || rnd.n(3) != 0 {
			return
		}
		left--
		switch kind {
		case 1:
			e.Quirk("collection in a callback")
			collect()
		case 2:
			e.Quirk("stack moved in a callback")
			deep(50 + rnd.n(150))
		case 3:
			e.Quirk("stack grown and shrunk in a callback")
			deep(300)
			collect()
		}
	}
}

// wellFormed checks that a destination is a proper Go value, whatever happened to it.
func wellFormed(t *ref.T, rv reflect.Value) error {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return nil
		}
		rv = rv.Elem()
	}
	badBool := func(b []byte) error {
		for i, x := range b {
			if x > 1 {
				return fmt.Errorf("bool %d of %s holds %#x", i, t, x)
			}
		}
		return nil
	}
	switch t.K {
	case ref.Bool:
		return badBool(ref.Raw(rv, 1))
	case ref.BasicVec:
		if t.IsBool {
			return badBool(ref.Raw(rv, t.N))
		}
	case ref.BasicList, ref.Bitlist, ref.List:
		if rv.Len() > rv.Cap() || rv.Len() < 0 {
			return fmt.Errorf("list %s of length %d has capacity %d", t, rv.Len(), rv.Cap())
		}
		if rv.Len() > 0 && rv.Pointer() == 0 {
			return fmt.Errorf("list %s of length %d has no memory", t, rv.Len())
		}
		if t.IsBool && t.K == ref.BasicList && rv.Len() > 0 {
			return badBool(unsafe.Slice((*byte)(rv.UnsafePointer()), rv.Len()))
		}
	}
	switch t.K {
	case ref.Vec, ref.List:
		for i := 0; i < rv.Len(); i++ {
			if err := wellFormed(t.Elem, rv.Index(i)); err != nil {
				return err
			}
		}
	case ref.Cont:
		for _, f := range t.F {
			if err := wellFormed(f.T, rv.FieldByIndex(f.Path)); err != nil {
				return err
			}
		}
	}
	return nil
}

func (e *Env) checkOwned(td *TD, dst reflect.Value, input []byte, when string) {
	if err := wellFormed(td.R, dst.Elem()); err != nil {
		e.Fail("malformed", "%s: %s: %v", td.R, when, err)
	}
	p := dst.Pointer()
	rs := []ref.Region{{Start: p, End: p + td.R.Go.Size(), What: "the value itself"}}
	if len(input) > 0 {
		i := uintptr(unsafe.Pointer(&input[0]))
		rs = append(rs, ref.Region{Start: i, End: i + uintptr(cap(input)), What: "the input buffer"})
	}
	rs = td.R.Regions(dst.Elem(), "value", rs)
	if err := overlap(rs); err != nil {
		e.Fail("malformed", "%s: %s: %v", td.R, when, err)
	}
}

func c09(e *Env) {
	e.isJumbo()
	td := e.Type()
	budget := e.Budget()
	gaps := e.S.Pick(1, 1, 1, 1)
	h := e.UseHash()
	var f fences
	v := e.Gen(td, budget)
	valid := true
	dst := e.place(td, v, &f)
	e.Desc("%s, %d watched areas, gc pattern %d", td.R, len(f), gaps)
	keep := fillOmitted(td.R, dst.Elem(), 3, nil)
	watch := func(when string) {
		if err := f.check(); err != nil {
			e.Fail("outside", "%s: %s: %v", td.R, when, err)
		}
		for _, k := range keep {
			if err := k(); err != nil {
				e.Fail("outside", "%s: %s: %v", td.R, when, err)
			}
		}
	}
	steps := e.S.Draw(4) + 1
	for i := 0; i < steps; i++ {
		up := e.upset()
		if gaps > 0 {
			e.Sim.StartGC([]int{0, 2000, 200, 40}[gaps], 1+e.S.Draw(3))
		}
		switch k := e.S.Pick(5, 4, 3, 2, 3); k {
		case 0: // read-only operations
			if !valid {
				break
			}
			mem := memory(td, dst)
			what := e.readOnly(td, dst, v, h, up)
			for _, m := range mem {
				if err := (fences{m}).check(); err != nil {
					e.Fail("written", "%s: %s wrote to the value: %v", td.R, what, err)
				}
			}
			watch(what)
		case 1, 2, 3: // decode: valid, damaged or interrupted, fuzz
			var in []byte
			var n uint64
			c := e.RdCfg()
			c.Hook = up
			nv := e.Gen(td, budget)
			switch k {
			case 1:
				in = td.R.Enc(nv)
				n = uint64(len(in))
			case 2:
				if e.S.Draw(2) == 0 {
					in, n = e.damaged(td, budget)
				} else {
					in = td.R.Enc(nv)
					n = uint64(len(in))
					c.Cut, c.CutErr = e.cutPoint(td, nv, in), e.cutErr()
				}
			case 3:
				in = e.fuzzInput(td, budget)
				n = uint64(len(in))
			}
			e.Desc("step %d: decode kind %d, %d bytes (%s)", i, k, len(in), c)
			r, _ := e.NewRd(in, c).R()
			var o Out
			if k == 3 {
				o = e.Fuzz(r, n, dst, td)
			} else {
				o = e.Decode(r, n, dst, td)
			}
			if o.Pan != nil {
				e.Fail("panic", "%s: decoding %s panics: %s", td.R, hexs(in), o.Pan)
			}
			watch("decode")
			e.checkOwned(td, dst, in, fmt.Sprintf("after a decode that gave %s", o))
			for j := range in {
				in[j] = 0xdd
			}
			valid = o.Ok
			if o.Ok {
				got := td.Get(dst)
				if k == 1 && !ref.Equal(got, nv) {
					e.Fail("value", "%s: decoded %s, want %s", td.R, got, nv)
				}
				if e.S.Draw(2) == 1 {
					collect()
					e.Sim.GCs++
					if g2 := td.Get(dst); !ref.Equal(g2, got) {
						e.Fail("lost", "%s: the decoded value %s became %s after a collection", td.R, got, g2)
					}
				}
				v = got
			} else {
				e.Probe("failed decode")
				if e.S.Draw(2) == 1 {
					collect()
					e.Sim.GCs++
				}
			}
			// new omitted content may have come with new elements; the old must be unchanged
		case 4: // an object only the operation knows about
			e.orphan(td, budget, h, up)
		}
	}
	if !valid { // a failed destination can be used again
		nv := e.Gen(td, budget)
		b := td.R.Enc(nv)
		o := e.Decode(e.NewRd(b, Plain()), uint64(len(b)), dst, td)
		if !o.Ok {
			e.Fail("unusable", "%s: decoding a valid value into the destination of a failed decode: %s", td.R, o)
		}
		if got := td.Get(dst); !ref.Equal(got, nv) {
			e.Fail("unusable", "%s: decoding into the destination of a failed decode gives %s, want %s", td.R, got, nv)
		}
		e.checkOwned(td, dst, b, "after reuse of the destination of a failed decode")
		v = nv
	}
	collect()
	e.Sim.GCs++
	watch("everything")
	if got := td.Get(dst); !ref.Equal(got, v) {
		e.Fail("lost", "%s: after a collection the value is %s, was %s", td.R, got, v)
	}
}

// readOnly runs one operation that must not write to the value.
func (e *Env) readOnly(td *TD, dst reflect.Value, v *ref.V, h *ref.Hash, up func()) string {
	switch e.S.Draw(5) {
	case 0:
		c := e.WrCfg()
		c.Hook = up
		if e.S.Draw(3) == 2 {
			c.Fail, c.Err, c.Style = e.S.Draw(50), errDisk, e.S.Draw(4)
		}
		w := e.NewWr(c)
		o := e.Encode(w.W(), dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: encode panics: %s", td.R, o.Pan)
		}
		if enc := td.R.Enc(v); !w.Failed && string(enc) != string(w.Got()) {
			e.Fail("value", "%s: encodes to %s, want %s", td.R, hexs(w.Got()), hexs(enc))
		}
		return "encode"
	case 1:
		x := e.NewHs(h)
		x.Hook = up
		o := e.Root(e.Either(x), dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: root panics: %s", td.R, o.Pan)
		}
		if o.Root != h.Root(td.R, v) {
			e.Fail("value", "%s: root of %s is %x, want %x", td.R, v, o.Root, h.Root(td.R, v))
		}
		return "root"
	case 2:
		if td.Signed() {
			x := e.NewHs(h)
			x.Hook = up
			if o := e.SRoot(e.Either(x), dst, td); o.Pan != nil {
				e.Fail("panic", "%s: signing root panics: %s", td.R, o.Pan)
			}
		}
		return "signing root"
	case 3:
		o := e.Size(dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: size panics: %s", td.R, o.Pan)
		}
		return "size"
	}
	if e.big {
		return "nothing"
	}
	if o := e.PrettyP(e.NewWr(HealthyW()), dst, td); o.Pan != nil {
		e.Fail("panic", "%s: pretty printing panics: %s", td.R, o.Pan)
	}
	return "pretty"
}

// orphan runs operations on objects that nothing but the operation refers to.
func (e *Env) orphan(td *TD, budget int, h *ref.Hash, up func()) {
	v := e.Gen(td, budget)
	enc := td.R.Enc(v)
	switch e.S.Draw(3) {
	case 0:
		c := e.WrCfg()
		c.Hook = up
		w := e.NewWr(c)
		o := e.Encode(w.W(), td.New(v), td)
		if !o.Ok || string(w.Got()) != string(enc) {
			e.Fail("lost", "%s: encoding an object nobody else refers to gives %s (%s), want %s", td.R, hexs(w.Got()), o, hexs(enc))
		}
	case 1:
		x := e.NewHs(h)
		x.Hook = up
		o := e.Root(e.Either(x), td.New(v), td)
		if o.Root != h.Root(td.R, v) {
			e.Fail("lost", "%s: root of an object nobody else refers to: %s, want %x", td.R, o, h.Root(td.R, v))
		}
	case 2:
		c := e.RdCfg()
		c.Hook = up
		dst := td.Zero()
		o := e.Decode(e.NewRd(enc, c), uint64(len(enc)), dst, e.Fresh(td))
		if e.S.Draw(2) == 1 {
			collect()
			e.Sim.GCs++
		}
		if !o.Ok || !ref.Equal(td.Get(dst), v) {
			e.Fail("lost", "%s: decoded %s (%s), want %s", td.R, td.Get(dst), o, v)
		}
	}
}
