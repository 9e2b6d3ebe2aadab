package scen

import (
	"io"
	"reflect"

	"github.com/protolambda/zssz/bitfields"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C25"] = c25
}

// ---------------------------------------------------------------- C25

// a bitfield inside a Go value, and what it should hold
type slot struct {
	t   *ref.T
	mem []byte
	v   *ref.V
}

func (s slot) bits() uint64 {
	if s.t.K == ref.Bitvec {
		return s.t.N
	}
	return ref.BitlistLen(s.v.B)
}

func (s slot) get(i uint64) bool { return s.v.B[i/8]&(1<<(i%8)) != 0 }

func (s slot) set(i uint64, on bool) {
	if s.get(i) != on {
		s.v.B[i/8] ^= 1 << (i % 8)
	}
}

func (s slot) zero() bool {
	for i := uint64(0); i < s.bits(); i++ {
		if s.get(i) {
			return false
		}
	}
	return true
}

// slots finds the bitfields of a value.
func slots(t *ref.T, rv reflect.Value, v *ref.V, out []slot) []slot {
	for i := 0; i < t.Ptrs; i++ {
		rv = rv.Elem()
	}
	if len(out) > 30 {
		return out
	}
	switch t.K {
	case ref.Bitvec:
		out = append(out, slot{t, rv.Slice(0, rv.Len()).Bytes(), v})
	case ref.Bitlist:
		out = append(out, slot{t, rv.Bytes(), v})
	case ref.Vec, ref.List:
		for i, x := range v.L {
			out = slots(t.Elem, rv.Index(i), x, out)
		}
	case ref.Cont:
		for i, f := range t.F {
			out = slots(f.T, rv.FieldByIndex(f.Path), v.L[i], out)
		}
	}
	return out
}

func hasBits(t *ref.T) bool {
	switch t.K {
	case ref.Bitvec, ref.Bitlist:
		return true
	case ref.Vec, ref.List:
		return hasBits(t.Elem)
	case ref.Cont:
		for _, f := range t.F {
			if hasBits(f.T) {
				return true
			}
		}
	}
	return false
}

var bitTypes []reflect.Type

var manyBits = []reflect.Type{
	reflect.TypeOf(catalog.BV70001{}), reflect.TypeOf(catalog.Bits[catalog.O70001](nil)), reflect.TypeOf(catalog.Bits[catalog.O600000](nil)), reflect.TypeOf(struct {
		A uint16
		B catalog.Bits[catalog.O524289]
		C *catalog.BV70001
		D catalog.BV9
	}{}),
}

func (e *Env) bitType() *TD {
	if bitTypes == nil {
		for _, g := range catalog.All {
			if t := ref.Of(g); hasBits(t) {
				bitTypes = append(bitTypes, g)
			}
		}
	}
	g := bitTypes[e.S.Draw(len(bitTypes))]
	switch e.S.Draw(6) {
	case 3:
		g = reflect.ArrayOf(e.S.Draw(3)+1, g)
	case 4:
		g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: bitTypes[e.S.Draw(len(bitTypes))]}, {Name: "B", Type: g}})
	case 5:
		g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: g}, {Name: "B", Type: catalog.Draw(e.S)}, {Name: "C", Type: bitTypes[e.S.Draw(len(bitTypes))]}})
	}
	return e.TypeOf(g)
}

type bitOp struct {
	kind int // 0 set, 1 read one, 2 read all, 3 length and zero, 4 check own, 5 check foreign bytes, 6 transfer
	slot int
	at   uint64
	on   bool
	b    []byte // foreign bytes
	lim  uint64
	td   *TD // a type with that limit
	rc   RdCfg
	cut  int
	wc   WrCfg
	fail int
}

func c25(e *Env) {
	nt := e.S.Pick(5, 2, 1) + 1
	if nt > 1 {
		e.Schedule()
	}
	budget := e.Budget()
	var td *TD
	var v0 *ref.V
	if e.S.Draw(40) == 39 {
		td = e.TypeOf(manyBits[e.S.Draw(len(manyBits))])
		if v0 = td.R.Extreme(e.S, true, 80000); e.S.Draw(2) == 1 {
			v0 = td.R.Extreme(e.S, true, e.S.Draw(80000))
		}
		e.Probe("more than 65536 bits")
	} else {
		td = e.bitType()
		v0 = e.Gen(td, budget)
	}
	progs := make([][]bitOp, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(14)+2; i < n; i++ {
			o := bitOp{kind: e.S.Pick(8, 4, 1, 2, 2, 4, 3), slot: e.S.Draw(30), at: uint64(e.S.Draw(1 << 20)), on: e.S.Draw(2) == 1, cut: -1, fail: -1, rc: Plain()}
			switch o.kind {
			case 0, 1:
				if e.S.Draw(4) == 3 { // at the end
					o.at = uint64(1<<40) + uint64(e.S.Draw(3))
				}
			case 5:
				o.b = e.bitBytes()
				o.lim = e.bitLimit(uint64(len(o.b)))
				o.rc = e.RdCfg()
				o.td = e.judge(o.lim)
			case 6:
				o.rc, o.wc = e.RdCfg(), e.WrCfg()
				switch e.S.Draw(4) {
				case 2:
					o.cut = e.S.Draw(300)
				case 3:
					o.fail = e.S.Draw(300)
				}
			}
			progs[t] = append(progs[t], o)
		}
	}
	e.Desc("%d parties hold replicas of %s and work on its bits", nt, td.R)
	var fs []func()
	for t := range progs {
		prog := progs[t]
		fs = append(fs, func() {
			v := v0.Clone()
			obj := td.New(v)
			for _, o := range prog {
				obj = e.bitOp(td, v, obj, o)
				if g := td.Get(obj); !ref.Equal(g, v) {
					e.Fail("value", "a value of %s should be %s and is %s", td.R, v, g)
				}
				rt.Between()
			}
		})
	}
	if nt == 1 {
		fs[0]()
	} else {
		e.Par(fs...)
	}
}

// bitBytes are bytes that may be a bitlist or a bitvector.
func (e *Env) bitBytes() []byte {
	n := []int{0, 1, 1, 2, 3, 8, 33, 100}[e.S.Draw(8)]
	b := ref.Content(e.S, n, false)
	if n > 0 {
		switch e.S.Draw(5) {
		case 1:
			b[n-1] = 1 << uint(e.S.Draw(8))
		case 2:
			b[n-1] = 0
			e.Fault("delimiter lost")
		case 3:
			b[n-1] &= 1<<uint(e.S.Draw(8)) - 1
		case 4:
			for i := range b[:n-1] {
				b[i] = 0
			}
		}
	}
	return b
}

// bitLimit is a limit, or a number of bits, near what n bytes can hold.
func (e *Env) bitLimit(n uint64) uint64 {
	switch e.S.Draw(8) {
	case 5:
		return uint64(e.S.Draw(1000))
	case 6:
		return []uint64{1<<64 - 1, 1<<64 - 7, 1<<64 - 8, 1 << 63, 1<<63 - 1, 1 << 32, 1<<61 + 5}[e.S.Draw(7)]
	case 7:
		return 0
	}
	x := n*8 + uint64(e.S.Draw(20))
	if x < 10 {
		return x
	}
	return x - 10
}

func (e *Env) bitOp(td *TD, v *ref.V, obj reflect.Value, o bitOp) reflect.Value {
	all := slots(td.R, obj.Elem(), v, nil)
	if o.kind < 5 && len(all) == 0 {
		return obj
	}
	var s slot
	var n uint64
	if o.kind < 5 {
		s = all[o.slot%len(all)]
		n = s.bits()
		if n == 0 && o.kind < 2 {
			return obj
		}
	}
	what := func() string { return "of " + td.R.String() + " (bits " + hexs(s.v.B) + ")" }
	ok := func(p *Pan) {
		if p != nil {
			e.Fail("panic", "an operation on the bits %s panics: %s", what(), p)
		}
	}
	at := o.at
	if at >= 1<<40 {
		at = n - 1 - (at-1<<40)%n
	}
	if n > 0 {
		at %= n
	}
	switch o.kind {
	case 0:
		e.Note(at)
		ok(e.try(func() { bitfields.SetBit(s.mem, at, o.on) }))
		s.set(at, o.on)
		e.Probe("bit set")
	case 1:
		var x bool
		ok(e.try(func() { x = bitfields.GetBit(s.mem, at) }))
		if x != s.get(at) {
			e.Fail("bit", "bit %d %s is read as %v", at, what(), x)
		}
	case 2:
		for i := at; i < n && i < at+1000; i++ {
			var x bool
			ok(e.try(func() { x = bitfields.GetBit(s.mem, i) }))
			if x != s.get(i) {
				e.Fail("bit", "bit %d %s is read as %v", i, what(), x)
			}
		}
	case 3:
		if s.t.K != ref.Bitlist {
			break
		}
		var l uint64
		var z bool
		ok(e.try(func() { l = bitfields.BitlistLen(s.mem); z = bitfields.IsZeroBitlist(s.mem) }))
		if l != n {
			e.Fail("length", "the length of the bitlist %s is given as %d, it is %d", what(), l, n)
		}
		if z != s.zero() {
			e.Fail("zero", "whether no bit %s is set is answered with %v", what(), z)
		}
		e.Probe("length and zero test")
	case 4:
		var err error
		ok(e.try(func() {
			if s.t.K == ref.Bitvec {
				err = bitfields.BitvectorCheck(s.mem, s.t.N)
			} else {
				err = bitfields.BitlistCheck(s.mem, s.t.Limit)
			}
		}))
		if err != nil {
			e.Fail("check", "the check of a bitfield %s fails: %v", what(), err)
		}
	case 5:
		e.foreign(o)
	case 6:
		return e.transfer(td, v, obj, o)
	}
	return obj
}

// foreign has bytes of somebody else judged.
func (e *Env) foreign(o bitOp) {
	b, lim := o.b, o.lim
	n := uint64(len(b))
	list := n > 0 && b[n-1] != 0 && ref.BitlistLen(b) <= lim
	full := lim/8 + (lim%8+7)/8
	vec := n == full && (n == 0 || lim%8 == 0 || b[n-1]>>(lim%8) == 0)
	kept := string(b)
	var el, ev, en, em, eb, ec error
	var top uint64
	var last byte
	// what is said of bytes without delimiter: all in front of the last byte counts
	var bl, wantLen uint64
	bz, wantZero := false, true
	if n > 0 {
		last = b[n-1]
		wantLen = (n - 1) * 8
		if last != 0 {
			wantLen = ref.BitlistLen(b)
		}
		for i := uint64(0); i < wantLen && wantZero; i++ {
			wantZero = b[i/8]>>(i%8)&1 == 0
		}
	}
	p := e.try(func() {
		en, em = bitfields.BitlistCheckByteLen(n, lim), bitfields.BitvectorCheckByteLen(n, lim)
		eb, ec = bitfields.BitlistCheckLastByte(last, lim), bitfields.BitvectorCheckLastByte(last, lim)
		top = bitfields.BitIndex(last)
		el = bitfields.BitlistCheck(b, lim)
		ev = bitfields.BitvectorCheck(b, lim)
		bl = bitfields.BitlistLen(b)
		bz = bitfields.IsZeroBitlist(b)
	})
	if p != nil {
		e.Fail("panic", "judging the bytes %s with %d bits panics: %s", hexs(b), lim, p)
	}
	if bl != wantLen || bz != wantZero {
		e.Fail("length", "the bytes %s: the length is said to be %d bits, all zero: %v; want %d, %v", hexs(b), bl, bz, wantLen, wantZero)
	}
	if (el == nil) != list {
		e.Fail("check", "the bytes %s are a bitlist of at most %d bits: %v; the check says %v", hexs(b), lim, list, el)
	}
	if (ev == nil) != vec {
		e.Fail("check", "the bytes %s are a bitvector of %d bits: %v; the check says %v", hexs(b), lim, vec, ev)
	}
	if (en == nil) != (n > 0 && n <= lim/8+1) || (em == nil) != (n == full) {
		e.Fail("byte length", "%d bytes for %d bits: the answers are %v as bitlist, %v as bitvector", n, lim, en, em)
	}
	msb := uint64(0)
	for msb < 7 && last>>(msb+1) != 0 {
		msb++
	}
	if last > 0 && top != msb {
		e.Fail("bit index", "the highest bit of %08b is said to be bit %d", last, top)
	}
	if (eb == nil) != (last > 0 && msb <= lim) || (ec == nil) != (lim > 0 && (lim%8 == 0 || last>>(lim%8) == 0)) {
		e.Fail("last byte", "last byte %08b with %d bits left, or in all: the answers are %v as bitlist, %v as bitvector", last, lim, eb, ec)
	}
	if string(b) != kept {
		e.Fail("modified", "judging the bytes %s changes them to %s", hexs([]byte(kept)), hexs(b))
	}
	if list {
		z := bitfields.IsZeroBitlist(b)
		s := slot{&ref.T{K: ref.Bitlist}, b, &ref.V{B: b}}
		if l := bitfields.BitlistLen(b); l != s.bits() || z != s.zero() {
			e.Fail("length", "the bytes %s are a bitlist of %d bits, all zero: %v; the answers are %d and %v", hexs(b), s.bits(), s.zero(), l, z)
		}
		e.Probe("foreign bitlist accepted")
	} else {
		e.Probe("foreign bitlist rejected")
	}
	if vec {
		e.Probe("foreign bitvector accepted")
	}
	if o.td == nil {
		return
	}
	// what the checks accept is what decoding accepts
	want := el
	if o.td.R.K == ref.Bitvec {
		want = ev
	}
	r, _ := e.NewRd(b, o.rc).R()
	dst := o.td.Zero()
	if out := e.Decode(r, n, dst, o.td); out.Ok != (want == nil) || out.Ok && string(o.td.Get(dst).B) != kept {
		e.Fail("decode", "the check of the bytes %s says %v, decoding them as %s gives %s", hexs(b), want, o.td.R, out)
	}
	e.Probe("judged by check and decode")
}

// judge finds a bitfield type with lim bits.
func (e *Env) judge(lim uint64) *TD {
	var fit []reflect.Type
	for _, g := range bitTypes {
		if t := ref.Of(g); t.Ptrs == 0 && (t.K == ref.Bitlist && t.Limit == lim || t.K == ref.Bitvec && t.N == lim) {
			fit = append(fit, g)
		}
	}
	if len(fit) == 0 {
		return nil
	}
	return e.TypeOf(fit[e.S.Draw(len(fit))])
}

// transfer sends the value to a new place, over a stream that may fail once.
func (e *Env) transfer(td *TD, v *ref.V, obj reflect.Value, o bitOp) reflect.Value {
	c := o.wc
	if o.fail >= 0 {
		c.Fail, c.Err = o.fail, errReset
	}
	w := e.NewWr(c)
	out := e.Encode(w.W(), obj, td)
	if !out.Ok {
		if out.Pan != nil || o.fail < 0 {
			e.Fail("encode", "encoding %s of %s gives %s", v, td.R, out)
		}
		w = e.NewWr(HealthyW())
		if out = e.Encode(w.W(), obj, td); !out.Ok {
			e.Fail("encode", "encoding %s of %s gives %s", v, td.R, out)
		}
		e.Probe("sent again")
	}
	b := w.Got()
	dst := td.Zero()
	rc := o.rc
	if o.cut >= 0 && o.cut < len(b) {
		rc.Cut, rc.CutErr = o.cut, io.ErrUnexpectedEOF
	}
	r, _ := e.NewRd(b, rc).R()
	out = e.Decode(r, uint64(len(b)), dst, td)
	if rc.Cut >= 0 && rc.Cut < len(b) && !out.Ok && out.Pan == nil {
		r, _ = e.NewRd(b, Plain()).R()
		out = e.Decode(r, uint64(len(b)), dst, td)
		e.Probe("received again")
	}
	if !out.Ok {
		e.Fail("decode", "decoding %s of %s gives %s", v, td.R, out)
	}
	e.Probe("transferred")
	return dst
}
