package scen

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"

	"verif.local/sim/ref"
)

func init() {
	Scenarios["C06"] = c06
	Scenarios["C10"] = c10
}

// fillOmitted puts recognisable content into fields that are not part of the format and returns a
// check that it is still there. Elements of lists are only covered when lists is set.
func fillOmitted(t *ref.T, rv reflect.Value, salt int, checks []func() error) []func() error {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return checks
		}
		rv = rv.Elem()
	}
	switch t.K {
	case ref.Vec:
		for i := 0; i < rv.Len(); i++ {
			checks = fillOmitted(t.Elem, rv.Index(i), salt*31+i, checks)
		}
	case ref.Cont:
		for k, p := range t.Omit {
			f := rv.FieldByIndex(p)
			want := sentinel(f.Type(), salt*7+k)
			f.Set(want)
			name := t.Go.String()
			path := fmt.Sprint(p)
			checks = append(checks, func() error {
				if !reflect.DeepEqual(f.Interface(), want.Interface()) {
					return fmt.Errorf("field %s of %s, which is not part of the format, changed from %v to %v", path, name, want.Interface(), f.Interface())
				}
				return nil
			})
		}
		for i, f := range t.F {
			checks = fillOmitted(f.T, rv.FieldByIndex(f.Path), salt*13+i, checks)
		}
	}
	return checks
}

// sentinel is a recognisable value of any Go type.
func sentinel(g reflect.Type, salt int) reflect.Value {
	v := reflect.New(g).Elem()
	switch g.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("keep%d", salt))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(salt%200 + 17))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Array:
		for i := 0; i < g.Len(); i++ {
			v.Index(i).Set(sentinel(g.Elem(), salt+i))
		}
	case reflect.Slice:
		s := reflect.MakeSlice(g, 2, 3)
		for i := 0; i < 2; i++ {
			s.Index(i).Set(sentinel(g.Elem(), salt+i))
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(g)
		m.SetMapIndex(sentinel(g.Key(), salt), reflect.Zero(g.Elem()))
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			v.Field(i).Set(sentinel(g.Field(i).Type, salt+i))
		}
	case reflect.Ptr:
		p := reflect.New(g.Elem())
		p.Elem().Set(sentinel(g.Elem(), salt))
		v.Set(p)
	case reflect.Interface:
		v.Set(reflect.ValueOf(fmt.Sprint("iface", salt)))
	}
	return v
}

// parts lists addressable sub-values of a value, with their types.
type part struct {
	t    *ref.T
	rv   reflect.Value
	path []int // position in the model value
}

func parts(t *ref.T, rv reflect.Value, path []int, out []part, max int) []part {
	if len(out) >= max {
		return out
	}
	if len(path) > 0 {
		out = append(out, part{t, rv, append([]int(nil), path...)})
	}
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return out
		}
		rv = rv.Elem()
	}
	switch t.K {
	case ref.Vec, ref.List:
		for i := 0; i < rv.Len() && i < 6; i++ {
			out = parts(t.Elem, rv.Index(i), append(path, i), out, max)
		}
	case ref.Cont:
		for i, f := range t.F {
			out = parts(f.T, rv.FieldByIndex(f.Path), append(path, i), out, max)
		}
	}
	return out
}

func (v0 *part) replace(root *ref.V, nv *ref.V) *ref.V {
	r := root.Clone()
	x := r
	for _, i := range v0.path[:len(v0.path)-1] {
		x = x.L[i]
	}
	x.L[v0.path[len(v0.path)-1]] = nv
	return r
}

// overlap reports two separately allocated pieces of memory that intersect.
func overlap(a []ref.Region) error {
	s := append([]ref.Region(nil), a...)
	sort.Slice(s, func(i, j int) bool { return s[i].Start < s[j].Start })
	for i := 1; i < len(s); i++ {
		if s[i].Start < s[i-1].End {
			return fmt.Errorf("memory of %s and %s overlaps", s[i-1].What, s[i].What)
		}
	}
	return nil
}

// overlap2 reports a piece of a that intersects one of b.
func overlap2(a, b []ref.Region) error {
	s := append([]ref.Region(nil), b...)
	sort.Slice(s, func(i, j int) bool { return s[i].Start < s[j].Start })
	max := make([]uintptr, len(s)) // the furthest end up to here
	for i, r := range s {
		max[i] = r.End
		if i > 0 && max[i-1] > r.End {
			max[i] = max[i-1]
		}
	}
	for _, r := range a {
		i := sort.Search(len(s), func(i int) bool { return s[i].Start >= r.End })
		if i > 0 && max[i-1] > r.Start {
			return fmt.Errorf("memory of %s and %s overlaps", r.What, s[i-1].What)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

// feed is an input buffer the application owns and reuses.
func (e *Env) feed(b []byte, c RdCfg) (r interface {
	Read([]byte) (int, error)
}, buf []byte) {
	buf = append(make([]byte, 0, len(b)+32), b...)
	switch e.S.Pick(4, 2, 1) {
	case 1:
		return bytes.NewReader(buf), buf
	case 2:
		return bytes.NewBuffer(buf), buf
	}
	x, _ := e.NewRd(buf, c).R()
	return x, buf
}

func c06(e *Env) {
	e.isJumbo()
	td := e.Type()
	budget := e.Budget()
	g := e.S.Draw(4) == 3
	if g { // collections in between, so that recycled memory is really reused
		e.Probe("with collections")
	}
	dst := td.Zero()
	if e.S.Draw(3) == 2 {
		dst = td.New(e.Gen(td, budget))
	}
	var keep []func() error
	omit := e.S.Draw(2) == 1
	other := td.Zero() // decoded earlier, must stay as it is
	var otherV *ref.V
	// what the application has kept of earlier contents of the destination: its memory is not
	// free, later values that are decoded elsewhere must not be put there
	var held []ref.Region
	var pins []unsafe.Pointer
	steps := e.S.Draw(5) + 1
	for k := 0; k < steps; k++ {
		if omit {
			keep = fillOmitted(td.R, dst.Elem(), k+1, nil)
		}
		if len(pins) < 3000 && e.S.Draw(2) == 1 {
			held = td.R.Regions(dst.Elem(), "held", held)
			pins = td.R.Pins(dst.Elem(), pins)
		}
		switch e.S.Pick(5, 3, 2, 2, 1, 1) {
		case 0: // decode something valid
			v := e.Gen(td, budget)
			b := td.R.Enc(v)
			c := e.RdCfg()
			e.Desc("decode %s (%d bytes)", td.R, len(b))
			e.histDecode(td, dst, b, c, uint64(len(b)), keep)
		case 1: // damaged
			b, n := e.damaged(td, budget)
			c := e.RdCfg()
			e.Desc("decode damaged (%d bytes)", len(b))
			e.histDecode(td, dst, b, c, n, keep)
		case 2: // interrupted
			v := e.Gen(td, budget)
			b := td.R.Enc(v)
			c := e.RdCfg()
			c.Cut, c.CutErr = e.cutPoint(td, v, b), e.cutErr()
			e.Desc("decode cut at %d of %d", c.Cut, len(b))
			e.histDecode(td, dst, b, c, uint64(len(b)), keep)
		case 3: // fuzz mode
			in := e.fuzzInput(td, budget)
			c := e.RdCfg()
			e.Desc("fuzz-decode %d bytes", len(in))
			e.histFuzz(td, dst, in, c, keep)
		case 4: // modified by the application
			v := e.Gen(td, budget)
			td.R.Set(dst.Elem(), v, e.S.Draw(2) == 1)
			e.Desc("modify in place")
		case 5: // decode into a part of it only
			e.partDecode(td, dst, budget)
		}
		if otherV != nil {
			if gv := td.Get(other); !ref.Equal(gv, otherV) {
				e.Fail("other changed", "%s: a value decoded earlier changed from %s to %s while another destination was used", td.R, otherV, gv)
			}
		}
		if e.S.Draw(3) == 2 {
			v := e.Gen(td, budget)
			b := td.R.Enc(v)
			other = td.Zero()
			r, buf := e.feed(b, Plain())
			if o := e.Decode(r, uint64(len(b)), other, td); o.Ok {
				otherV = v
				if len(held) > 0 {
					if err := overlap2(td.R.Regions(other.Elem(), "other", nil), held); err != nil {
						e.Fail("shared memory", "%s: decoded elsewhere while contents of an earlier value were still in use: %v", td.R, err)
					}
				}
				if gv := td.Get(other); !ref.Equal(gv, v) {
					otherV = gv
				}
				for i := range buf {
					buf[i] ^= 0xa5
				}
			} else {
				otherV = nil
			}
		}
		if otherV != nil && e.S.Draw(2) == 1 {
			// two values in one address space: nothing may be shared
			rs := td.R.Regions(dst.Elem(), "dst", nil)
			rs = td.R.Regions(other.Elem(), "other", rs)
			if err := overlap(rs); err != nil {
				e.Fail("shared memory", "%s: %v", td.R, err)
			}
		}
	}
	runtime.KeepAlive(pins)
}

// fresh decodes the same bytes into a zero destination.
func (e *Env) histDecode(td *TD, dst reflect.Value, b []byte, c RdCfg, n uint64, keep []func() error) {
	fresh := td.Zero()
	fr, _ := e.NewRd(b, c).R()
	fo := e.Decode(fr, n, fresh, td)
	var fv *ref.V
	if fo.Ok {
		fv = td.Get(fresh)
	}
	r, buf := e.feed(b, c)
	cut := c.Cut >= 0
	if cut {
		x, _ := e.NewRd(buf, c).R()
		r = x
	}
	o := e.Decode(r, n, dst, td)
	if o.Pan != nil && fo.Pan == nil {
		e.Fail("panic", "%s: decoding %s into a used destination panics: %s", td.R, hexs(b), o.Pan)
	}
	if o.Ok != fo.Ok {
		e.Fail("verdict", "%s: %s: into a used destination %s, into a fresh one %s", td.R, hexs(b), o, fo)
	}
	for i := range buf[:cap(buf)] { // the application reuses its buffer
		buf[:cap(buf)][i] ^= 0x5a
	}
	if o.Ok {
		if got := td.Get(dst); !ref.Equal(got, fv) {
			e.Fail("value", "%s: %s decodes to %s in a used destination, %s in a fresh one", td.R, hexs(b), got, fv)
		}
		// a fresh decode is independent of this one
		if gv := td.Get(fresh); !ref.Equal(gv, fv) {
			e.Fail("shared memory", "%s: a decoded value changed from %s to %s when the same bytes were decoded elsewhere", td.R, fv, gv)
		}
		rs := td.R.Regions(dst.Elem(), "dst", nil)
		rs = td.R.Regions(fresh.Elem(), "fresh", rs)
		if err := overlap(rs); err != nil {
			e.Fail("shared memory", "%s: %v", td.R, err)
		}
	} else {
		e.Probe("failed decode in history")
	}
	for _, k := range keep {
		if err := k(); err != nil {
			e.Fail("omitted field", "%s: decoding %s: %v", td.R, hexs(b), err)
		}
	}
}

func (e *Env) histFuzz(td *TD, dst reflect.Value, in []byte, c RdCfg, keep []func() error) {
	fresh := td.Zero()
	fr, _ := e.NewRd(in, c).R()
	fo := e.Fuzz(fr, uint64(len(in)), fresh, td)
	r, buf := e.feed(in, c)
	o := e.Fuzz(r, uint64(len(in)), dst, td)
	if o.Pan != nil && fo.Pan == nil {
		e.Fail("panic", "%s: fuzz-decoding %s into a used destination panics: %s", td.R, hexs(in), o.Pan)
	}
	if o.Ok != fo.Ok || o.Ok && o.N != fo.N {
		e.Fail("verdict", "%s: fuzz mode of %s: into a used destination %s, into a fresh one %s", td.R, hexs(in), o, fo)
	}
	for i := range buf[:cap(buf)] {
		buf[:cap(buf)][i] ^= 0x5a
	}
	if o.Ok {
		if a, b := td.Get(dst), td.Get(fresh); !ref.Equal(a, b) {
			e.Fail("value", "%s: fuzz mode of %s gives %s in a used destination, %s in a fresh one", td.R, hexs(in), a, b)
		}
	}
	for _, k := range keep {
		if err := k(); err != nil {
			e.Fail("omitted field", "%s: fuzz-decoding %s: %v", td.R, hexs(in), err)
		}
	}
}

// partDecode decodes into one part of a value; the rest must stay as it was.
func (e *Env) partDecode(td *TD, dst reflect.Value, budget int) {
	v := e.Gen(td, budget)
	b := td.R.Enc(v)
	if o := e.Decode(e.NewRd(b, Plain()), uint64(len(b)), dst, td); !o.Ok {
		return
	}
	ps := parts(td.R, dst.Elem(), nil, nil, 60)
	if len(ps) == 0 {
		return
	}
	before := td.Get(dst)
	p := ps[e.S.Draw(len(ps))]
	sub := e.TypeOf(p.t.Go)
	nv := p.t.Gen(e.S, budget)
	nb := p.t.Enc(nv)
	e.Desc("decode %s into part %v", p.t, p.path)
	o := e.Decode(e.NewRd(nb, Plain()), uint64(len(nb)), p.rv.Addr(), sub)
	if !o.Ok {
		e.Fail("verdict", "%s: decoding valid %s into part %v of a value fails: %s", td.R, p.t, p.path, o)
	}
	if got, want := td.Get(dst), p.replace(before, nv); !ref.Equal(got, want) {
		e.Fail("neighbour", "%s: decoding into part %v: value becomes %s, want %s", td.R, p.path, got, want)
	}
}

// ---------------------------------------------------------------- C10

func c10(e *Env) {
	e.isJumbo()
	td := e.Type()
	budget := e.Budget()
	dst := td.Zero()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		in := e.fuzzInput(td, budget)
		n := len(in)
		c := e.RdCfg()
		data := in
		if e.S.Draw(3) == 2 { // more follows on the stream than is offered
			data = append(append([]byte(nil), in...), ref.Content(e.S, 50, false)...)
		}
		rd := e.NewRd(data, c)
		r, pos := rd.R()
		if e.S.Draw(2) == 0 {
			dst = td.Zero()
		}
		e.Desc("%s: input %s (%s)", td.R, hexs(in), c)
		o := e.Fuzz(r, uint64(n), dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: fuzz mode of %s panics: %s (%s)", td.R, hexs(in), o.Pan, c)
		}
		if !o.Ok {
			e.Fail("refused", "%s: fuzz mode of %d bytes %s (minimum %d) fails: %v (%s)", td.R, n, hexs(in), td.Def.FuzzMinLen(), o.Err, c)
		}
		if o.N > uint64(n) {
			e.Fail("count", "%s: fuzz mode reports %d bytes consumed of %d", td.R, o.N, n)
		}
		if uint64(pos()) != o.N {
			e.Fail("count", "%s: fuzz mode took %d bytes from the stream but reports %d (%s)", td.R, pos(), o.N, c)
		}
		v := td.Get(dst)
		if err := td.R.Valid(v); err != nil {
			e.Fail("invalid", "%s: fuzz mode of %s gives an invalid value %s: %v", td.R, hexs(in), v, err)
		}
		// delivered in another way, into another destination
		c2 := e.RdCfg()
		r2, pos2 := e.NewRd(in, c2).R()
		d2 := td.Zero()
		o2 := e.Fuzz(r2, uint64(n), d2, td)
		if !o2.Ok || o2.N != o.N || uint64(pos2()) != o2.N {
			e.Fail("delivery", "%s: fuzz mode of %s: %s (%s), but %s when delivered as %s", td.R, hexs(in), o, c, o2, c2)
		}
		if v2 := td.Get(d2); !ref.Equal(v, v2) {
			e.Fail("delivery", "%s: fuzz mode of %s: value %s (%s), but %s when delivered as %s", td.R, hexs(in), v, c, v2, c2)
		}
		if e.S.Draw(3) != 0 {
			continue
		}
		h := hashes[0]
		if ro := e.Root(e.NewHs(h), dst, td); ro.Pan != nil {
			e.Fail("unusable", "%s: hashing the value %s from fuzz mode panics: %s", td.R, v, ro.Pan)
		}
		w := e.NewWr(HealthyW())
		eo := e.Encode(w, dst, td)
		if !eo.Ok {
			e.Fail("unusable", "%s: the value %s from fuzz mode cannot be encoded: %s", td.R, v, eo)
		}
		back := td.Zero()
		do := e.Decode(e.NewRd(w.Got(), Plain()), uint64(len(w.Got())), back, td)
		if !do.Ok || !ref.Equal(td.Get(back), v) {
			e.Fail("unusable", "%s: the value %s from fuzz mode encodes to %s, which decodes to %s: %s", td.R, v, hexs(w.Got()), td.Get(back), do)
		}
	}
}
