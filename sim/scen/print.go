package scen

import (
	"bytes"
	"io"
	"reflect"

	zssz "github.com/protolambda/zssz"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C24"] = c24
}

// ---------------------------------------------------------------- C24

// nils makes some of the pointers in v nil.
func (e *Env) nils(t *ref.T, v *ref.V, n *int) *ref.V {
	if *n > 0 && t.Ptrs > 0 && e.S.Draw(3) == 2 {
		*n--
		e.Fault("nil pointer in the value")
		return &ref.V{Nil: true}
	}
	if v.Nil || t.K != ref.Vec && t.K != ref.List && t.K != ref.Cont {
		return v
	}
	o := &ref.V{L: append([]*ref.V(nil), v.L...)}
	for i := range o.L {
		if i > 50 {
			break
		}
		x := t.Elem
		if t.K == ref.Cont {
			x = t.F[i].T
		}
		o.L[i] = e.nils(x, o.L[i], n)
	}
	return o
}

// names appends the field names of v in the order of the format; at each leaf leaf is called with the number of
// names before it.
func names(t *ref.T, v *ref.V, out []string, leaf func(before int, t *ref.T, v *ref.V)) []string {
	if v.Nil {
		return out
	}
	switch t.K {
	case ref.Vec, ref.List:
		for _, x := range v.L {
			out = names(t.Elem, x, out, leaf)
		}
	case ref.Cont:
		for i, f := range t.F {
			out = append(out, fieldName(t, f))
			out = names(f.T, v.L[i], out, leaf)
		}
	default:
		if leaf != nil {
			leaf(len(out), t, v)
		}
	}
	return out
}

// fieldName is the name of the Go field, without the ones of the structs it is embedded in.
func fieldName(t *ref.T, f ref.Field) string {
	g := t.Go
	for g.Kind() == reflect.Ptr {
		g = g.Elem()
	}
	return g.FieldByIndex(f.Path).Name
}

// twist changes one leaf of v: the k-th, counted over all. It returns the number of field names before it.
func twist(s *rt.Src, t *ref.T, v *ref.V) (o *ref.V, before int, ok bool) {
	var leaves []*ref.V
	var at []int
	var ts []*ref.T
	o = v.Clone()
	names(t, o, nil, func(b int, t *ref.T, v *ref.V) {
		if len(v.B) > 0 && len(leaves) < 4000 {
			leaves, at, ts = append(leaves, v), append(at, b), append(ts, t)
		}
	})
	if len(leaves) == 0 {
		return nil, 0, false
	}
	k := s.Draw(len(leaves))
	x, lt := leaves[k], ts[k]
	i := s.Draw(len(x.B))
	switch s.Draw(4) {
	case 2:
		i = 0
	case 3:
		i = len(x.B) - 1
	}
	bit := byte(1) << uint(s.Draw(8))
	switch {
	case lt.IsBool:
		bit = 1
	case lt.K == ref.Bitvec && i == len(x.B)-1 && lt.N%8 != 0:
		bit = 1 << (bit % byte(lt.N%8) & 7)
		if bit >= 1<<(lt.N%8) {
			bit = 1
		}
	case lt.K == ref.Bitlist && i == len(x.B)-1: // stays a valid bitlist
		top := byte(0)
		for b := x.B[i]; b > 1; b >>= 1 {
			top++
		}
		if top == 0 {
			if i == 0 {
				return nil, 0, false
			}
			i, bit = 0, 1
		} else {
			bit = 1
		}
	}
	x.B[i] ^= bit
	return o, at[k], true
}

// locate finds the names in the output one after the other: pos[i] is where the i-th starts, end[i] where it ends.
func locate(out []byte, ns []string) (pos, end []int, missing string) {
	at := 0
	for _, n := range ns {
		from := at
		for {
			i := bytes.Index(out[from:], []byte(n))
			if i < 0 {
				return pos, end, n
			}
			i += from
			if from = i + 1; i > 0 && word(out[i-1]) || i+len(n) < len(out) && word(out[i+len(n)]) {
				continue // part of another word
			}
			pos = append(pos, i)
			at = i + len(n)
			end = append(end, at)
			break
		}
	}
	return
}

func word(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func c24(e *Env) {
	nt := e.S.Pick(6, 2, 1) + 1
	if nt > 1 {
		e.Schedule()
	}
	budget := []int{40, 300, 2000}[e.S.Pick(3, 3, 1)]
	type job struct {
		td     *TD
		v      *ref.V
		obj    reflect.Value
		other  *ref.V
		before int
		indent string
		w      WrCfg
		fault  bool
	}
	td := e.Type()
	objs := map[*ref.V]reflect.Value{}
	var last *ref.V
	progs := make([][]job, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
			if e.S.Draw(3) == 2 {
				td, last = e.Type(), nil
			}
			j := job{td: td, indent: []string{" ", "", "  ", "\t", "      "}[e.S.Draw(5)], w: e.WrCfg()}
			if last == nil || e.S.Draw(3) != 2 {
				last = td.R.Gen(e.S, budget)
				if e.S.Draw(2) == 1 {
					k := e.S.Draw(4) + 1
					last = e.nils(td.R, last, &k)
				}
				objs[last] = td.New(last)
			}
			j.v, j.obj = last, objs[last]
			if o, b, ok := twist(e.S, td.R, j.v); ok {
				j.other, j.before = o, b
			}
			switch e.S.Pick(5, 4, 1, 1) {
			case 1:
				j.w.Fail, j.w.Style, j.w.Err = e.S.Draw([]int{3, 60, 3000}[e.S.Draw(3)]), e.S.Draw(4), []error{errDisk, errFull, io.ErrClosedPipe}[e.S.Draw(3)]
				j.w.Patient, j.fault = true, true
			case 2:
				j.w.Panic, j.fault = e.S.Draw(30), true
			case 3:
				if i == n-1 && t > 0 {
					j.w.Stall, j.fault = e.S.Draw(30), true
				}
			}
			progs[t] = append(progs[t], j)
		}
	}
	e.Desc("%d tasks print values, first of %s", nt, td.R)
	var fs []func()
	for t := range progs {
		prog := progs[t]
		fs = append(fs, func() {
			for _, j := range prog {
				e.printed(j.td, j.v, j.obj, j.other, j.before, j.indent, j.w, j.fault)
				rt.Between()
			}
		})
	}
	if nt == 1 {
		fs[0]()
	} else {
		e.Par(fs...)
	}
}

func (e *Env) print(w *Wr, indent string, obj reflect.Value, td *TD) (o Out) {
	o.Pan = e.try(func() { zssz.Pretty(w.W(), indent, obj.Interface(), td.Def) })
	o.Ok = o.Pan == nil
	e.outNote(o)
	return
}

func (e *Env) printed(td *TD, v *ref.V, obj reflect.Value, other *ref.V, before int, indent string, c WrCfg, fault bool) {
	quiet := HealthyW()
	quiet.Yield = c.Yield
	full := e.NewWr(quiet)
	if o := e.print(full, indent, obj, td); !o.Ok {
		e.Fail("panic", "printing %s of %s panics: %s", v, td.R, o.Pan)
	}
	w := e.NewWr(c)
	o := e.print(w, indent, obj, td)
	if o.Pan != nil && !o.Pan.Inj {
		e.Fail("panic", "printing %s of %s to a failing sink panics: %s", v, td.R, o.Pan)
	}
	if fault {
		e.Probe("printed to a failing sink")
	}
	switch {
	case !fault && !bytes.Equal(w.Got(), full.Got()):
		e.Fail("unstable", "printing %s of %s twice gives %q and %q", v, td.R, full.Got(), w.Got())
	case !bytes.HasPrefix(full.Got(), w.Got()):
		e.Fail("bytes", "printing %s of %s to a failing sink writes %q, which is no beginning of %q", v, td.R, w.Got(), full.Got())
	}
	if g := td.Get(obj); !ref.Equal(g, v) {
		e.Fail("modified", "printing changes %s of %s to %s", v, td.R, g)
	}
	// the indent is nothing but what is put in front
	w = e.NewWr(quiet)
	if o := e.print(w, "\x01", obj, td); !o.Ok || !bytes.Equal(bytes.ReplaceAll(w.Got(), []byte("\x01"), []byte(indent)), full.Got()) {
		e.Fail("indent", "printing %s of %s with indents %q and %q gives %q and %q (%s)", v, td.R, indent, "\x01", full.Got(), w.Got(), o)
	}
	ns := names(td.R, v, nil, nil)
	if len(ns) > 0 && !bytes.Contains(w.Got(), []byte("\x01")) {
		e.Fail("indent", "printing %s of %s with indent %q gives %q", v, td.R, "\x01", w.Got())
	}
	_, end, missing := locate(full.Got(), ns)
	if missing != "" {
		e.Fail("field", "printing %s of %s: field %s is missing where it is expected in %q", v, td.R, missing, full.Got())
	}
	// an equal value elsewhere
	w = e.NewWr(quiet)
	if o := e.print(w, indent, td.New(v), td); !o.Ok || !bytes.Equal(w.Got(), full.Got()) {
		e.Fail("unequal", "printing two values equal to %s of %s gives %q and %q (%s)", v, td.R, full.Got(), w.Got(), o)
	}
	if other == nil {
		return
	}
	// a value that differs in one leaf
	w = e.NewWr(quiet)
	if o := e.print(w, indent, td.New(other), td); !o.Ok || bytes.Equal(w.Got(), full.Got()) {
		e.Fail("content", "%s and %s of %s are both printed as %q (%s)", v, other, td.R, w.Got(), o)
	}
	_, end2, missing := locate(w.Got(), ns)
	if missing != "" {
		e.Fail("field", "printing %s of %s: field %s is missing where it is expected in %q", other, td.R, missing, w.Got())
	}
	d := 0
	for d < len(w.Got()) && d < len(full.Got()) && w.Got()[d] == full.Got()[d] {
		d++
	}
	if before > 0 && d < end[before-1] {
		e.Fail("place", "%s and %s of %s differ behind the name of field %d (%s), what is printed differs before: %q, %q", v, other, td.R, before-1, ns[before-1], full.Got(), w.Got())
	}
	if before < len(ns) && !bytes.Equal(full.Got()[end[before]:], w.Got()[end2[before]:]) {
		e.Fail("place", "%s and %s of %s differ before the name of field %d (%s) only, what is printed differs behind it: %q, %q", v, other, td.R, before, ns[before], full.Got(), w.Got())
	}
	e.Probe("values printed that differ in one leaf")
}
