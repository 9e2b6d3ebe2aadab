package scen

import (
	"fmt"
	"io"
	"reflect"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C23"] = c23
}

// ---------------------------------------------------------------- C23

// advertised compares what a definition says about sizes with what values of the type can have.
func (e *Env) advertised(td *TD) {
	d, t := td.Def, td.R
	min, max := t.Bounds()
	if t.Fixed != d.IsFixed() {
		e.Fail("fixed", "%s: IsFixed is %v", t, d.IsFixed())
	}
	if t.Fixed && (d.FixedLen() != t.FixedSize || d.MinLen() != t.FixedSize || d.MaxLen() != t.FixedSize) {
		e.Fail("fixed", "every value of %s has %d bytes; the definition says %d, at least %d, at most %d", t, t.FixedSize, d.FixedLen(), d.MinLen(), d.MaxLen())
	}
	if d.MinLen() > min {
		e.Fail("minimum", "values of %s can have %d bytes, the definition says at least %d", t, min, d.MinLen())
	}
	if d.MaxLen() < max {
		e.Fail("maximum", "values of %s can have %d bytes, the definition says at most %d", t, max, d.MaxLen())
	}
	if d.FuzzMinLen() > d.FuzzMaxLen() {
		e.Fail("fuzz bounds", "%s: fuzz mode is said to take at least %d and at most %d bytes", t, d.FuzzMinLen(), d.FuzzMaxLen())
	}
}

func (e *Env) within(td *TD, n uint64) bool { return td.Def.MinLen() <= n && n <= td.Def.MaxLen() }

func c23(e *Env) {
	nt := e.S.Pick(6, 2, 1) + 1
	if nt > 1 {
		e.Schedule()
	}
	budget := e.Budget()
	var tds []*TD
	for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
		var td *TD
		switch e.S.Pick(6, 3, 1) {
		case 0:
			td = e.Type()
		case 1:
			g := catalog.Vast[e.S.Draw(len(catalog.Vast))]
			switch e.S.Draw(6) {
			case 3:
				g = reflect.ArrayOf(e.S.Draw(4)+1, g)
			case 4:
				g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: catalog.Draw(e.S)}, {Name: "B", Type: g}})
			case 5:
				g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: g}, {Name: "B", Type: reflect.TypeOf(uint64(0))}, {Name: "C", Type: catalog.Vast[e.S.Draw(len(catalog.Vast))]}})
			}
			td = e.TypeOf(g)
		case 2:
			td = e.TypeOf(catalog.Shapes[e.S.Draw(len(catalog.Shapes))])
		}
		e.advertised(td)
		tds = append(tds, td)
	}
	type msg struct {
		td   *TD
		v    *ref.V
		b    []byte
		ann  uint64
		kind int // 0 a value, 1 an announcement out of bounds, 2 fuzz mode, 3 a value over a failing stream
		dry  bool
		c    RdCfg
		w    WrCfg
	}
	progs := make([][]msg, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(5)+1; i < n; i++ {
			m := msg{td: tds[e.S.Draw(len(tds))], dry: e.S.Draw(3) == 2, c: e.RdCfg(), w: e.WrCfg()}
			switch e.S.Pick(3, 2, 1) {
			case 0:
				m.v = e.Gen(m.td, budget)
			case 1: // everything full
				m.v = m.td.R.Extreme(e.S, true, []int{300, 3000, 30000}[e.S.Draw(3)])
				e.Probe("value with full lists")
			case 2:
				m.v = m.td.R.Extreme(e.S, false, 100)
				e.Probe("value with empty lists")
			}
			m.b = m.td.R.Enc(m.v)
			m.ann = uint64(len(m.b))
			switch m.kind = e.S.Pick(6, 3, 4, 1); m.kind {
			case 1:
				min, max := m.td.R.Bounds()
				out := uint64(e.S.Draw(4) + 1)
				switch {
				case e.S.Draw(2) == 0 && min > 0:
					if out > min {
						out = min
					}
					m.ann = min - out
				case max < 1<<17:
					m.ann = max + out
				default:
					m.kind = 0
				}
				if m.kind == 1 {
					e.Fault("announced length no value has")
					if m.ann <= uint64(len(m.b)) {
						m.b = m.b[:m.ann]
					} else {
						m.b = append(m.b, make([]byte, m.ann-uint64(len(m.b)))...)
					}
				}
			case 2:
				m.b = randBytes(uint64(e.S.Draw(1<<30)), int(m.td.Def.FuzzMinLen())+e.S.Draw([]int{1, 1, 50, 3000}[e.S.Draw(4)]))
				if e.S.Draw(3) == 2 { // every announced count as high as it can be
					for q := range m.b {
						m.b[q] = 0xff
					}
				}
				m.ann = uint64(len(m.b))
			case 3:
				if len(m.b) > 0 {
					m.c.Cut, m.c.CutErr = e.S.Draw(len(m.b)), []error{io.EOF, io.ErrUnexpectedEOF, errReset}[e.S.Draw(3)]
				}
			}
			progs[t] = append(progs[t], m)
		}
	}
	e.Desc("%d parties exchange values of %s and check announced lengths against the definitions' bounds", nt, tds[0].R)
	var fs []func()
	for t := range progs {
		prog := progs[t]
		fs = append(fs, func() {
			for _, m := range prog {
				td := m.td
				dst := td.Zero()
				r, _ := e.NewRd(m.b, m.c).R()
				switch m.kind {
				case 0, 3:
					src := td.New(m.v)
					if o := e.Size(src, td); !o.Ok || !e.within(td, o.N) {
						e.Fail("size", "the size of a value of %s is %s, the definition says at least %d, at most %d (%s)", td.R, o, td.Def.MinLen(), td.Def.MaxLen(), m.v)
					}
					w := e.NewWr(m.w)
					if o := e.Encode(w.W(), src, td); !o.Ok || !e.within(td, uint64(len(w.Got()))) {
						e.Fail("encoded size", "a value of %s is encoded in %d bytes, the definition says at least %d, at most %d (%s, %s)", td.R, len(w.Got()), td.Def.MinLen(), td.Def.MaxLen(), o, m.v)
					}
					if !e.within(td, m.ann) {
						e.Fail("refused", "a party that goes by the bounds %d and %d of %s refuses a value of %d bytes", td.Def.MinLen(), td.Def.MaxLen(), td.R, m.ann)
					}
					if m.c.Cut >= 0 && m.c.Cut < len(m.b) {
						if o := e.Decode(r, m.ann, dst, td); o.Ok || o.Pan != nil {
							e.Fail("cut", "decoding %s from a stream that fails after %d of %d bytes: %s", td.R, m.c.Cut, len(m.b), o)
						}
						continue
					}
					if m.dry {
						if o := e.Dry(r, m.ann, td); !o.Ok {
							e.Fail("refused", "the dry check of a value of %s in %d bytes gives %s", td.R, m.ann, o)
						}
						continue
					}
					if o := e.Decode(r, m.ann, dst, td); !o.Ok || !ref.Equal(td.Get(dst), m.v) {
						e.Fail("refused", "decoding a value of %s in %d bytes gives %s", td.R, m.ann, o)
					}
				case 1:
					var o Out
					what := "decoding"
					if m.dry {
						what = "dry-checking"
						o = e.Dry(r, m.ann, td)
					} else {
						o = e.Decode(r, m.ann, dst, td)
					}
					if o.Ok || o.Pan != nil {
						e.Fail("accepted", "%s %d bytes as %s, where no value has this size, gives %s", what, m.ann, td.R, o)
					}
				case 2:
					o := e.Fuzz(r, m.ann, dst, td)
					if !o.Ok {
						e.Fail("fuzz", "fuzz mode of %s refuses %d bytes, the definition says it needs %d: %s", td.R, len(m.b), td.Def.FuzzMinLen(), o)
					}
					if o.N < td.Def.FuzzMinLen() || o.N > td.Def.FuzzMaxLen() {
						e.Fail("fuzz bounds", "fuzz mode of %s takes %d bytes, the definition says at least %d, at most %d", td.R, o.N, td.Def.FuzzMinLen(), td.Def.FuzzMaxLen())
					}
					if o := e.Size(dst, td); !o.Ok || !e.within(td, o.N) {
						e.Fail("size", "fuzz mode gives a value of %s whose size is %s, the definition says at least %d, at most %d", td.R, o, td.Def.MinLen(), td.Def.MaxLen())
					}
				}
				rt.Between()
			}
		})
	}
	if nt == 1 {
		fs[0]()
	} else {
		e.Par(fs...)
	}
	for _, td := range tds { // bounds do not change, and another definition has the same
		e.advertised(td)
		n := e.Fresh(td)
		a := fmt.Sprint(td.Def.MinLen(), td.Def.MaxLen(), td.Def.FuzzMinLen(), td.Def.FuzzMaxLen())
		if b := fmt.Sprint(n.Def.MinLen(), n.Def.MaxLen(), n.Def.FuzzMinLen(), n.Def.FuzzMaxLen()); a != b {
			e.Fail("unstable", "two definitions of %s advertise %s and %s", td.R, a, b)
		}
	}
}
