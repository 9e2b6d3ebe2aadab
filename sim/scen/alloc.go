package scen

import (
	"encoding/binary"
	"reflect"
	"runtime"

	"verif.local/sim/ref"
)

func init() {
	Scenarios["C12"] = c12
}

// cost bounds what decoding may allocate: a + k times the wire bytes of a value of the type.
type cost struct{ a, k float64 }

var costs = map[reflect.Type]cost{}

func costOf(t *ref.T) cost {
	if c, ok := costs[t.Go]; ok {
		return c
	}
	c := cost{a: 512, k: 4}
	switch t.K {
	case ref.BasicList, ref.Bitlist:
		c.k = 8
	case ref.Vec:
		e := costOf(t.Elem)
		c = cost{512 + float64(t.N)*(e.a+512), e.k}
	case ref.List:
		e := costOf(t.Elem)
		w := t.Elem.FixedSize
		if !t.Elem.Fixed {
			w = t.Elem.Min + 4
		}
		if w == 0 {
			w = 1
		}
		c.k = e.k + (2*float64(t.Elem.Go.Size())+16+e.a+512)/float64(w)
	case ref.Cont:
		for _, f := range t.F {
			e := costOf(f.T)
			c.a += e.a + 512
			if e.k > c.k {
				c.k = e.k
			}
		}
	}
	g := t.Go
	for i := 0; i < t.Ptrs; i++ {
		g = g.Elem()
		c.a += 64 + 2*float64(g.Size())
	}
	costs[t.Go] = c
	return c
}

const satur = uint64(1) << 60

func satAdd(a, b uint64) uint64 {
	if a+b > satur || a > satur || b > satur {
		return satur
	}
	return a + b
}

func satMul(a, b uint64) uint64 {
	if a != 0 && b > satur/a {
		return satur
	}
	return a * b
}

// fuzzMax is the largest input fuzz mode can make use of.
func fuzzMax(t *ref.T) uint64 {
	switch t.K {
	case ref.BasicList, ref.Bitlist:
		return satAdd(t.Max, 8)
	case ref.Vec:
		return satMul(t.N, fuzzMax(t.Elem))
	case ref.List:
		return satAdd(8, satMul(t.Limit, fuzzMax(t.Elem)))
	case ref.Cont:
		n := uint64(0)
		for _, f := range t.F {
			n = satAdd(n, fuzzMax(f.T))
		}
		return n
	}
	return t.FixedSize
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// hostile draws a byte string that claims a lot, and the length to announce with it.
func (e *Env) hostile(td *TD, budget int) (b []byte, n uint64) {
	v := td.R.Gen(e.S, budget)
	b = td.R.Enc(v)
	if len(b) > 1 && e.S.Draw(3) == 2 {
		b = b[:e.S.Draw(len(b))]
		e.Fault("truncated")
	}
	max := td.R.Max
	limit := uint64(float64(96<<20) / costOf(td.R).k)
	if limit > 1<<24 {
		limit = 1 << 24
	}
	if max <= limit { // small type: announce anything at all
		switch e.S.Pick(2, 2, 4) {
		case 0:
			n = uint64(len(b))
		case 1:
			n = max + uint64(e.S.Draw(9))
		case 2:
			n = []uint64{max * 2, max*8 + 64, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 1 << 32, 1<<32 + 4, 1 << 40, 1 << 48, 1 << 62, 1<<63 - 8, 1 << 63, ^uint64(0), ^uint64(0) - 7}[e.S.Draw(16)]
			e.Fault("huge announced length")
		}
		if td.R.Size > 1 && e.S.Draw(2) == 1 {
			n = n / td.R.Size * td.R.Size
		}
		if e.S.Draw(2) == 1 {
			n = n / 8 * 8
		}
	} else {
		switch e.S.Pick(2, 3, 3) {
		case 0:
			n = uint64(len(b))
		case 1:
			n = uint64(len(b)) + uint64(e.S.Draw(1<<16))
			e.Fault("more announced than present")
		case 2:
			n = limit - uint64(e.S.Draw(64))
			e.Fault("huge announced length")
		}
	}
	// offsets that claim as many elements as possible
	offs, _ := td.R.Layout(v)
	for k := e.S.Draw(4); k > 0; k-- {
		at := 0
		if len(offs) > 0 && e.S.Draw(3) != 2 {
			at = offs[e.S.Draw(len(offs))]
			if e.S.Draw(2) == 1 {
				at = offs[0]
			}
		} else if e.S.Draw(2) == 1 && len(b) > 4 {
			at = e.S.Draw(len(b)/4) * 4
		}
		if at+4 > len(b) {
			continue
		}
		x := uint32(n)
		switch e.S.Draw(8) {
		case 0:
			x = x / 4 * 4
		case 1:
			x = 0xfffffffc
		case 2:
			x = 0x7ffffffc
		case 3:
			x = uint32(4 * (1 + e.S.Draw(1<<20)))
		case 4:
			x = uint32(1) << uint(e.S.Draw(32))
		case 5:
			x = uint32(n/2) / 4 * 4
		case 6:
			x = uint32(len(b)) / 4 * 4
		case 7:
			x = binary.LittleEndian.Uint32(b[at:]) + uint32(4*(1+e.S.Draw(1000)))
		}
		binary.LittleEndian.PutUint32(b[at:], x)
		e.Fault("hostile offset")
	}
	return
}

func c12(e *Env) {
	td := e.Type()
	budget := e.Budget()
	if budget > 40000 {
		budget = 40000
	}
	dst := td.Zero()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		mode := e.S.Pick(4, 2, 2)
		var b []byte
		var n, most uint64
		if mode == 2 {
			b = e.fuzzInput(td, budget)
			n = uint64(len(b))
			most = fuzzMax(td.R)
			if e.S.Draw(2) == 1 {
				n = []uint64{n + 1000, 1 << 16, 1 << 20, 1 << 22}[e.S.Draw(4)]
				if most < 1<<20 && e.S.Draw(2) == 1 {
					n = []uint64{1 << 24, 1 << 30, 1 << 40, 1 << 62}[e.S.Draw(4)]
				}
				e.Fault("huge announced length")
			}
			if n < td.Def.FuzzMinLen() {
				n = td.Def.FuzzMinLen()
			}
		} else {
			b, n = e.hostile(td, budget)
			most = td.R.Max
		}
		c := e.RdCfg()
		c.Wrap = []int{0, 1, 2}[e.S.Draw(3)]
		if e.S.Draw(3) == 2 {
			c.Cut, c.CutErr = e.S.Draw(len(b)+1), e.cutErr()
		}
		if e.S.Draw(2) == 0 {
			dst = td.Zero()
		}
		what := []string{"decoding", "dry-checking", "fuzz-decoding"}[mode]
		e.Desc("%s %s: %d bytes, announced %d (%s)", what, td.R, len(b), n, c)
		if n < most {
			most = n
		}
		k := costOf(td.R)
		bound := 64<<10 + 2*(k.a+k.k*float64(most))
		r, _ := e.NewRd(b, c).R()
		before := totalAlloc()
		var o Out
		switch mode {
		case 0:
			o = e.Decode(r, n, dst, td)
		case 1:
			o = e.Dry(r, n, td)
		case 2:
			o = e.Fuzz(r, n, dst, td)
		}
		used := totalAlloc() - before
		if o.Pan != nil {
			e.Fail("panic", "%s %s (%d bytes, announced %d) panics: %s", what, td.R, len(b), n, o.Pan)
		}
		if used > 16<<10 {
			e.Probe("more than 16 KB allocated")
		}
		if float64(used) > bound/2 {
			e.Probe("above half of the bound")
		}
		if float64(used) > bound {
			e.Fail("allocation", "%s %s allocates %d bytes; %d bytes are present, %d announced, the type permits %d: the bound is %.0f (outcome: %s)", what, td.R, used, len(b), n, most, bound, o)
		}
		if used > 16<<20 {
			dst = td.Zero()
			runtime.GC()
		}
	}
}
