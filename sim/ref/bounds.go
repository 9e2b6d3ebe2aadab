package ref

import (
	"math"

	"verif.local/sim/rt"
)

func addSat(a, b uint64) uint64 {
	if a > math.MaxUint64-b {
		return math.MaxUint64
	}
	return a + b
}

func mulSat(a, b uint64) uint64 {
	if b != 0 && a > math.MaxUint64/b {
		return math.MaxUint64
	}
	return a * b
}

// Bounds are the sizes of the smallest and the largest value there can be; MaxUint64 stands for everything beyond.
func (t *T) Bounds() (min, max uint64) {
	if t.Fixed {
		return t.FixedSize, t.FixedSize
	}
	part := func(x *T) (min, max uint64) {
		min, max = x.Bounds()
		if !x.Fixed {
			min, max = addSat(4, min), addSat(4, max)
		}
		return
	}
	switch t.K {
	case BasicList:
		return 0, mulSat(t.Limit, t.Size)
	case Bitlist:
		return 1, t.Limit/8 + 1
	case Vec:
		a, b := part(t.Elem)
		return mulSat(t.N, a), mulSat(t.N, b)
	case List:
		_, b := part(t.Elem)
		return 0, mulSat(t.Limit, b)
	}
	for _, f := range t.F {
		a, b := part(f.T)
		min, max = addSat(min, a), addSat(max, b)
	}
	return
}

// Extreme draws a value whose lists are all full (or empty), apart from other of them, that is drawn like by Gen.
// Values over budget are cut short.
func (t *T) Extreme(s *rt.Src, full bool, budget int) *V {
	n := func(limit, per uint64) uint64 {
		if !full {
			return 0
		}
		if per == 0 {
			per = 1
		}
		if m := uint64(budget) / per; limit > m {
			return m
		}
		return limit
	}
	switch t.K {
	case BasicList:
		return &V{B: Content(s, int(n(t.Limit, t.Size)*t.Size), t.IsBool)}
	case Bitlist:
		k := t.Limit
		if !full {
			k = 0
		} else if k > uint64(budget)*8 {
			k = uint64(budget) * 8
		}
		b := Content(s, int(k/8+1), false)
		b[k/8] &= 1<<(k%8) - 1
		b[k/8] |= 1 << (k % 8)
		return &V{B: b}
	case Vec:
		v := &V{L: make([]*V, t.N)}
		for i := range v.L {
			v.L[i] = t.Elem.Extreme(s, full, budget/int(t.N))
		}
		return v
	case List:
		_, per := t.Elem.Bounds()
		if !t.Elem.Fixed {
			per = addSat(per, 4)
		}
		if per > uint64(budget) && full && budget > 100 {
			per = uint64(budget) / 3
		}
		v := &V{L: make([]*V, n(t.Limit, per))}
		for i := range v.L {
			if i < 3 {
				v.L[i] = t.Elem.Extreme(s, full, budget/len(v.L))
			} else {
				v.L[i] = v.L[i%3]
			}
		}
		return v
	case Cont:
		v := &V{L: make([]*V, len(t.F))}
		for i, f := range t.F {
			v.L[i] = f.T.Extreme(s, full, budget/len(t.F))
		}
		return v
	}
	return t.Gen(s, budget)
}
