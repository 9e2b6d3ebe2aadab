package ref

import "verif.local/sim/rt"

// Gen draws a valid value of t of roughly at most budget encoded bytes.
func (t *T) Gen(s *rt.Src, budget int) *V {
	if budget < 0 {
		budget = 0
	}
	switch t.K {
	case Bool:
		return &V{B: []byte{byte(s.Draw(2))}}
	case Uint, BasicVec:
		return &V{B: Content(s, int(t.FixedSize), t.IsBool)}
	case BasicList:
		n := GenLen(s, t.Limit, t.Size, budget)
		return &V{B: Content(s, int(n*t.Size), t.IsBool)}
	case Bitvec:
		b := Content(s, int((t.N+7)/8), false)
		if t.N%8 != 0 {
			b[len(b)-1] &= 1<<(t.N%8) - 1
		}
		return &V{B: b}
	case Bitlist:
		return &V{B: genBits(s, t.Limit, budget)}
	case Vec:
		v := &V{L: make([]*V, t.N)}
		for i := range v.L {
			v.L[i] = t.Elem.Gen(s, budget/int(t.N))
		}
		return v
	case List:
		per := t.Elem.Min
		if !t.Elem.Fixed {
			per += 4
		}
		n := int(GenLen(s, t.Limit, per, budget))
		v := &V{L: make([]*V, n)}
		if n > 40 {
			// many elements: vary a handful of them
			protos := make([]*V, 5)
			for i := range protos {
				protos[i] = t.Elem.Gen(s, budget/n)
			}
			x := uint64(s.Draw(1 << 16))
			for i := range v.L {
				x = rt.Mix(x, uint64(i))
				v.L[i] = protos[x%5]
			}
			return v
		}
		for i := range v.L {
			v.L[i] = t.Elem.Gen(s, budget/n)
		}
		return v
	}
	v := &V{L: make([]*V, len(t.F))}
	for i, f := range t.F {
		b := budget
		if !f.T.Fixed && len(t.F) > 1 && s.Draw(3) != 2 {
			b = budget / len(t.F)
		}
		v.L[i] = f.T.Gen(s, b)
		if !f.T.Fixed {
			budget -= len(f.T.Enc(v.L[i]))
		}
	}
	return v
}

// GenBig draws a value of roughly total encoded bytes, most of them in one place.
func (t *T) GenBig(s *rt.Src, total int) *V {
	near := func(n, limit uint64) uint64 {
		n += uint64(s.Draw(5))
		if n > 2 {
			n -= 2
		}
		if n > limit {
			n = limit
		}
		return n
	}
	switch t.K {
	case BasicList:
		return &V{B: Content(s, int(near(uint64(total)/t.Size, t.Limit)*t.Size), t.IsBool)}
	case Bitlist:
		n := near(uint64(total)*8, t.Limit)
		b := Content(s, int(n/8+1), false)
		b[n/8] &= 1<<(n%8) - 1
		b[n/8] |= 1 << (n % 8)
		return &V{B: b}
	case Vec:
		v := &V{L: make([]*V, t.N)}
		big := s.Draw(len(v.L))
		for i := range v.L {
			if i == big {
				v.L[i] = t.Elem.GenBig(s, total)
			} else {
				v.L[i] = t.Elem.Gen(s, 40)
			}
		}
		return v
	case List:
		if t.Elem.Fixed {
			n := near(uint64(total)/t.Elem.FixedSize, t.Limit)
			if n > 100000 {
				n = 100000
			}
			v := &V{L: make([]*V, n)}
			a, b := t.Elem.Gen(s, 40), t.Elem.Gen(s, 40)
			for i := range v.L {
				v.L[i] = a
				if i%3 == 1 {
					v.L[i] = b
				}
			}
			return v
		}
		n := uint64(s.Draw(6) + 1)
		if t.Limit > 1000 && s.Draw(4) != 3 { // many small ones
			n = near(65536*uint64(s.Draw(2)+1), t.Limit)
			v := &V{L: make([]*V, n)}
			protos := make([]*V, 5)
			for i := range protos {
				protos[i] = t.Elem.Gen(s, 4)
			}
			for i := range v.L {
				v.L[i] = protos[rt.Mix(n, uint64(i))%5]
			}
			return v
		}
		if n > t.Limit {
			n = t.Limit
		}
		v := &V{L: make([]*V, n)}
		big := s.Draw(len(v.L))
		for i := range v.L {
			if i == big {
				v.L[i] = t.Elem.GenBig(s, total)
			} else {
				v.L[i] = t.Elem.Gen(s, 40)
			}
		}
		return v
	case Cont:
		v := &V{L: make([]*V, len(t.F))}
		var vars []int
		for i, f := range t.F {
			if !f.T.Fixed {
				vars = append(vars, i)
			}
		}
		big := -1
		if len(vars) > 0 {
			big = vars[s.Draw(len(vars))]
		}
		for i, f := range t.F {
			if i == big {
				v.L[i] = f.T.GenBig(s, total)
			} else {
				v.L[i] = f.T.Gen(s, 40)
			}
		}
		return v
	}
	return t.Gen(s, total)
}

// Content draws n bytes: mostly structured fillings, random ones from a drawn sub-seed.
func Content(s *rt.Src, n int, isBool bool) []byte {
	b := make([]byte, n)
	switch s.Pick(1, 4, 1, 1) {
	case 0: // zeros
	case 1:
		x := uint64(s.Draw(1 << 20))
		for i := 0; i < n; i += 8 {
			x = rt.Mix(x, 7)
			for j := 0; j < 8 && i+j < n; j++ {
				b[i+j] = byte(x >> (8 * uint(j)))
			}
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = byte(i + 1)
		}
	}
	if isBool {
		for i := range b {
			b[i] &= 1
		}
	}
	return b
}

var units = []uint64{1, 32, 8, 64, 256, 1024, 4096}

// GenLen draws a length up to limit, of elements of size bytes each, within about budget bytes.
func GenLen(s *rt.Src, limit, size uint64, budget int) uint64 {
	if size == 0 {
		size = 1
	}
	max := uint64(budget) / size
	if limit < max {
		max = limit
	}
	var n uint64
	switch s.Pick(2, 4, 2, 3, 2, 2) {
	case 0:
		n = uint64(s.Draw(2))
	case 1:
		n = uint64(s.Draw(6))
	case 2:
		n = uint64(s.Draw(25))
	case 3: // around multiples of a power-of-two number of bytes
		u := units[s.Draw(len(units))]
		k := uint64(s.Draw(4) + 1)
		n = u * k / size
		switch s.Draw(3) {
		case 1:
			n++
		case 2:
			if n > 0 {
				n--
			}
		}
	case 4: // around the limit
		d := uint64(s.Draw(4))
		if limit >= d {
			n = limit - d
		} else {
			n = limit
		}
	case 5:
		n = max
		if max > 0 {
			n = uint64(s.Draw(int(max) + 1))
		}
	}
	if n > max {
		if n <= limit && n <= 700/size {
			return n // small enough anyway
		}
		n = max
	}
	return n
}

func genBits(s *rt.Src, limit uint64, budget int) []byte {
	n := GenLen(s, limit, 1, budget*8)
	switch s.Draw(8) {
	case 6: // the last byte of a 32-byte leaf
		if n%256 < 248 {
			n = n/256*256 + 248 + uint64(s.Draw(9))
		}
	case 7:
		n = (n + 7) / 8 * 8
	}
	if n > limit {
		n = limit
	}
	b := Content(s, int(n/8+1), false)
	b[n/8] &= 1<<(n%8) - 1
	b[n/8] |= 1 << (n % 8)
	return b
}

// Mutate draws a valid value that differs from v in some parts (for in-place modifications).
func (t *T) Mutate(s *rt.Src, v *V, budget int) *V {
	if s.Draw(4) == 3 {
		return t.Gen(s, budget)
	}
	o := v.Clone()
	t.mutate(s, o, budget, 3)
	return o
}

func (t *T) mutate(s *rt.Src, v *V, budget, depth int) {
	switch t.K {
	case Vec, List:
		if len(v.L) > 0 && (t.K == Vec || s.Draw(3) != 2) {
			i := s.Draw(len(v.L))
			v.L[i] = v.L[i].Clone()
			t.Elem.mutate(s, v.L[i], budget/len(v.L)+16, depth-1)
			return
		}
	case Cont:
		if len(v.L) > 0 {
			for k := s.Draw(2) + 1; k > 0; k-- {
				i := s.Draw(len(v.L))
				t.F[i].T.mutate(s, v.L[i], budget/len(v.L)+16, depth-1)
			}
		}
		return
	case BasicVec, BasicList:
		if len(v.B) > 0 && s.Draw(3) != 2 {
			i := s.Draw(len(v.B))
			if t.IsBool {
				v.B[i] ^= 1
			} else {
				v.B[i] ^= byte(s.Draw(255) + 1)
			}
			return
		}
	}
	*v = *t.Gen(s, budget)
}
