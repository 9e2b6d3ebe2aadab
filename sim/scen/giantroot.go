package scen

import (
	"encoding/binary"
	"math/bits"
	"reflect"
	"runtime"
	"sort"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"

	"verif.local/sim/catalog"
)

// Roots of lists of more than 2^32 bits or 2^31 bytes, with a hash function that is cheap enough for millions of leaves.

const giantRootEvery = 160

type cheapHash struct{}

func mix64(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a^0x9e3779b97f4a7c15, b^0xd1342543de82ef95)
	return hi ^ lo ^ a + b<<1
}

func cheap(a, b *[32]byte) (out [32]byte) {
	le := binary.LittleEndian
	x := [4]uint64{}
	for i := range x {
		x[i] = mix64(le.Uint64(a[8*i:])+uint64(i), le.Uint64(b[8*i:])+0x2545f4914f6cdd1d)
	}
	le.PutUint64(out[0:], x[0]+x[1]<<7)
	le.PutUint64(out[8:], x[1]^x[2]*3)
	le.PutUint64(out[16:], mix64(x[2], x[3]))
	le.PutUint64(out[24:], x[3]+x[0]*5)
	return
}

func (cheapHash) Combi(a [32]byte, b [32]byte) [32]byte { return cheap(&a, &b) }
func (cheapHash) MixIn(a [32]byte, i uint64) [32]byte {
	var b [32]byte
	binary.LittleEndian.PutUint64(b[:], i)
	return cheap(&a, &b)
}

func cheapFn(in []byte) [32]byte {
	return cheap((*[32]byte)(in[:32]), (*[32]byte)(in[32:64]))
}

// root computes the root of the leaves of s in a tree of the given depth.
func (s *sparse) root(marks []mark, leaf uint64, depth uint, zeros *[65][32]byte) (out [32]byte) {
	if len(marks) == 0 {
		return zeros[depth]
	}
	if depth == 0 {
		for _, m := range marks {
			out[m.at&31] = m.b
		}
		return
	}
	half := leaf + 1<<(depth-1)
	k := sort.Search(len(marks), func(i int) bool { return marks[i].at>>5 >= half })
	a, b := s.root(marks[:k], leaf, depth-1, zeros), s.root(marks[k:], half, depth-1, zeros)
	return cheap(&a, &b)
}

// giantRoots tells whether roots of many leaves take a moment and little memory.
var giantRoots, giantRootsProbed bool

func (e *Env) giantRoot(a *arena) {
	htr.InitZeroHashes(cheapFn)
	td := e.TypeOf(reflect.TypeOf(catalog.Bits[catalog.M40]{}))
	list := e.TypeOf(reflect.TypeOf(catalog.List[byte, catalog.M40]{}))
	if !giantRootsProbed {
		giantRootsProbed = true
		const n = 1 << 20
		var m0, m1 runtime.MemStats
		p := a.take(64)
		(&gv{n: n, size: n}).put(list.R, p, a)
		was := e.Sim.Steps()
		runtime.ReadMemStats(&m0)
		pan := e.try(func() { zssz.HashTreeRoot(cheapHash{}, reflect.NewAt(list.R.Go, p).Interface(), list.Def) })
		runtime.ReadMemStats(&m1)
		giantRoots = pan == nil && m1.TotalAlloc-m0.TotalAlloc < 4*n && e.Sim.Steps()-was < n/32*400
	}
	if !giantRoots {
		e.Probe("no roots: they take too much memory or time")
		return
	}
	e.fuel = 1 << 40
	v := &gv{}
	var length uint64
	extra := uint64(e.S.Draw(600))
	if e.S.Draw(5) == 4 {
		td = list
		v.n = 1<<31 + extra
		length = v.n
	} else {
		length = []uint64{1 << 32, 1<<32 + extra, 1<<32 - 1, 1<<32 - extra, 1<<31 + extra, 1 << 31}[e.S.Draw(6)]
		v.n = length/8 + 1
	}
	v.size = v.n
	marks := map[uint64]byte{}
	for i := e.S.Draw(6); i > 0; i-- {
		at := uint64(e.S.Draw(1<<16)) << uint(e.S.Draw(17))
		switch e.S.Draw(3) {
		case 0:
			at = v.n - 2 - uint64(e.S.Draw(70))
		case 1:
			at = 1<<29 - 3 + uint64(e.S.Draw(6))
		}
		if at+1 < v.n {
			marks[at] = byte(e.S.Draw(255) + 1)
		}
	}
	model := &sparse{n: v.n}
	for at, b := range marks {
		model.marks = append(model.marks, mark{at, b})
	}
	sort.Slice(model.marks, func(i, k int) bool { return model.marks[i].at < model.marks[k].at })
	v.marks = append(v.marks, model.marks...)
	last := byte(0)
	if td != list { // the last byte holds the delimiter above the bits that remain
		last = byte(e.S.Draw(256)) & (1<<(length&7) - 1)
		v.marks = append(v.marks, mark{v.n - 1, last | 1<<(length&7)})
	} else {
		last = byte(e.S.Draw(256))
		if last != 0 {
			v.marks = append(v.marks, mark{v.n - 1, last})
		}
	}
	if last != 0 {
		model.marks = append(model.marks, mark{v.n - 1, last})
	}
	p := a.take(uint64(unsafe.Sizeof([]byte{})))
	v.put(td.R, p, a)
	var zeros [65][32]byte
	for i := 0; i < 64; i++ {
		zeros[i+1] = cheap(&zeros[i], &zeros[i])
	}
	depth := uint(40 - 5) // 2^40 bytes
	if td != list {
		depth = 40 - 8
	}
	want := cheapHash{}.MixIn(model.root(model.marks, 0, depth, &zeros), length)
	e.Desc("root of a %s of length %d, marks %v", td.R, length, v.marks)
	e.Probe("root of 2^31 or more bits or bytes")
	var h htr.MerkleFn = cheapHash{}
	if e.S.Draw(3) == 2 {
		h = htr.HashFn(cheapFn)
	}
	o := e.Root(h, reflect.NewAt(td.R.Go, p), td)
	if o.Pan != nil {
		e.Fail("panic", "computing the root of a %s of length %d panics: %s", td.R, length, o.Pan)
	}
	if o.Root != want {
		e.Fail("root", "the root of a %s of length %d, with bytes %v and zeros otherwise, is %x, want %x", td.R, length, v.marks, o.Root, want)
	}
}
