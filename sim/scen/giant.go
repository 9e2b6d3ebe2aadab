package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"

	"github.com/protolambda/zssz"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
)

// Values and streams beyond 2 GiB and 4 GiB. Their bytes are nearly all zero: memory is reserved and
// never touched, streams and sinks keep only the bytes that are not zero.

func init() { Scenarios["C22"] = c22 }

// mark is a byte that is not zero.
type mark struct {
	at uint64
	b  byte
}

type arena struct {
	mem  []byte
	used uint64
	hi   uint64
}

var giantMem *arena

// AddressSpace is what a process may use that executes simulations of C22: what it reserves without
// using it, and the few gigabytes needed to decode a byte list.
const AddressSpace = 30<<30 + arenaSize

const arenaSize = 1 << 37

var arenaBytes = toInt(arenaSize)

func getArena() *arena {
	if giantMem == nil {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: AddressSpace, Max: AddressSpace})
		for n := arenaBytes; ; n >>= 1 {
			mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
			if err == nil {
				giantMem = &arena{mem: mem}
				syscall.Madvise(mem, 15) // no huge pages
				break
			}
			if uint64(n) < 1<<34 {
				die("cannot reserve memory: %v", err)
			}
		}
	}
	giantMem.reset()
	return giantMem
}

func (a *arena) reset() {
	if a.used > 0 {
		syscall.Madvise(a.mem[:a.used], syscall.MADV_DONTNEED)
	}
	a.used = 0
}

// take reserves n zero bytes.
func (a *arena) take(n uint64) unsafe.Pointer {
	n = (n + 2*page - 1) &^ (page - 1)
	if a.used+n > uint64(len(a.mem)) {
		panic(giantFull{})
	}
	p := unsafe.Pointer(&a.mem[a.used])
	a.used += n
	return p
}

// giantFull ends an execution that wants more address space than there is.
type giantFull struct{}

const small = 1 << 16

// touched calls f for the parts of p that may hold bytes other than zero.
func touched(p []byte, f func(off int, part []byte)) {
	if len(p) < small {
		f(0, p)
		return
	}
	head := -int(uintptr(unsafe.Pointer(&p[0]))) & (page - 1)
	f(0, p[:head])
	const stride = 1 << 28
	if coreVec == nil {
		coreVec = make([]byte, stride/page)
	}
	vec := coreVec
	for at := head; at < len(p); at += stride {
		part := p[at:minInt(at+stride, len(p))]
		pages := (len(part) + page - 1) / page
		_, _, e := syscall.Syscall(syscall.SYS_MINCORE, uintptr(unsafe.Pointer(&part[0])), uintptr(len(part)), uintptr(unsafe.Pointer(&vec[0])))
		if e != 0 {
			f(at, part)
			continue
		}
		for i := 0; i < pages; {
			if vec[i]&1 == 0 {
				i++
				continue
			}
			k := i
			for k < pages && vec[k]&1 != 0 {
				k++
			}
			f(at+i*page, part[i*page:minInt(k*page, len(part))])
			i = k
		}
	}
}

var zeroPage [page]byte
var coreVec []byte // of mincore

// marksOf lists the bytes of p that are not zero.
func marksOf(p []byte, base uint64, out []mark) []mark {
	touched(p, func(off int, part []byte) {
		for at := 0; at < len(part); at += page {
			q := part[at:minInt(at+page, len(part))]
			if bytes.Equal(q, zeroPage[:len(q)]) {
				continue
			}
			for i, x := range q {
				if x != 0 {
					out = append(out, mark{base + uint64(off+at+i), x})
				}
			}
		}
	})
	return out
}

func wipe(p []byte) {
	touched(p, func(_ int, part []byte) {
		for at := 0; at < len(part); at += page {
			q := part[at:minInt(at+page, len(part))]
			if !bytes.Equal(q, zeroPage[:len(q)]) {
				copy(q, zeroPage[:])
			}
		}
	})
}

// sparse is a stream of zeros with marks.
type sparse struct {
	marks []mark
	n     uint64
}

func (s *sparse) at(pos uint64) byte {
	i := sort.Search(len(s.marks), func(i int) bool { return s.marks[i].at >= pos })
	if i < len(s.marks) && s.marks[i].at == pos {
		return s.marks[i].b
	}
	return 0
}

func (s *sparse) u32(pos uint64) uint64 {
	var x uint64
	for i := uint64(0); i < 4; i++ {
		x |= uint64(s.at(pos+i)) << (8 * i)
	}
	return x
}

// set returns the stream with one byte changed.
func (s *sparse) set(pos uint64, b byte) *sparse {
	o := &sparse{n: s.n}
	for _, m := range s.marks {
		if m.at != pos {
			o.marks = append(o.marks, m)
		}
	}
	if b != 0 {
		o.marks = append(o.marks, mark{pos, b})
		sort.Slice(o.marks, func(i, j int) bool { return o.marks[i].at < o.marks[j].at })
	}
	return o
}

func (s *sparse) head(n uint64) []mark {
	return s.marks[:sort.Search(len(s.marks), func(i int) bool { return s.marks[i].at >= n })]
}

func sameMarks(a, b []mark) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return -1
}

func markAt(m []mark, i int) string {
	if i < len(m) {
		return fmt.Sprintf("%02x at %d", m[i].b, m[i].at)
	}
	return "none"
}

// sparseRd delivers a sparse stream.
type sparseRd struct {
	e    *Env
	s    *sparse
	pos  uint64
	end  uint64 // bytes it delivers
	max  uint64 // per read; 0: no bound
	err  error  // what it reports at the end
	with bool   // together with the last bytes
	hit  bool
}

func (r *sparseRd) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= r.end {
		r.hit = true
		return 0, r.err
	}
	n := uint64(len(p))
	if n > r.end-r.pos {
		n = r.end - r.pos
	}
	if r.max > 0 && n > r.max {
		n = r.max
		r.e.Soft++
	}
	p = p[:n]
	wipe(p)
	for _, m := range r.s.marks[len(r.s.head(r.pos)):] {
		if m.at >= r.pos+n {
			break
		}
		p[m.at-r.pos] = m.b
	}
	r.pos += n
	if r.pos == r.end && r.with {
		r.hit = true
		return int(n), r.err
	}
	return int(n), nil
}

// sparseWr accepts bytes and keeps those that are not zero.
type sparseWr struct {
	marks  []mark
	n      uint64
	fail   bool
	at     uint64 // fails instead of accepting byte number at
	whole  bool   // refuses the write as a whole
	failed bool
}

func (w *sparseWr) Write(p []byte) (int, error) {
	if w.failed {
		return 0, errDisk
	}
	var err error
	if w.fail && w.n+uint64(len(p)) > w.at {
		w.failed, err = true, errDisk
		k := w.at - w.n
		if w.whole {
			k = 0
		}
		p = p[:k]
	}
	w.marks = marksOf(p, w.n, w.marks)
	w.n += uint64(len(p))
	return len(p), err
}

// What the library can do without touching or allocating as much memory as a value has: only that
// is done with giant values. An encoder that assembles everything in memory first is slower, not wrong.
var giantEnc, giantDry, giantDec, giantProbed bool

func (e *Env) giantProbe(a *arena) {
	if giantProbed {
		return
	}
	giantProbed = true
	const n = 1 << 26
	td := e.TypeOf(catalog.Giant[1]) // a list of uint64
	src := a.take(uint64(td.R.Go.Size()))
	(&gv{n: n, size: n}).put(td.R, src, a)
	dst := a.take(uint64(td.R.Go.Size()))
	room(td.R, dst, a, n)
	light := func(f func()) bool {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		pan := e.try(f)
		runtime.ReadMemStats(&m1)
		return pan == nil && m1.TotalAlloc-m0.TotalAlloc < n/8
	}
	s := &sparse{n: n}
	giantEnc = light(func() { zssz.Encode(&sparseWr{}, reflect.NewAt(td.R.Go, src).Interface(), td.Def) })
	giantDry = light(func() { zssz.DryCheck(&sparseRd{e: e, s: s, end: n, err: io.EOF}, n, td.Def) })
	giantDec = light(func() {
		zssz.Decode(&sparseRd{e: e, s: s, end: n, err: io.EOF}, n, reflect.NewAt(td.R.Go, dst).Interface(), td.Def)
	})
	for _, p := range []unsafe.Pointer{src, dst} {
		used := 0
		touched(unsafe.Slice(*(**byte)(p), n), func(_ int, part []byte) { used += len(part) })
		if used > n/8 {
			giantEnc = giantEnc && p != src
			giantDec = giantDec && p != dst
		}
	}
}

// gv is a giant value: n bytes that are zero but for the marks, or parts.
type gv struct {
	n     uint64
	marks []mark
	l     []*gv
	size  uint64 // encoded
}

type giants struct {
	e    *Env
	bad  bool // an offset does not fit 32 bits
	step []uint64
	have uint64 // bytes so far
}

// length draws the length of a list of bytes whose first byte is cur bytes into its parent.
func (g *giants) length(cur, unit uint64) uint64 {
	s := g.e.S
	var n uint64
	d := uint64(s.Draw(7)) - 3
	switch s.Pick(4, 4, 3) {
	case 0:
		n = uint64(s.Draw(41))
	case 1: // the next part starts around a mark
		n = []uint64{1 << 31, 1 << 32, 1 << 32, 1 << 31, 1 << 32, 1 << 33}[s.Draw(6)] + d*unit
		if cur < n {
			n -= cur
		}
	case 2:
		n = []uint64{1 << 31, 1 << 32, 3 << 30, 5 << 30}[s.Draw(4)] + d*unit
	}
	if g.have > 1<<34 || !giantEnc {
		n %= 64
	}
	g.have += n
	return n - n%unit
}

func (g *giants) leaf(n uint64) *gv {
	v := &gv{n: n, size: n}
	s := g.e.S
	set := map[uint64]byte{}
	put := func(at uint64) {
		if at < n {
			set[at] = byte(s.Draw(255) + 1)
		}
	}
	for i := uint64(0); i < 4; i++ {
		put(i)
		put(n - 1 - i)
	}
	for i := s.Draw(6); i > 0; i-- {
		put([]uint64{1 << 31, 1 << 32, n / 2}[s.Draw(3)] + uint64(s.Draw(9)) - 4)
	}
	for at, b := range set {
		v.marks = append(v.marks, mark{at, b})
	}
	sort.Slice(v.marks, func(i, j int) bool { return v.marks[i].at < v.marks[j].at })
	return v
}

func (g *giants) gen(t *ref.T, cur uint64) *gv {
	s := g.e.S
	switch t.K {
	case ref.Uint, ref.BasicVec:
		return g.leaf(t.FixedSize)
	case ref.BasicList:
		return g.leaf(g.length(cur, t.Size))
	case ref.Bitlist:
		v := g.leaf(g.length(cur, 1) + 1)
		last := &v.marks[len(v.marks)-1]
		if v.n == 1 {
			last.b = 1 << uint(s.Draw(8))
		}
		return v
	}
	v := &gv{}
	var kinds []*ref.T
	switch t.K {
	case ref.Vec:
		for i := uint64(0); i < t.N; i++ {
			kinds = append(kinds, t.Elem)
		}
	case ref.List:
		k := s.Draw(4)
		if t.Elem.Fixed && t.Elem.FixedSize > 1<<20 {
			k = s.Draw(7)
		}
		for i := 0; i < k; i++ {
			kinds = append(kinds, t.Elem)
		}
	case ref.Cont:
		for _, f := range t.F {
			kinds = append(kinds, f.T)
		}
	default:
		panic("giant: " + t.String())
	}
	fixed := uint64(0)
	for _, k := range kinds {
		if k.Fixed {
			fixed += k.FixedSize
		} else {
			fixed += 4
		}
	}
	at := fixed
	for _, k := range kinds {
		x := g.gen(k, at)
		v.l = append(v.l, x)
		if !k.Fixed {
			if at >= 1<<32 {
				g.bad = true
			}
			at += x.size
		}
	}
	v.size = at
	return v
}

func partType(t *ref.T, i int) *ref.T {
	if t.K == ref.Cont {
		return t.F[i].T
	}
	return t.Elem
}

// emit lists the marks of the encoding.
func (v *gv) emit(t *ref.T, base uint64, out *[]mark) {
	if t.Bytes() {
		for _, m := range v.marks {
			*out = append(*out, mark{base + m.at, m.b})
		}
		return
	}
	fixed := uint64(0)
	for i := range v.l {
		if k := partType(t, i); k.Fixed {
			fixed += k.FixedSize
		} else {
			fixed += 4
		}
	}
	at, off := fixed, uint64(0)
	for i, x := range v.l {
		k := partType(t, i)
		if k.Fixed {
			x.emit(k, base+off, out)
			off += k.FixedSize
			continue
		}
		for j := uint64(0); j < 4; j++ {
			if b := byte(at >> (8 * j)); b != 0 {
				*out = append(*out, mark{base + off + j, b})
			}
		}
		off += 4
		at += x.size
	}
	at = fixed
	for i, x := range v.l {
		if k := partType(t, i); !k.Fixed {
			x.emit(k, base+at, out)
			at += x.size
		}
	}
}

// leavesAt lists the positions at which parts of the encoding start.
func (v *gv) cuts(t *ref.T, base uint64, out *[]uint64) {
	*out = append(*out, base)
	if t.Bytes() {
		return
	}
	fixed := uint64(0)
	for i := range v.l {
		if k := partType(t, i); k.Fixed {
			fixed += k.FixedSize
		} else {
			fixed += 4
		}
	}
	at, off := fixed, uint64(0)
	for i, x := range v.l {
		if k := partType(t, i); k.Fixed {
			x.cuts(k, base+off, out)
			off += k.FixedSize
		} else {
			x.cuts(k, base+at, out)
			*out = append(*out, base+off) // its offset
			off += 4
			at += x.size
		}
	}
}

type sliceHdr struct {
	data unsafe.Pointer
	len  int
	cap  int
}

// put builds the value at p; t.Go's pointers are followed.
func (v *gv) put(t *ref.T, p unsafe.Pointer, a *arena) {
	gt := t.Go
	for i := 0; i < t.Ptrs; i++ {
		gt = gt.Elem()
		q := a.take(uint64(gt.Size()))
		*(*unsafe.Pointer)(p) = q
		p = q
	}
	bytesAt := func(p unsafe.Pointer) {
		for _, m := range v.marks {
			*(*byte)(unsafe.Pointer(uintptr(p) + uintptr(m.at))) = m.b
		}
	}
	switch t.K {
	case ref.Uint, ref.BasicVec:
		bytesAt(p)
	case ref.BasicList, ref.Bitlist:
		q := a.take(v.n + 1)
		bytesAt(q)
		k := int(v.n / uint64(gt.Elem().Size()))
		*(*sliceHdr)(p) = sliceHdr{q, k, k}
	case ref.Vec:
		for i, x := range v.l {
			x.put(t.Elem, unsafe.Pointer(uintptr(p)+uintptr(i)*gt.Elem().Size()), a)
		}
	case ref.List:
		q := a.take(uint64(len(v.l))*uint64(gt.Elem().Size()) + 1)
		*(*sliceHdr)(p) = sliceHdr{q, len(v.l), len(v.l)}
		for i, x := range v.l {
			x.put(t.Elem, unsafe.Pointer(uintptr(q)+uintptr(i)*gt.Elem().Size()), a)
		}
	case ref.Cont:
		for i, x := range v.l {
			f := gt.FieldByIndex(t.F[i].Path)
			x.put(t.F[i].T, unsafe.Pointer(uintptr(p)+f.Offset), a)
		}
	}
}

const roomy = 9 << 30

// room prepares a destination whose lists have the capacity for n bytes to be decoded into in place.
func room(t *ref.T, p unsafe.Pointer, a *arena, n uint64) {
	gt := t.Go
	for i := 0; i < t.Ptrs; i++ {
		gt = gt.Elem()
		q := a.take(uint64(gt.Size()))
		*(*unsafe.Pointer)(p) = q
		p = q
	}
	switch t.K {
	case ref.BasicList:
		m := uint64(roomy)
		if m < n+8 {
			m = n + 8
		}
		*(*sliceHdr)(p) = sliceHdr{a.take(m), 0, toInt(m / uint64(gt.Elem().Size()))}
	case ref.Vec:
		if !t.Fixed {
			for i := uintptr(0); i < uintptr(t.N); i++ {
				room(t.Elem, unsafe.Pointer(uintptr(p)+i*gt.Elem().Size()), a, n)
			}
		}
	case ref.List:
		k := 4
		if t.Elem.Fixed {
			k = 7
			if m := n/t.Elem.FixedSize + 1; m > 7 && t.Elem.FixedSize > 1<<24 {
				k = toInt(m)
			}
		}
		q := a.take(uint64(k) * uint64(gt.Elem().Size()))
		*(*sliceHdr)(p) = sliceHdr{q, 0, k}
		if !t.Elem.Fixed {
			for i := 0; i < k; i++ {
				room(t.Elem, unsafe.Pointer(uintptr(q)+uintptr(i)*gt.Elem().Size()), a, n)
			}
		}
	case ref.Cont:
		for _, f := range t.F {
			room(f.T, unsafe.Pointer(uintptr(p)+gt.FieldByIndex(f.Path).Offset), a, n)
		}
	}
}

// valid judges an announced length and a stream by the format.
func (s *sparse) valid(t *ref.T, base, n uint64) error {
	switch t.K {
	case ref.Uint, ref.BasicVec:
		if n != t.FixedSize {
			return fmt.Errorf("%d bytes for %s", n, t)
		}
		return nil
	case ref.BasicList:
		if n%t.Size != 0 || n/t.Size > t.Limit {
			return fmt.Errorf("%d bytes for %s", n, t)
		}
		return nil
	case ref.Bitlist:
		if n == 0 || s.at(base+n-1) == 0 {
			return fmt.Errorf("no delimiter")
		}
		bits := (n - 1) * 8
		for b := s.at(base + n - 1); b > 1; b >>= 1 {
			bits++
		}
		if bits > t.Limit {
			return fmt.Errorf("%d bits", bits)
		}
		return nil
	}
	var kinds []*ref.T
	switch t.K {
	case ref.Vec:
		for i := uint64(0); i < t.N; i++ {
			kinds = append(kinds, t.Elem)
		}
	case ref.Cont:
		for _, f := range t.F {
			kinds = append(kinds, f.T)
		}
	case ref.List:
		if n == 0 {
			return nil
		}
		var k uint64
		if t.Elem.Fixed {
			if k = n / t.Elem.FixedSize; n%t.Elem.FixedSize != 0 {
				return fmt.Errorf("%d bytes for %s", n, t)
			}
		} else {
			if n < 4 {
				return fmt.Errorf("%d bytes for %s", n, t)
			}
			f := s.u32(base)
			if f%4 != 0 || f == 0 || f > n {
				return fmt.Errorf("first offset %d", f)
			}
			k = f / 4
		}
		if k > t.Limit {
			return fmt.Errorf("%d elements", k)
		}
		for i := uint64(0); i < k; i++ {
			kinds = append(kinds, t.Elem)
		}
	}
	fixed := uint64(0)
	for _, k := range kinds {
		if k.Fixed {
			fixed += k.FixedSize
		} else {
			fixed += 4
		}
	}
	if t.Fixed && n != fixed || n < fixed {
		return fmt.Errorf("%d bytes for %s", n, t)
	}
	type part struct {
		t   *ref.T
		off uint64
	}
	var parts []part
	pos, want := uint64(0), fixed
	for _, k := range kinds {
		if k.Fixed {
			if err := s.valid(k, base+pos, k.FixedSize); err != nil {
				return err
			}
			pos += k.FixedSize
			continue
		}
		o := s.u32(base + pos)
		if len(parts) == 0 && o != fixed || o < want || o > n {
			return fmt.Errorf("offset %d", o)
		}
		parts = append(parts, part{k, o})
		want = o
		pos += 4
	}
	for i, p := range parts {
		end := n
		if i+1 < len(parts) {
			end = parts[i+1].off
		}
		if err := s.valid(p.t, base+p.off, end-p.off); err != nil {
			return err
		}
	}
	return nil
}

// allocates reports whether decoding needs new memory for a leaf of many bytes.
func (v *gv) allocates(t *ref.T) bool {
	if t.K == ref.Bitlist || t.K == ref.BasicList && t.Size == 1 {
		return v.n > 1<<24
	}
	for i, x := range v.l {
		if x.allocates(partType(t, i)) {
			return true
		}
	}
	return false
}

func (e *Env) giantBand(n uint64) {
	switch {
	case n >= 1<<32:
		e.Probe("beyond 4 GiB")
	case n >= 1<<31:
		e.Probe("beyond 2 GiB")
	}
}

func c22(e *Env) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(giantFull); !ok {
				panic(r)
			}
			e.Probe("out of address space")
		}
	}()
	e.fuel = 60 * opFuel // a library may pass over bytes in small pieces
	a := getArena()
	e.giantProbe(a)
	// what the library allocates is referenced from memory the collector does not know
	limit := debug.SetMemoryLimit(math.MaxInt64)
	defer func() {
		a.reset()
		debug.SetMemoryLimit(limit)
		var m runtime.MemStats
		if runtime.ReadMemStats(&m); m.HeapAlloc > 1<<28 {
			debug.FreeOSMemory()
		}
	}()
	if e.S.Draw(giantRootEvery) == giantRootEvery-1 {
		e.giantRoot(a)
		return
	}
	td := e.TypeOf(catalog.Giant[e.S.Draw(len(catalog.Giant))])
	if !giantEnc || !giantDec || !giantDry {
		e.Probe("only small values for some operations: they need as much memory as the value")
	}
	if !giantEnc && bulky(td.R) {
		td = e.TypeOf(catalog.Giant[0])
	}
	g := &giants{e: e}
	v := g.gen(td.R, 0)
	p := a.take(uint64(td.R.Go.Size()))
	v.put(td.R, p, a)
	obj := reflect.NewAt(td.R.Go, p)
	model := &sparse{n: v.size}
	v.emit(td.R, 0, &model.marks)
	sort.Slice(model.marks, func(i, j int) bool { return model.marks[i].at < model.marks[j].at })
	var cuts []uint64
	v.cuts(td.R, 0, &cuts)
	e.Desc("%s of %d bytes, offsets fit: %v", td.R, v.size, !g.bad)
	e.giantBand(v.size)

	for i := e.S.Draw(2) + 1; i > 0; i-- {
		if o := e.Size(obj, td); o.Pan != nil || o.N != v.size {
			e.Fail("size", "SizeOf a %s of %d bytes: %s", td.R, v.size, o)
		}
		w := &sparseWr{}
		if e.S.Draw(3) == 2 {
			w.fail, w.at, w.whole = true, e.giantPos(v.size, cuts), e.S.Draw(3) == 2
			if w.at >= v.size {
				w.fail = false
			}
		}
		o := e.Encode(w, obj, td)
		if w.failed {
			e.Fault("sink fails")
			e.giantBand(w.at)
		}
		e.giantEncoded(td, v.size, model, g.bad, w, o)
	}
	if g.bad {
		e.Probe("offset beyond 32 bits refused")
		return
	}
	for i := e.S.Draw(3); i > 0; i-- {
		e.giantRead(td, v, model, cuts, a)
	}
}

func (e *Env) giantEncoded(td *TD, size uint64, model *sparse, bad bool, w *sparseWr, o Out) {
	what := fmt.Sprintf("encoding a %s of %d bytes", td.R, size)
	if bad {
		if o.Ok {
			e.Fail("wrapped", "%s succeeds with %d bytes although an offset does not fit 32 bits", what, w.n)
		}
		return
	}
	if o.Pan != nil {
		e.Fail("panic", "%s panics: %s", what, o.Pan)
	}
	if o.N != w.n {
		e.Fail("count", "%s: the sink accepted %d bytes, encode reports %d", what, w.n, o.N)
	}
	if i := sameMarks(w.marks, model.head(w.n)); i >= 0 || w.n > size {
		e.Fail("bytes", "%s writes other bytes: %s, want %s", what, markAt(w.marks, i), markAt(model.marks, i))
	}
	if w.failed {
		if o.Ok {
			e.Fail("swallowed", "%s succeeds although the sink failed after %d bytes", what, w.n)
		}
		if !errors.Is(o.Err, errDisk) {
			e.Fail("error lost", "%s: the sink's error is not found in %v", what, o.Err)
		}
		return
	}
	if !o.Ok || w.n != size {
		e.Fail("bytes", "%s: %s after %d bytes", what, o, w.n)
	}
}

// giantPos draws a position in a stream.
func (e *Env) giantPos(n uint64, cuts []uint64) uint64 {
	d := uint64(e.S.Draw(5)) - 2
	var at uint64
	switch e.S.Pick(3, 2, 2, 1) {
	case 0:
		at = cuts[e.S.Draw(len(cuts))] + d
	case 1:
		at = []uint64{1 << 31, 1 << 32, 1 << 33}[e.S.Draw(3)] + d
	case 2:
		at = n - 1 - uint64(e.S.Draw(12))
	case 3:
		at = uint64(e.S.Draw(1<<16)) << uint(e.S.Draw(18))
	}
	return at
}

func (e *Env) giantRead(td *TD, v *gv, model *sparse, cuts []uint64, a *arena) {
	s := model
	n := s.n
	end := n
	rd := &sparseRd{e: e, err: io.EOF}
	rd.max = []uint64{0, 1 << 30, 1<<28 + 1, 1 << 24, 65536, 1000003}[e.S.Draw(6)]
	rd.with = e.S.Draw(3) == 2
	switch e.S.Pick(4, 3, 3, 3) {
	case 0:
		end += uint64(e.S.Draw(3)) << 32
	case 1: // ends early
		end = e.giantPos(n, cuts)
		if end >= n {
			end = n
		} else {
			e.Fault("stream ends early")
			e.giantBand(end)
			if e.S.Draw(2) == 1 {
				rd.err = errDisk
			}
		}
	case 2: // another length is announced
		n += []uint64{1, ^uint64(0), 1 << 32, 1<<32 + 8, 1 << 31, ^uint64(1<<32 - 1), ^uint64(1<<31 - 1)}[e.S.Draw(7)]
		if n > 1<<35 {
			n = s.n + 1
		}
		end = n
		e.Fault("other length announced")
	case 3: // a byte of it is damaged
		at := e.giantPos(n, cuts)
		for i := e.S.Draw(2) + 1; i > 0 && at < n; i-- {
			s = s.set(at, s.at(at)^byte(e.S.Draw(255)+1))
			at = e.giantPos(n, cuts)
		}
		e.Fault("bytes damaged")
	}
	rd.s = &sparse{marks: s.marks, n: end}
	rd.end = end
	short := end < n
	bad := (&sparse{marks: s.marks, n: n}).valid(td.R, 0, n)
	what := fmt.Sprintf("%s announced with %d bytes, %d there, marks %v", td.R, n, end, s.head(64))
	dry := e.S.Draw(2) == 1
	if !dry && v.allocates(td.R) && (e.S.Draw(150) != 149 || v.size > 5<<30) {
		dry = true
	}
	if !dry && (s != model || n != model.n) && allocs(td.R) {
		dry = true // may ask for as many bytes as are announced
	}
	if s.n > 1<<24 || n > 1<<24 {
		switch {
		case !giantDec && !giantDry:
			return
		case !giantDec:
			dry = true
		case !giantDry:
			dry = false
		}
	}
	var o Out
	var dst reflect.Value
	if dry {
		what = "dry check of " + what
		o = e.Dry(rd, n, td)
	} else {
		what = "decode of " + what
		p := a.take(uint64(td.R.Go.Size()))
		room(td.R, p, a, n)
		dst = reflect.NewAt(td.R.Go, p)
		o = e.Decode(rd, n, dst, td)
	}
	if o.Pan != nil {
		e.Fail("panic", "%s panics: %s", what, o.Pan)
	}
	if rd.pos > n {
		e.Fail("over-read", "%s takes %d bytes", what, rd.pos)
	}
	switch {
	case bad != nil && o.Ok:
		e.Fail("accepted", "%s succeeds: %v", what, bad)
	case short && o.Ok:
		e.Fail("accepted", "%s succeeds", what)
	case bad == nil && !short && !o.Ok:
		e.Fail("rejected", "%s fails: %v", what, o.Err)
	}
	if !o.Ok {
		e.Probe("stream rejected")
		return
	}
	e.Probe("stream accepted")
	e.giantBand(n)
	if rd.pos != n {
		e.Fail("consumed", "%s takes %d bytes", what, rd.pos)
	}
	if dry {
		return
	}
	e.Probe("decoded")
	if o := e.Size(dst, td); o.Pan != nil || o.N != n {
		e.Fail("value", "%s: SizeOf the value is %s", what, o)
	}
	if n > 1<<24 && !giantEnc {
		return
	}
	w := &sparseWr{}
	out := e.Encode(w, dst, td)
	if !out.Ok || w.n != n {
		e.Fail("value", "%s: encoding the value again: %s with %d bytes", what, out, w.n)
	}
	if i := sameMarks(w.marks, s.head(n)); i >= 0 {
		e.Fail("value", "%s: encoding the value again writes %s, want %s", what, markAt(w.marks, i), markAt(s.marks, i))
	}
}

// bulky reports whether a type has parts of a fixed size of many megabytes.
func bulky(t *ref.T) bool {
	if t.Fixed && t.FixedSize > 1<<24 {
		return true
	}
	for _, f := range t.F {
		if bulky(f.T) {
			return true
		}
	}
	return t.Elem != nil && bulky(t.Elem)
}

// allocs reports whether a type has lists that are decoded into new memory.
func allocs(t *ref.T) bool {
	switch t.K {
	case ref.Bitlist:
		return true
	case ref.BasicList:
		return t.Size == 1
	case ref.Cont:
		for _, f := range t.F {
			if allocs(f.T) {
				return true
			}
		}
	case ref.Vec, ref.List:
		return allocs(t.Elem)
	}
	return false
}
func toInt(n uint64) int { return int(n) }
