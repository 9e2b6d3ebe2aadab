// Package ref is an independent model of SSZ: types, values, canonical encoding, strict decoding,
// hash-tree-roots, and the correspondence between model values and Go values. It shares no code
// with the library under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

type Kind uint8

const (
	Bool Kind = iota
	Uint
	BasicVec
	BasicList
	Bitvec
	Bitlist
	Vec
	List
	Cont
)

func (k Kind) String() string {
	return [...]string{"bool", "uint", "basicvec", "basiclist", "bitvec", "bitlist", "vec", "list", "cont"}[k]
}

type T struct {
	K         Kind
	Size      uint64 // bytes of the basic type, or of the basic element
	IsBool    bool
	N         uint64 // length of a vector; bits of a bitvector
	Limit     uint64 // elements of a list; bits of a bitlist
	Elem      *T
	F         []Field
	Omit      [][]int // field paths of this container that are not part of the format
	Go        reflect.Type
	Ptrs      int // pointers to follow from Go to the value
	Fixed     bool
	FixedSize uint64 // size when fixed; otherwise the size of the fixed part (containers), else 0
	Min, Max  uint64 // encoded size bounds (Max saturates)
}

type Field struct {
	Name string
	T    *T
	Path []int
}

type limited interface{ Limit() uint64 }
type bitsized interface{ BitLen() uint64 }

var limitedT = reflect.TypeOf((*limited)(nil)).Elem()
var bitsizedT = reflect.TypeOf((*bitsized)(nil)).Elem()

const big = uint64(1) << 60

func satMul(a, b uint64) uint64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a > big/b {
		return big
	}
	return a * b
}
func satAdd(a, b uint64) uint64 {
	if a > big || b > big || a+b > big {
		return big
	}
	return a + b
}

var cache = map[reflect.Type]*T{}

// Of derives the SSZ type of a Go type.
func Of(g reflect.Type) *T {
	if t, ok := cache[g]; ok {
		return t
	}
	t := of(g)
	cache[g] = t
	return t
}

func basicSize(k reflect.Kind) uint64 {
	switch k {
	case reflect.Bool, reflect.Uint8:
		return 1
	case reflect.Uint16:
		return 2
	case reflect.Uint32:
		return 4
	case reflect.Uint64:
		return 8
	}
	return 0
}

func of(g reflect.Type) *T {
	if g.Kind() == reflect.Ptr {
		in := Of(g.Elem())
		t := *in
		t.Go = g
		t.Ptrs = in.Ptrs + 1
		return &t
	}
	t := &T{Go: g}
	if s := basicSize(g.Kind()); s != 0 {
		t.K, t.Size, t.IsBool = Uint, s, false
		if g.Kind() == reflect.Bool {
			t.K, t.IsBool = Bool, true
		}
		t.Fixed, t.FixedSize, t.Min, t.Max = true, s, s, s
		return t
	}
	switch g.Kind() {
	case reflect.Array:
		n := uint64(g.Len())
		t.N = n
		if s := basicSize(g.Elem().Kind()); s != 0 {
			if g.Elem().Kind() == reflect.Uint8 && reflect.PtrTo(g).Implements(bitsizedT) {
				t.K = Bitvec
				t.N = reflect.New(g).Interface().(bitsized).BitLen()
			} else {
				t.K, t.Size, t.IsBool = BasicVec, s, g.Elem().Kind() == reflect.Bool
			}
			t.Fixed, t.FixedSize = true, s*n
			t.Min, t.Max = t.FixedSize, t.FixedSize
			return t
		}
		t.K, t.Elem = Vec, Of(g.Elem())
		e := t.Elem
		if e.Fixed {
			t.Fixed, t.FixedSize = true, e.FixedSize*n
			t.Min, t.Max = t.FixedSize, t.FixedSize
		} else {
			t.FixedSize = 4 * n
			t.Min, t.Max = satMul(n, e.Min+4), satMul(n, satAdd(e.Max, 4))
		}
	case reflect.Slice:
		if !reflect.PtrTo(g).Implements(limitedT) {
			panic("ref: list without limit: " + g.String())
		}
		t.Limit = reflect.New(g).Interface().(limited).Limit()
		if s := basicSize(g.Elem().Kind()); s != 0 {
			if g.Elem().Kind() == reflect.Uint8 && reflect.PtrTo(g).Implements(bitsizedT) {
				t.K, t.Min, t.Max = Bitlist, 1, t.Limit/8+1
			} else {
				t.K, t.Size, t.IsBool = BasicList, s, g.Elem().Kind() == reflect.Bool
				t.Max = satMul(t.Limit, s)
			}
			return t
		}
		t.K, t.Elem = List, Of(g.Elem())
		if t.Elem.Fixed {
			t.Max = satMul(t.Limit, t.Elem.FixedSize)
		} else {
			t.Max = satMul(t.Limit, satAdd(t.Elem.Max, 4))
		}
	case reflect.Struct:
		t.K = Cont
		t.fields(g, nil, "")
		t.Fixed = true
		for _, f := range t.F {
			if f.T.Fixed {
				t.FixedSize += f.T.FixedSize
				t.Min += f.T.FixedSize
				t.Max = satAdd(t.Max, f.T.FixedSize)
			} else {
				t.Fixed = false
				t.FixedSize += 4
				t.Min += 4 + f.T.Min
				t.Max = satAdd(t.Max, satAdd(f.T.Max, 4))
			}
		}
	default:
		panic("ref: unsupported type " + g.String())
	}
	return t
}

func tagged(f reflect.StructField, flag string) bool {
	for _, p := range strings.Split(f.Tag.Get("ssz"), ",") {
		if p == flag {
			return true
		}
	}
	return false
}

func (t *T) fields(g reflect.Type, base []int, prefix string) {
	for i := 0; i < g.NumField(); i++ {
		f := g.Field(i)
		path := append(append([]int(nil), base...), i)
		if tagged(f, "omit") {
			t.Omit = append(t.Omit, path)
			continue
		}
		if (f.Anonymous || tagged(f, "squash")) && f.Type.Kind() == reflect.Struct {
			t.fields(f.Type, path, prefix+f.Name+".")
			continue
		}
		t.F = append(t.F, Field{prefix + f.Name, Of(f.Type), path})
	}
}

func (t *T) String() string { return strings.Repeat("*", t.Ptrs) + t.str(0) }

func (t *T) str(d int) string {
	switch t.K {
	case Bool:
		return "bool"
	case Uint:
		return fmt.Sprintf("u%d", t.Size*8)
	case BasicVec:
		return fmt.Sprintf("[%d]%s", t.N, bn(t))
	case BasicList:
		return fmt.Sprintf("[<=%d]%s", t.Limit, bn(t))
	case Bitvec:
		return fmt.Sprintf("bits[%d]", t.N)
	case Bitlist:
		return fmt.Sprintf("bits[<=%d]", t.Limit)
	case Vec:
		return fmt.Sprintf("[%d]%s", t.N, t.Elem.String())
	case List:
		return fmt.Sprintf("[<=%d]%s", t.Limit, t.Elem.String())
	}
	if d > 6 {
		return "{..}"
	}
	var p []string
	for _, f := range t.F {
		p = append(p, f.T.String())
	}
	return "{" + strings.Join(p, ",") + "}"
}

func bn(t *T) string {
	if t.IsBool {
		return "bool"
	}
	return fmt.Sprintf("u%d", t.Size*8)
}

// Basic reports whether values of t are kept as bytes only.
func (t *T) Bytes() bool { return t.K <= Bitlist }

// ---------------------------------------------------------------- values

// V is a model value: B holds the encoded bytes of basic values, basic series and bitfields;
// L the elements or fields of composite ones.
type V struct {
	B   []byte
	L   []*V
	Nil bool // a nil pointer was found (only after failed decodes)
}

func Equal(a, b *V) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Nil != b.Nil || len(a.L) != len(b.L) || !bytes.Equal(a.B, b.B) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

func (v *V) Clone() *V {
	if v == nil {
		return nil
	}
	o := &V{B: append([]byte(nil), v.B...), Nil: v.Nil}
	if v.L != nil {
		o.L = make([]*V, len(v.L))
		for i, x := range v.L {
			o.L[i] = x.Clone()
		}
	}
	return o
}

func (v *V) String() string {
	s := v.str()
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func (v *V) str() string {
	if v == nil {
		return "<none>"
	}
	if v.Nil {
		return "nil"
	}
	if v.L == nil {
		if len(v.B) > 100 {
			return fmt.Sprintf("%x..(%d bytes)", v.B[:100], len(v.B))
		}
		return fmt.Sprintf("%x", v.B)
	}
	var p []string
	for i, x := range v.L {
		if i > 40 {
			p = append(p, fmt.Sprintf("..(%d)", len(v.L)))
			break
		}
		p = append(p, x.str())
	}
	return "[" + strings.Join(p, " ") + "]"
}

// Valid reports why v is not a valid value of t.
func (t *T) Valid(v *V) error {
	if v == nil || v.Nil {
		return fmt.Errorf("nil pointer")
	}
	switch t.K {
	case Bool:
		if len(v.B) != 1 || v.B[0] > 1 {
			return fmt.Errorf("bool holds %x", v.B)
		}
	case Uint:
		if uint64(len(v.B)) != t.Size {
			return fmt.Errorf("uint of %d bytes", len(v.B))
		}
	case BasicVec, BasicList:
		if t.K == BasicVec && uint64(len(v.B)) != t.N*t.Size {
			return fmt.Errorf("vector of %d bytes", len(v.B))
		}
		if t.K == BasicList && (uint64(len(v.B))%t.Size != 0 || uint64(len(v.B))/t.Size > t.Limit) {
			return fmt.Errorf("list of %d bytes over limit %d", len(v.B), t.Limit)
		}
		if t.IsBool {
			for i, b := range v.B {
				if b > 1 {
					return fmt.Errorf("bool %d holds %#x", i, b)
				}
			}
		}
	case Bitvec:
		if uint64(len(v.B)) != (t.N+7)/8 {
			return fmt.Errorf("bitvector of %d bytes", len(v.B))
		}
		if t.N%8 != 0 && v.B[len(v.B)-1]>>(t.N%8) != 0 {
			return fmt.Errorf("bitvector with unused bits set")
		}
	case Bitlist:
		if len(v.B) == 0 || v.B[len(v.B)-1] == 0 {
			return fmt.Errorf("bitlist without delimiter")
		}
		if n := BitlistLen(v.B); n > t.Limit {
			return fmt.Errorf("bitlist of %d bits over limit %d", n, t.Limit)
		}
	case Vec, List:
		if t.K == Vec && uint64(len(v.L)) != t.N {
			return fmt.Errorf("vector of %d", len(v.L))
		}
		if t.K == List && uint64(len(v.L)) > t.Limit {
			return fmt.Errorf("list of %d over limit %d", len(v.L), t.Limit)
		}
		for i, x := range v.L {
			if err := t.Elem.Valid(x); err != nil {
				return fmt.Errorf("elem %d: %v", i, err)
			}
		}
	case Cont:
		for i, f := range t.F {
			if err := f.T.Valid(v.L[i]); err != nil {
				return fmt.Errorf("field %s: %v", f.Name, err)
			}
		}
	}
	return nil
}

// BitlistLen is the number of bits before the delimiter.
func BitlistLen(b []byte) uint64 {
	n := uint64(len(b)-1) * 8
	for l := b[len(b)-1]; l > 1; l >>= 1 {
		n++
	}
	return n
}

// ---------------------------------------------------------------- canonical encoding

func (t *T) Enc(v *V) []byte { return t.enc(nil, v) }

func (t *T) enc(out []byte, v *V) []byte {
	switch t.K {
	case Vec, List:
		if t.Elem.Fixed {
			for _, x := range v.L {
				out = t.Elem.enc(out, x)
			}
			return out
		}
		return series(out, len(v.L), func(i int) (*T, *V) { return t.Elem, v.L[i] })
	case Cont:
		return series(out, len(t.F), func(i int) (*T, *V) { return t.F[i].T, v.L[i] })
	}
	return append(out, v.B...)
}

func series(out []byte, n int, at func(int) (*T, *V)) []byte {
	start := len(out)
	type patch struct{ pos, i int }
	var ps []patch
	for i := 0; i < n; i++ {
		t, v := at(i)
		if t.Fixed {
			out = t.enc(out, v)
		} else {
			ps = append(ps, patch{len(out), i})
			out = append(out, 0, 0, 0, 0)
		}
	}
	for _, p := range ps {
		binary.LittleEndian.PutUint32(out[p.pos:], uint32(len(out)-start))
		t, v := at(p.i)
		out = t.enc(out, v)
	}
	return out
}

// Offsets lists the positions of all offset words in the encoding of v, and the boundaries of its parts.
func (t *T) Layout(v *V) (offs []int, bounds []int) {
	var walk func(t *T, v *V, base int) int
	walk = func(t *T, v *V, base int) int {
		bounds = append(bounds, base)
		if t.Bytes() {
			return base + len(v.B)
		}
		n := len(v.L)
		at := func(i int) (*T, *V) {
			if t.K == Cont {
				return t.F[i].T, v.L[i]
			}
			return t.Elem, v.L[i]
		}
		pos := base
		var vars []int
		for i := 0; i < n; i++ {
			ft, fv := at(i)
			if ft.Fixed {
				pos = walk(ft, fv, pos)
			} else {
				offs = append(offs, pos)
				vars = append(vars, i)
				pos += 4
			}
		}
		for _, i := range vars {
			ft, fv := at(i)
			pos = walk(ft, fv, pos)
		}
		return pos
	}
	bounds = append(bounds, walk(t, v, 0))
	return
}

// ---------------------------------------------------------------- strict decoding

// Dec returns the value whose canonical encoding is b, or why there is none.
func (t *T) Dec(b []byte) (*V, error) {
	switch t.K {
	case Vec:
		if t.Elem.Fixed {
			if uint64(len(b)) != t.FixedSize {
				return nil, fmt.Errorf("vector size")
			}
		}
		return t.decSeries(b, t.N)
	case List:
		if t.Elem.Fixed {
			if uint64(len(b))%t.Elem.FixedSize != 0 {
				return nil, fmt.Errorf("list size not a multiple")
			}
			return t.decSeries(b, uint64(len(b))/t.Elem.FixedSize)
		}
		if len(b) == 0 {
			return t.decSeries(b, 0)
		}
		if len(b) < 4 {
			return nil, fmt.Errorf("no first offset")
		}
		first := binary.LittleEndian.Uint32(b)
		if first%4 != 0 || first == 0 {
			return nil, fmt.Errorf("bad first offset")
		}
		return t.decSeries(b, uint64(first)/4)
	case Cont:
		return t.decSeries(b, uint64(len(t.F)))
	}
	v := &V{B: append([]byte(nil), b...)}
	if err := t.Valid(v); err != nil {
		return nil, err
	}
	return v, nil
}

func (t *T) decSeries(b []byte, n uint64) (*V, error) {
	if t.K == List && n > t.Limit {
		return nil, fmt.Errorf("over limit")
	}
	at := func(i uint64) *T {
		if t.K == Cont {
			return t.F[i].T
		}
		return t.Elem
	}
	if n > 0 && t.K != Cont {
		per := uint64(4)
		if at(0).Fixed {
			per = at(0).FixedSize
		}
		if per*n > uint64(len(b)) {
			return nil, fmt.Errorf("too short")
		}
	}
	v := &V{L: make([]*V, n)}
	type dyn struct {
		i   uint64
		off uint64
	}
	var ds []dyn
	pos := uint64(0)
	for i := uint64(0); i < n; i++ {
		f := at(i)
		need := uint64(4)
		if f.Fixed {
			need = f.FixedSize
		}
		if pos+need > uint64(len(b)) {
			return nil, fmt.Errorf("too short")
		}
		part := b[pos : pos+need]
		pos += need
		if f.Fixed {
			x, err := f.Dec(part)
			if err != nil {
				return nil, err
			}
			v.L[i] = x
		} else {
			ds = append(ds, dyn{i, uint64(binary.LittleEndian.Uint32(part))})
		}
	}
	if len(ds) == 0 {
		if pos != uint64(len(b)) {
			return nil, fmt.Errorf("trailing bytes")
		}
		return v, nil
	}
	if ds[0].off != pos {
		return nil, fmt.Errorf("first offset %d, want %d", ds[0].off, pos)
	}
	for k, d := range ds {
		end := uint64(len(b))
		if k+1 < len(ds) {
			end = ds[k+1].off
		}
		if d.off > end || end > uint64(len(b)) {
			return nil, fmt.Errorf("offsets out of order")
		}
		x, err := at(d.i).Dec(b[d.off:end])
		if err != nil {
			return nil, err
		}
		v.L[d.i] = x
	}
	return v, nil
}

// ---------------------------------------------------------------- hash tree root

type Hash struct {
	Name string
	F    func([]byte) [32]byte
	zero [66][32]byte
}

func NewHash(name string, f func([]byte) [32]byte) *Hash {
	h := &Hash{Name: name, F: f}
	for i := 0; i < 65; i++ {
		h.zero[i+1] = h.pair(h.zero[i], h.zero[i])
	}
	return h
}

var SHA = NewHash("sha256", sha256.Sum256)

func (h *Hash) pair(a, b [32]byte) [32]byte {
	var v [64]byte
	copy(v[:32], a[:])
	copy(v[32:], b[:])
	return h.F(v[:])
}

func (h *Hash) Pair(a, b [32]byte) [32]byte { return h.pair(a, b) }

func depthOf(limit uint64) int {
	d := 0
	for d < 64 && uint64(1)<<uint(d) < limit {
		d++
	}
	return d
}

// Merkleize is the root of the tree over the chunks, padded with zero chunks to limit.
func (h *Hash) Merkleize(chunks [][32]byte, limit uint64) [32]byte {
	if limit == 0 {
		return [32]byte{}
	}
	d := depthOf(limit)
	layer := append([][32]byte(nil), chunks...)
	for i := 0; i < d; i++ {
		if len(layer) == 0 {
			continue
		}
		if len(layer)%2 == 1 {
			layer = append(layer, h.zero[i])
		}
		for j := 0; j < len(layer)/2; j++ {
			layer[j] = h.pair(layer[2*j], layer[2*j+1])
		}
		layer = layer[:len(layer)/2]
	}
	if len(layer) == 0 {
		return h.zero[d]
	}
	return layer[0]
}

// Branch verifies the path of leaf up to root.
func (h *Hash) BranchRoot(leaf [32]byte, index uint64, branch [][32]byte) [32]byte {
	for i, s := range branch {
		if index>>uint(i)&1 == 1 {
			leaf = h.pair(s, leaf)
		} else {
			leaf = h.pair(leaf, s)
		}
	}
	return leaf
}

// Depth is the height of the tree for a limit.
func Depth(limit uint64) int { return depthOf(limit) }

func pack(b []byte) [][32]byte {
	out := make([][32]byte, (len(b)+31)/32)
	for i := range out {
		copy(out[i][:], b[32*i:])
	}
	return out
}

// MixIn mixes a length into a root.
func (h *Hash) MixIn(r [32]byte, n uint64) [32]byte { return h.mixin(r, n) }

func (h *Hash) mixin(r [32]byte, n uint64) [32]byte {
	var l [32]byte
	binary.LittleEndian.PutUint64(l[:], n)
	return h.pair(r, l)
}

// leaves is the number of leaves for n elements, per of which fit into one.
func leaves(n, per uint64) uint64 {
	if n == 0 {
		return 0
	}
	return (n-1)/per + 1
}

func chunks(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return (n-1)/32 + 1
}

func (h *Hash) Root(t *T, v *V) [32]byte {
	switch t.K {
	case Bool, Uint:
		var out [32]byte
		copy(out[:], v.B)
		return out
	case BasicVec, Bitvec:
		return h.Merkleize(pack(v.B), chunks(uint64(len(v.B))))
	case BasicList:
		return h.mixin(h.Merkleize(pack(v.B), leaves(t.Limit, 32/t.Size)), uint64(len(v.B))/t.Size)
	case Bitlist:
		n := BitlistLen(v.B)
		bits := append([]byte(nil), v.B...)
		last := len(bits) - 1
		bits[last] &^= 1 << (n % 8)
		if n%8 == 0 {
			bits = bits[:last]
		}
		return h.mixin(h.Merkleize(pack(bits), leaves(t.Limit, 256)), n)
	case Vec, List:
		cs := make([][32]byte, len(v.L))
		for i, x := range v.L {
			cs[i] = h.Root(t.Elem, x)
		}
		if t.K == Vec {
			return h.Merkleize(cs, t.N)
		}
		return h.mixin(h.Merkleize(cs, t.Limit), uint64(len(v.L)))
	}
	return h.contRoot(t, v, len(t.F))
}

func (h *Hash) contRoot(t *T, v *V, n int) [32]byte {
	cs := make([][32]byte, n)
	for i := range cs {
		cs[i] = h.Root(t.F[i].T, v.L[i])
	}
	return h.Merkleize(cs, uint64(n))
}

// SigningRoot is the root without the last field.
func (h *Hash) SigningRoot(t *T, v *V) [32]byte {
	n := len(t.F)
	if n > 0 {
		n--
	}
	return h.contRoot(t, v, n)
}

// ---------------------------------------------------------------- Go values

// Raw is the memory of an addressable value.
func Raw(rv reflect.Value, n uint64) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(rv.Addr().UnsafePointer()), n)
}

func sliceMem(rv reflect.Value, n uint64) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(rv.UnsafePointer()), n)
}

// Set stores v into the addressable Go value rv. In place: existing capacity and pointers are reused.
func (t *T) Set(rv reflect.Value, v *V, inPlace bool) {
	if v.Nil && t.Ptrs > 0 {
		rv.Set(reflect.Zero(rv.Type()))
		return
	}
	for i := 0; i < t.Ptrs; i++ {
		if !inPlace || rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		rv = rv.Elem()
	}
	switch t.K {
	case Bool, Uint, BasicVec, Bitvec:
		copy(Raw(rv, uint64(len(v.B))), v.B)
	case BasicList, Bitlist:
		es := t.Size
		if t.K == Bitlist {
			es = 1
		}
		t.resize(rv, len(v.B)/int(es), inPlace)
		copy(sliceMem(rv, uint64(len(v.B))), v.B)
	case Vec, List:
		if t.K == List {
			t.resize(rv, len(v.L), inPlace)
		}
		for i, x := range v.L {
			t.Elem.Set(rv.Index(i), x, inPlace)
		}
	case Cont:
		for i, f := range t.F {
			f.T.Set(rv.FieldByIndex(f.Path), v.L[i], inPlace)
		}
	}
}

func (t *T) resize(rv reflect.Value, n int, inPlace bool) {
	if inPlace && n <= rv.Cap() && !(n == 0 && rv.Len() == 0) {
		rv.SetLen(n)
		return
	}
	if n == 0 {
		if !inPlace {
			rv.Set(reflect.Zero(rv.Type()))
		}
		return
	}
	nv := reflect.MakeSlice(rv.Type(), n, n)
	if inPlace {
		reflect.Copy(nv, rv)
	}
	rv.Set(nv)
}

// New allocates a Go value holding v and returns the pointer to it.
func (t *T) New(v *V) reflect.Value {
	p := reflect.New(t.Go)
	t.Set(p.Elem(), v, false)
	return p
}

// Get reads the model value of the addressable Go value rv.
func (t *T) Get(rv reflect.Value) *V {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return &V{Nil: true}
		}
		rv = rv.Elem()
	}
	switch t.K {
	case Bool, Uint, BasicVec, Bitvec:
		n := t.FixedSize
		return &V{B: append([]byte(nil), Raw(rv, n)...)}
	case BasicList, Bitlist:
		es := t.Size
		if t.K == Bitlist {
			es = 1
		}
		return &V{B: append([]byte(nil), sliceMem(rv, uint64(rv.Len())*es)...)}
	case Vec, List:
		v := &V{L: make([]*V, rv.Len())}
		for i := range v.L {
			v.L[i] = t.Elem.Get(rv.Index(i))
		}
		return v
	}
	v := &V{L: make([]*V, len(t.F))}
	for i, f := range t.F {
		v.L[i] = f.T.Get(rv.FieldByIndex(f.Path))
	}
	return v
}

// Region is a piece of memory owned by a value.
type Region struct {
	Start, End uintptr
	What       string
}

// Regions lists the separately allocated memory reachable from rv (slice backing arrays with their
// capacity, pointer targets), not including rv itself.
func (t *T) Regions(rv reflect.Value, what string, out []Region) []Region {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return out
		}
		if sz := rv.Type().Elem().Size(); sz > 0 {
			p := rv.Pointer()
			out = append(out, Region{p, p + sz, what + "*"})
		}
		rv = rv.Elem()
	}
	switch t.K {
	case BasicList, Bitlist, List:
		if sz := uintptr(rv.Cap()) * rv.Type().Elem().Size(); sz > 0 {
			p := rv.Pointer()
			out = append(out, Region{p, p + sz, what + "[]"})
		}
	}
	switch t.K {
	case Vec, List:
		for i := 0; i < rv.Len(); i++ {
			out = t.Elem.Regions(rv.Index(i), what, out)
		}
	case Cont:
		for _, f := range t.F {
			out = f.T.Regions(rv.FieldByIndex(f.Path), what+"."+f.Name, out)
		}
	}
	return out
}

// Pins are the pointers a value holds: whoever keeps them keeps all of its memory.
func (t *T) Pins(rv reflect.Value, out []unsafe.Pointer) []unsafe.Pointer {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return out
		}
		out = append(out, rv.UnsafePointer())
		rv = rv.Elem()
	}
	switch t.K {
	case BasicList, Bitlist, List:
		if rv.Cap() > 0 {
			out = append(out, rv.UnsafePointer())
		}
	}
	switch t.K {
	case Vec, List:
		for i := 0; i < rv.Len(); i++ {
			out = t.Elem.Pins(rv.Index(i), out)
		}
	case Cont:
		for _, f := range t.F {
			out = f.T.Pins(rv.FieldByIndex(f.Path), out)
		}
	}
	return out
}

// HasPtr reports whether values of t contain Go pointers.
func (t *T) HasPtr() bool { return hasPtr(t.Go) }

func hasPtr(g reflect.Type) bool {
	switch g.Kind() {
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return false
	case reflect.Array:
		return g.Len() > 0 && hasPtr(g.Elem())
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			if hasPtr(g.Field(i).Type) {
				return true
			}
		}
		return false
	}
	return true
}
