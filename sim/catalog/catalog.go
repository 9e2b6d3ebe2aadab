// Package catalog holds the Go types the simulations exercise: static ones (lists need methods for
// their limits) and compositions of them made at run time.
package catalog

import (
	"fmt"
	"reflect"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

type Lim interface{ N() uint64 }

type List[T any, L Lim] []T

func (*List[T, L]) Limit() uint64 { var l L; return l.N() }

type Bits[L Lim] []byte

func (*Bits[L]) Limit() uint64 { var l L; return l.N() }
func (b *Bits[L]) BitLen() uint64 {
	if b == nil || len(*b) == 0 {
		return 0
	}
	return ref.BitlistLen(*b)
}

type L1 struct{}
type L2 struct{}
type L3 struct{}
type L4 struct{}
type L5 struct{}
type L6 struct{}
type L7 struct{}
type L8 struct{}
type L9 struct{}
type L10 struct{}
type L11 struct{}
type L12 struct{}
type L13 struct{}
type L14 struct{}
type L15 struct{}
type L16 struct{}
type L17 struct{}
type L31 struct{}
type L32 struct{}
type L33 struct{}
type L63 struct{}
type L64 struct{}
type L65 struct{}
type L100 struct{}
type L127 struct{}
type L128 struct{}
type L255 struct{}
type L256 struct{}
type L257 struct{}
type L300 struct{}
type L512 struct{}
type L1024 struct{}
type L2048 struct{}
type L4096 struct{}
type L65536 struct{}
type L1M struct{}
type L16M struct{}
type L4Gp1 struct{}
type L1T struct{}

func (L1) N() uint64     { return 1 }
func (L2) N() uint64     { return 2 }
func (L3) N() uint64     { return 3 }
func (L4) N() uint64     { return 4 }
func (L5) N() uint64     { return 5 }
func (L6) N() uint64     { return 6 }
func (L7) N() uint64     { return 7 }
func (L8) N() uint64     { return 8 }
func (L9) N() uint64     { return 9 }
func (L10) N() uint64    { return 10 }
func (L11) N() uint64    { return 11 }
func (L12) N() uint64    { return 12 }
func (L13) N() uint64    { return 13 }
func (L14) N() uint64    { return 14 }
func (L15) N() uint64    { return 15 }
func (L16) N() uint64    { return 16 }
func (L17) N() uint64    { return 17 }
func (L31) N() uint64    { return 31 }
func (L32) N() uint64    { return 32 }
func (L33) N() uint64    { return 33 }
func (L63) N() uint64    { return 63 }
func (L64) N() uint64    { return 64 }
func (L65) N() uint64    { return 65 }
func (L100) N() uint64   { return 100 }
func (L127) N() uint64   { return 127 }
func (L128) N() uint64   { return 128 }
func (L255) N() uint64   { return 255 }
func (L256) N() uint64   { return 256 }
func (L257) N() uint64   { return 257 }
func (L300) N() uint64   { return 300 }
func (L512) N() uint64   { return 512 }
func (L1024) N() uint64  { return 1024 }
func (L2048) N() uint64  { return 2048 }
func (L4096) N() uint64  { return 4096 }
func (L65536) N() uint64 { return 65536 }
func (L1M) N() uint64    { return 1 << 20 }
func (L16M) N() uint64   { return 1 << 24 }
func (L4Gp1) N() uint64  { return 1<<32 + 1 }
func (L1T) N() uint64    { return 1 << 40 }

// limits whose size in bytes is beyond 64 bits, or rounds up to it
type E61 struct{}
type E62 struct{}
type E63 struct{}
type EMax struct{}

func (E61) N() uint64  { return 1 << 61 }
func (E62) N() uint64  { return 1<<62 + 1 }
func (E63) N() uint64  { return 1 << 63 }
func (EMax) N() uint64 { return 1<<64 - 1 }

type BV1 [1]byte
type BV3 [1]byte
type BV7 [1]byte
type BV8 [1]byte
type BV9 [2]byte
type BV31 [4]byte
type BV33 [5]byte
type BV63 [8]byte
type BV64 [8]byte
type BV127 [16]byte
type BV129 [17]byte
type BV255 [32]byte
type BV256 [32]byte
type BV257 [33]byte
type BV511 [64]byte
type BV513 [65]byte
type BV1000 [125]byte

func (*BV1) BitLen() uint64    { return 1 }
func (*BV3) BitLen() uint64    { return 3 }
func (*BV7) BitLen() uint64    { return 7 }
func (*BV8) BitLen() uint64    { return 8 }
func (*BV9) BitLen() uint64    { return 9 }
func (*BV31) BitLen() uint64   { return 31 }
func (*BV33) BitLen() uint64   { return 33 }
func (*BV63) BitLen() uint64   { return 63 }
func (*BV64) BitLen() uint64   { return 64 }
func (*BV127) BitLen() uint64  { return 127 }
func (*BV129) BitLen() uint64  { return 129 }
func (*BV255) BitLen() uint64  { return 255 }
func (*BV256) BitLen() uint64  { return 256 }
func (*BV257) BitLen() uint64  { return 257 }
func (*BV511) BitLen() uint64  { return 511 }
func (*BV513) BitLen() uint64  { return 513 }
func (*BV1000) BitLen() uint64 { return 1000 }

// ---- structs

type Fx struct {
	A uint8
	B uint16
	C uint32
	D uint64
	E bool
}
type Pad struct {
	A bool
	B uint64
	C bool
	D uint32
	E bool
	F uint16
}
type One struct{ A uint64 }
type OneVar struct{ A List[byte, L32] }
type Small struct {
	A uint8
	B bool
}
type Roots struct {
	Epoch uint64
	Root  [32]byte
}
type FxPtr struct {
	A *uint64
	B *Fx
	C [3]*uint16
	D **bool
}
type VarA struct {
	A uint16
	B List[byte, L33]
	C uint64
	D Bits[L9]
}
type VarFirst struct {
	A List[uint16, L5]
	B uint32
}
type VarLast struct {
	B uint32
	A List[VarA, L4]
}
type VarPtr struct {
	A *VarA
	B *List[uint32, L17]
	C uint8
	D *Roots
}
type Nested struct {
	X Fx
	Y VarA
	Z List[VarA, L5]
	W List[Fx, L300]
}
type Emb struct {
	Fx
	VarA
	Q uint8
}
type Sq struct {
	P VarA `ssz:"squash"`
	R uint8
	S Pad `ssz:"squash"`
}
type Om struct {
	A      uint8
	Secret string `ssz:"omit"`
	B      List[byte, L100]
	Cache  map[string]int `ssz:"omit"`
	C      [2]uint16
	Tail   [5]byte `ssz:"omit"`
}
type OmIn struct {
	N    uint64 `ssz:"omit"`
	In   Om
	Ptr  *Om
	Arr  [2]Om
	More interface{} `ssz:"omit"`
	Z    uint32
	End  []byte `ssz:"omit"`
}
type OmSq struct {
	Om   `ssz:"squash"`
	Junk []string `ssz:"omit"`
	X    Bits[L33]
}
type ThreeVar struct {
	A Bits[L17]
	B List[uint64, L9]
	C List[byte, L1T]
}
type AllLists struct {
	A List[bool, L65]
	B List[uint8, L257]
	C List[uint16, L33]
	D List[uint32, L17]
	E List[uint64, L15]
	F Bits[L256]
	G List[Small, L7]
	H List[OneVar, L3]
}
type AllVecs struct {
	A [33]bool
	B [31]byte
	C [17]uint16
	D [9]uint32
	E [5]uint64
	F BV129
	G [3]Small
	H [2]OneVar
}
type BigFx struct {
	A [64]uint64
	B [100]Small
	C BV1000
	D [300]byte
}
type Deep struct {
	A List[List[List[uint16, L4], L3], L5]
	B List[Bits[L10], L6]
	C List[List[byte, L2048], L1M]
}
type Deep2 struct {
	P *Deep
	Q [2]Nested
	R List[Deep, L3]
}
type Att struct {
	Agg  Bits[L2048]
	Data struct {
		Slot   uint64
		Index  uint64
		Block  [32]byte
		Source Roots
		Target Roots
	}
	Sig [96]byte
}
type Block struct {
	Slot   uint64
	Parent [32]byte
	State  [32]byte
	Body   struct {
		Reveal [96]byte
		Atts   List[Att, L128]
		Deps   List[struct {
			Proof [33][32]byte
			Data  Roots
		}, L16]
		Exits List[Roots, L16]
	}
	Sig [96]byte
}
type Ticks struct {
	Times  List[uint64, L4096]
	Flags  List[bool, L4096]
	Blob   List[byte, L65536]
	Mask   Bits[L65536]
	Prices List[uint32, L16M]
}
type PtrList struct {
	A List[*uint64, L16]
	B List[*Fx, L9]
	C List[*VarA, L7]
	D List[**Small, L5]
}

// different types of the same name
func sameName1() reflect.Type {
	type Item struct {
		A uint16
		B List[byte, L33]
	}
	return ty[Item]()
}
func sameName2() reflect.Type {
	type Item struct {
		A uint32
		B List[byte, L31]
		C bool
	}
	return ty[Item]()
}
func sameName3() reflect.Type {
	type Item struct {
		A [3]uint16
		C bool
	}
	return ty[Item]()
}

// wideStruct has n fields, every few of them of variable size.
func wideStruct(n, every int) reflect.Type {
	var fs []reflect.StructField
	fixed := []reflect.Type{ty[uint8](), ty[uint32](), ty[bool](), ty[[3]byte](), ty[uint64](), ty[Small](), ty[uint16]()}
	vars := []reflect.Type{ty[List[byte, L9]](), ty[Bits[L17]](), ty[List[uint16, L5]](), ty[OneVar](), ty[List[OneVar, L3]]()}
	for i := 0; i < n; i++ {
		g := fixed[i%len(fixed)]
		if every > 0 && i%every == every-1 {
			g = vars[i/every%len(vars)]
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g})
	}
	return reflect.StructOf(fs)
}

// deepStruct is a struct in a struct in a struct ...
func deepStruct(n int, in reflect.Type) reflect.Type {
	for i := 0; i < n; i++ {
		a, b := ty[uint8](), in
		switch i % 4 {
		case 1:
			a, b = in, ty[uint16]()
		case 2:
			b = reflect.PtrTo(in)
		case 3:
			b = reflect.ArrayOf(1, in)
		}
		in = reflect.StructOf([]reflect.StructField{{Name: "A", Type: a}, {Name: "B", Type: b}})
	}
	return in
}

var Shapes = []reflect.Type{
	sameName1(), sameName2(), sameName3(), ty[List[struct{ A List[byte, L4] }, L5]](),
	wideStruct(17, 0), wideStruct(33, 5), wideStruct(65, 2), wideStruct(70, 1), wideStruct(129, 7), wideStruct(258, 3), wideStruct(300, 0),
	deepStruct(6, ty[List[uint32, L9]]()), deepStruct(16, ty[OneVar]()), deepStruct(9, ty[Small]()),
	ty[[130]OneVar](), ty[[260]List[byte, L3]](), ty[[70]Small](), ty[[257]bool](), ty[[300]Bits[L9]](), ty[[2][70000]byte](), ty[List[[70000]byte, L3]](),
	ty[List[byte, EMax]](), ty[List[uint64, E61]](), ty[List[uint32, E62]](), ty[List[bool, EMax]](), ty[List[uint16, EMax]](), ty[List[uint64, E63]](), ty[Bits[EMax]](), ty[Bits[E63]](),
	ty[List[Small, E61]](), ty[List[OneVar, EMax]](), ty[List[List[uint64, E62], L1T]](), ty[struct {
		A List[byte, E63]
		B List[uint64, EMax]
		C uint8
		D Bits[EMax]
	}](), ty[[2]List[uint32, EMax]](),
	ty[List[byte, L0]](), ty[Bits[L0]](), ty[List[uint64, L0]](), ty[List[OneVar, L0]](), ty[struct {
		A List[bool, L0]
		B Bits[L0]
		C List[Small, L0]
		D uint16
	}](),
}

type L0 struct{}

func (L0) N() uint64 { return 0 }

// Vast are types whose sizes have bounds next to or beyond 2^64.
var Vast = []reflect.Type{
	ty[List[byte, EMax]](), ty[List[uint64, E61]](), ty[List[uint16, E63]](), ty[List[Small, E61]](), ty[List[Small, E62]](), ty[List[OneVar, E62]](), ty[List[OneVar, EMax]](), ty[List[List[uint64, E62], L1T]](),
	ty[[2]List[byte, E63]](), ty[[2]List[uint32, E61]](), ty[[4]List[List[byte, L1T], L16M]](), ty[struct {
		A List[byte, E63]
		B List[uint64, E61]
	}](), ty[List[[3]uint32, E61]](), ty[List[[4]uint64, E60]](), ty[List[VarA, E59]](), ty[List[[2]List[uint16, L1T], L16M]](), ty[List[Bits[E63], L17]](), ty[struct {
		A uint16
		B List[byte, EMax]
	}](), ty[*List[[2]Bits[EMax], L9]](), ty[struct{ A, B, C, D List[uint32, E60] }](),
}

type E60 struct{}
type E59 struct{}

func (E60) N() uint64 { return 1 << 60 }
func (E59) N() uint64 { return 1 << 59 }

// Jumbo are types for values of many megabytes or with very many elements.
var Jumbo = []reflect.Type{
	ty[List[byte, M25]](), ty[struct {
		A uint16
		B List[byte, M25]
		C List[uint32, M25]
		D uint8
		E Bits[M28]
	}](),
	ty[List[List[byte, M25], M20]](), ty[List[OneVar, M20]](), ty[struct {
		A OneVar
		B [2]List[uint64, M25]
		C List[bool, M25]
	}](),
	ty[Bits[M28]](), ty[List[[70000]byte, L300]](), ty[List[Small, M20]](), ty[struct {
		A List[List[uint16, L9], M20]
		B uint64
		C List[byte, M25]
	}](),
	ty[List[uint64, M25]](), ty[[3]struct {
		A List[byte, M25]
		B *List[uint16, M25]
	}](),
}

// Odd are types with limits that are no powers of two, above 16 bits.
var Odd = []reflect.Type{
	ty[List[byte, O65537]](), ty[List[byte, O70001]](), ty[List[bool, O65535]](), ty[List[uint16, O70001]](), ty[List[uint16, O33333]](), ty[List[uint32, O66000]](), ty[List[uint64, O70001]](), ty[List[uint64, O8193]](),
	ty[Bits[O65535]](), ty[Bits[O65537]](), ty[Bits[O70001]](), ty[Bits[O600000]](), ty[Bits[O524289]](),
	ty[List[Small, O66000]](), ty[List[[3]byte, O70001]](), ty[List[List[byte, O70001], O33333]](), ty[List[OneVar, O66000]](), ty[List[Bits[O600000], L3]](),
	ty[struct {
		A Bits[O70001]
		B uint32
		C List[uint32, O33333]
		D List[byte, O65537]
	}](), ty[[2]List[uint16, O66000]](), ty[[70000]uint16](), ty[[40000]uint64](), ty[[66000]bool](), ty[BV70001](), ty[struct {
		A [70000]uint32
		B List[[33000]uint16, L3]
	}](), ty[*List[List[uint16, O33333], L9]](),
	ty[List[Roots, M20]](), ty[List[[32]byte, M20]](), ty[List[Fx, O70001]](), ty[List[FxPtr, O33333]](), ty[[5000][32]byte](), ty[[4500]Pad](), ty[List[BigFx, M20]](),
	ty[List[VarA, O33333]](), ty[List[*Roots, O66000]](), ty[[9000]OneVar](), ty[List[[5]bool, O66000]](), ty[List[VarPtr, O70001]](), ty[List[List[Roots, O8193], O33333]](), ty[struct {
		V List[Roots, O70001]
		B List[uint64, O70001]
		P List[Pad, O8193]
	}](),
}

type O8193 struct{}
type O33333 struct{}
type O65535 struct{}
type O65537 struct{}
type O66000 struct{}
type O70001 struct{}
type O524289 struct{}
type O600000 struct{}

func (O8193) N() uint64   { return 8193 }
func (O33333) N() uint64  { return 33333 }
func (O65535) N() uint64  { return 65535 }
func (O65537) N() uint64  { return 65537 }
func (O66000) N() uint64  { return 66000 }
func (O70001) N() uint64  { return 70001 }
func (O524289) N() uint64 { return 524289 }
func (O600000) N() uint64 { return 600000 }

type BV70001 [8751]byte

func (*BV70001) BitLen() uint64 { return 70001 }

type M20 struct{}

func (M20) N() uint64 { return 1 << 20 }

type M25 struct{}

func (M25) N() uint64 { return 1 << 25 }

type M28 struct{}

func (M28) N() uint64 { return 1 << 28 }

// list element types with omitted memory
type OmEl struct {
	A uint8
	M [40]byte `ssz:"omit"`
	B uint16
}
type OmVarEl struct {
	A List[byte, L8]
	M string `ssz:"omit"`
}
type U64 uint64
type U8 uint8
type Flag bool
type Named struct {
	A U64
	B U8
	C Flag
	D [4]U64
	E List[U64, L12]
	F [5]Flag
}

type Group struct {
	Name   string
	Weight int
	Types  []reflect.Type
}

func ty[T any]() reflect.Type { var p *T; return reflect.TypeOf(p).Elem() }

var Basic = []reflect.Type{ty[uint64](), ty[uint8](), ty[uint16](), ty[uint32](), ty[bool](), ty[U64](), ty[Flag]()}

var FixedSeries = []reflect.Type{
	ty[[1]byte](), ty[[4]byte](), ty[[20]byte](), ty[[31]byte](), ty[[32]byte](), ty[[33]byte](), ty[[48]byte](), ty[[64]byte](), ty[[65]byte](), ty[[96]byte](), ty[[128]byte](), ty[[129]byte](),
	ty[[1]uint64](), ty[[3]uint64](), ty[[4]uint64](), ty[[5]uint64](), ty[[8]uint64](), ty[[33]uint64](), ty[[1]uint16](), ty[[2]uint16](), ty[[15]uint16](), ty[[16]uint16](), ty[[17]uint16](), ty[[33]uint16](),
	ty[[1]uint32](), ty[[2]uint32](), ty[[7]uint32](), ty[[8]uint32](), ty[[9]uint32](), ty[[1]bool](), ty[[2]bool](), ty[[31]bool](), ty[[32]bool](), ty[[33]bool](), ty[[64]bool](), ty[[65]bool](),
	ty[BV1](), ty[BV3](), ty[BV7](), ty[BV8](), ty[BV9](), ty[BV31](), ty[BV33](), ty[BV63](), ty[BV64](), ty[BV127](), ty[BV129](), ty[BV255](), ty[BV256](), ty[BV257](), ty[BV511](), ty[BV513](), ty[BV1000](),
	ty[[300]uint64](), ty[[5000]byte](), ty[[1000]bool](), ty[[1100]uint16](), ty[[700]uint32](),
}

var VarSeries = []reflect.Type{
	ty[List[byte, L1]](), ty[List[byte, L4]](), ty[List[byte, L31]](), ty[List[byte, L32]](), ty[List[byte, L33]](), ty[List[byte, L64]](), ty[List[byte, L65]](), ty[List[byte, L256]](), ty[List[byte, L300]](), ty[List[byte, L4096]](), ty[List[byte, L1M]](), ty[List[byte, L1T]](),
	ty[List[bool, L1]](), ty[List[bool, L7]](), ty[List[bool, L32]](), ty[List[bool, L33]](), ty[List[bool, L256]](), ty[List[bool, L4096]](), ty[List[bool, L1M]](),
	ty[List[uint16, L1]](), ty[List[uint16, L3]](), ty[List[uint16, L15]](), ty[List[uint16, L16]](), ty[List[uint16, L17]](), ty[List[uint16, L300]](), ty[List[uint16, L65536]](),
	ty[List[uint32, L2]](), ty[List[uint32, L8]](), ty[List[uint32, L9]](), ty[List[uint32, L64]](), ty[List[uint32, L1024]](), ty[List[uint32, L4Gp1]](),
	ty[List[uint64, L1]](), ty[List[uint64, L2]](), ty[List[uint64, L4]](), ty[List[uint64, L5]](), ty[List[uint64, L31]](), ty[List[uint64, L128]](), ty[List[uint64, L65536]](), ty[List[uint64, L1T]](),
	ty[List[U64, L12]](), ty[List[Flag, L11]](), ty[List[U8, L13]](),
	ty[Bits[L1]](), ty[Bits[L2]](), ty[Bits[L7]](), ty[Bits[L8]](), ty[Bits[L9]](), ty[Bits[L15]](), ty[Bits[L16]](), ty[Bits[L31]](), ty[Bits[L64]](), ty[Bits[L100]](), ty[Bits[L127]](), ty[Bits[L255]](), ty[Bits[L256]](), ty[Bits[L257]](), ty[Bits[L300]](), ty[Bits[L512]](), ty[Bits[L2048]](), ty[Bits[L65536]](), ty[Bits[L1T]](),
}

var Structs = []reflect.Type{
	ty[Fx](), ty[Pad](), ty[One](), ty[OneVar](), ty[Small](), ty[Roots](), ty[FxPtr](), ty[VarA](), ty[VarFirst](), ty[VarLast](), ty[VarPtr](), ty[Nested](), ty[Emb](), ty[Sq](), ty[Om](), ty[OmIn](), ty[OmSq](), ty[ThreeVar](), ty[AllLists](), ty[AllVecs](), ty[BigFx](), ty[Deep](), ty[Deep2](), ty[Att](), ty[Block](), ty[Ticks](), ty[PtrList](), ty[Named](),
}

var CompLists = []reflect.Type{
	ty[List[Fx, L1]](), ty[List[Fx, L3]](), ty[List[Fx, L64]](), ty[List[Pad, L300]](), ty[List[Small, L65536]](), ty[List[One, L33]](), ty[List[Roots, L128]](), ty[List[[32]byte, L4]](), ty[List[[32]byte, L1024]](), ty[List[[3]byte, L17]](), ty[List[[2]uint16, L31]](), ty[List[[5]bool, L9]](), ty[List[BV9, L10]](), ty[List[BV256, L5]](), ty[List[[33][32]byte, L3]](), ty[List[AllVecs, L3]](),
	ty[List[OneVar, L1]](), ty[List[OneVar, L2]](), ty[List[OneVar, L63]](), ty[List[VarA, L1]](), ty[List[VarA, L5]](), ty[List[VarA, L257]](), ty[List[VarFirst, L16M]](), ty[List[VarLast, L6]](), ty[List[Nested, L3]](), ty[List[Emb, L4]](), ty[List[Om, L8]](), ty[List[OmEl, L14]](), ty[List[OmVarEl, L12]](),
	ty[List[List[byte, L32], L1]](), ty[List[List[byte, L8], L4]](), ty[List[List[byte, L1024], L1024]](), ty[List[List[uint64, L5], L7]](), ty[List[List[uint16, L300], L12]](), ty[List[List[bool, L9], L10]](), ty[List[List[Fx, L4], L3]](), ty[List[List[List[uint32, L3], L4], L2]](), ty[List[Bits[L9], L5]](), ty[List[Bits[L300], L4096]](),
	ty[List[*uint64, L16]](), ty[List[*Fx, L9]](), ty[List[*VarA, L7]](), ty[List[**Small, L5]](), ty[List[*List[byte, L6], L8]](), ty[List[FxPtr, L6]](), ty[List[VarPtr, L5]](), ty[List[[2]OneVar, L7]](), ty[List[[3]List[byte, L5], L4]](), ty[List[AllLists, L4Gp1]](),
}

var CompVecs = []reflect.Type{
	ty[[1]Fx](), ty[[3]Fx](), ty[[5]Pad](), ty[[17]Small](), ty[[2][32]byte](), ty[[33][32]byte](), ty[[4][3]uint16](), ty[[3][3]bool](), ty[[2]BV9](), ty[[3]AllVecs](), ty[[2]*Fx](), ty[[5]*uint64](), ty[[6]One](),
	ty[[1]OneVar](), ty[[2]OneVar](), ty[[5]VarA](), ty[[3]List[uint32, L5]](), ty[[2]Bits[L17]](), ty[[1]List[byte, L3]](), ty[[4]List[VarA, L3]](), ty[[2]Nested](), ty[[3]*VarA](), ty[[2][2]List[uint16, L9]](), ty[[9]List[bool, L7]](), ty[[2]Om](), ty[[2]VarPtr](), ty[[40]OneVar](),
}

var All []reflect.Type

// Pointy types hold Go pointers at several levels.
func init() {
	for _, g := range [][]reflect.Type{Basic, FixedSeries, VarSeries, Structs, CompLists, CompVecs, Shapes} {
		All = append(All, g...)
	}
}

// Draw picks a type: a static one or a composition made from static ones.
func Draw(s *rt.Src) reflect.Type {
	return draw(s, 2)
}

func static(s *rt.Src) reflect.Type {
	g := [][]reflect.Type{VarSeries, Basic, FixedSeries, Structs, CompLists, CompVecs, Shapes}[s.Pick(16, 4, 12, 24, 20, 12, 2)]
	return g[s.Draw(len(g))]
}

func draw(s *rt.Src, depth int) reflect.Type {
	if depth == 0 {
		return static(s)
	}
	switch s.Pick(10, 5, 2, 1) {
	case 0:
		return static(s)
	case 1: // struct
		n := s.Draw(5) + 1
		var fs []reflect.StructField
		nonOmit := false
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
			f.Type = draw(s, depth-1)
			switch s.Draw(12) {
			case 10:
				if nonOmit {
					f.Tag = `ssz:"omit"`
				}
			case 11:
				if f.Type.Kind() == reflect.Struct {
					f.Tag = `json:"x" ssz:"foo,squash"`
				}
			}
			if f.Tag != `ssz:"omit"` {
				nonOmit = true
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	case 2: // vector
		e := draw(s, depth-1)
		max := 4
		if e.Size() < 64 {
			max = 20
		}
		return reflect.ArrayOf(s.Draw(max)+1, e)
	}
	return reflect.PtrTo(draw(s, depth-1))
}

// Wide are the types with basic series of several bytes per element, alone and inside others.
var Wide []reflect.Type

func wide(g reflect.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch g.Kind() {
	case reflect.Ptr:
		return wide(g.Elem(), d+1)
	case reflect.Array, reflect.Slice:
		switch g.Elem().Kind() {
		case reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return true
		}
		return wide(g.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			if wide(g.Field(i).Type, d+1) {
				return true
			}
		}
	}
	return false
}

func init() {
	for _, g := range All {
		if wide(g, 0) {
			Wide = append(Wide, g)
		}
	}
}

func DrawWide(s *rt.Src) reflect.Type { return Wide[s.Draw(len(Wide))] }
