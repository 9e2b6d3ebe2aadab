//go:build !386

package catalog

import "reflect"

type M16 struct{}

func (M16) N() uint64 { return 1 << 16 }

type M40 struct{}

func (M40) N() uint64 { return 1 << 40 }

type giantPair struct {
	A List[uint64, M40]
	B uint16
	C List[uint64, M40]
}

type giantBytes struct {
	A List[byte, M40]
	B uint32
	C Bits[M40]
	D List[uint16, M40]
}

// Giant are types for values beyond 2 GiB and 4 GiB.
var Giant = []reflect.Type{
	ty[giantPair](), ty[List[uint64, M40]](), ty[List[List[uint64, M40], M16]](), ty[giantBytes](),
	ty[List[byte, M40]](), ty[Bits[M40]](), ty[List[uint16, M40]](), ty[List[uint32, E61]](),
	ty[[3]List[uint64, M40]](), ty[List[giantPair, M16]](), ty[[2]giantPair](),
	ty[struct {
		A List[uint16, M40]
		B *giantPair
		C uint64
		D List[List[uint16, M40], M16]
		E *List[uint32, M40]
	}](),
	ty[struct { // offsets fit if B has less than 32 bytes
		A [1 << 31]byte
		B List[uint16, M40]
		C [1<<31 - 40]byte
		D List[uint64, M40]
	}](),
	ty[struct { // no offset ever fits
		A [1 << 32]byte
		B List[byte, M40]
	}](),
	ty[struct { // of fixed size
		A [1 << 31]byte
		B uint16
		C [1<<28 + 3]uint64
		D uint32
	}](),
	ty[[3][1 << 31]byte](), ty[[1<<29 + 1]uint64](), ty[List[[1<<30 + 1]byte, M16]](), ty[[1<<32 + 5]byte](),
	ty[struct {
		A List[[1 << 29]uint16, M16]
		B uint8
		C List[[1 << 31]byte, M16]
	}](),
	ty[List[List[List[uint64, M40], M16], M16]](), ty[[2]List[struct {
		A uint32
		B List[uint32, M40]
	}, M16]](),
}
