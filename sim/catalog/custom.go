package catalog

import (
	"fmt"
	"reflect"

	"verif.local/sim/rt"
)

// Cust marks the places a custom component is plugged into. To the model it is a byte list.
type Cust []byte

func (*Cust) Limit() uint64 { return 1 << 40 }

var CustType = reflect.TypeOf(Cust(nil))

type cuA struct {
	A uint16
	C Cust
	B List[byte, L33]
}

// exported types with components in every kind of position
type CuOne struct{ C Cust }
type CuTwo struct{ C, D Cust }
type CuMid struct {
	A List[byte, L33]
	C Cust
	B Bits[L64]
	D uint32
	E List[uint16, L9]
}
type CuFirst struct {
	C Cust
	X uint64
	A List[VarA, L5]
}
type CuLast struct {
	A List[uint64, L5]
	B [3]bool
	C Cust
}
type CuPtr struct {
	A *Cust
	B *CuMid
	C List[*Cust, L5]
}
type CuNest struct {
	A CuMid
	B List[Cust, L9]
	C [2]Cust
	D List[CuOne, L5]
	E CuFirst
}
type CuEmb struct {
	CuTwo
	X uint8
	S CuMid `ssz:"squash"`
}

var CustTypes = []reflect.Type{
	ty[CuOne](), ty[CuTwo](), ty[CuMid](), ty[CuFirst](), ty[CuLast](), ty[CuPtr](), ty[CuNest](), ty[CuEmb](),
	ty[List[Cust, L5]](), ty[List[Cust, L300]](), ty[[1]Cust](), ty[[3]Cust](), ty[List[CuOne, L7]](), ty[List[CuMid, L6]](), ty[[2]CuMid](), ty[List[List[Cust, L4], L5]](), ty[List[[2]Cust, L5]](), ty[[2]List[Cust, L6]](), ty[List[*Cust, L8]](), ty[*CuNest](), ty[Cust](), ty[*Cust](), ty[List[CuNest, L3]](),
}

// DrawCust picks a type that has custom components in it.
func DrawCust(s *rt.Src) reflect.Type {
	pick := func() reflect.Type { return CustTypes[s.Draw(len(CustTypes))] }
	switch s.Pick(8, 3, 1) {
	case 0:
		return pick()
	case 1:
		n := s.Draw(4) + 1
		at := s.Draw(n)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			g := CustType
			switch {
			case i == at && s.Draw(2) == 1:
				g = pick()
			case i != at:
				g = static(s)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g})
		}
		return reflect.StructOf(fs)
	}
	return reflect.ArrayOf(s.Draw(4)+1, pick())
}

var _ = cuA{}
