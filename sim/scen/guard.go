package scen

import (
	"fmt"
	"reflect"
	"runtime"
	"syscall"
	"unsafe"

	"verif.local/sim/ref"
)

// Memory the simulator watches: areas ending at (or starting after) inaccessible pages, and padding
// around values and list contents.

const page = 4096

type area struct {
	all  []byte // data pages between two inaccessible ones
	free bool
}

var areas = map[int][]*area{} // by number of data pages
var taken []*area

// guardReset makes all areas available again.
func guardReset() {
	for _, a := range taken {
		a.free = true
	}
	taken = taken[:0]
}

func getArea(n int) *area {
	pages := (n + page - 1) / page
	for p := 1; ; p *= 2 {
		if p >= pages {
			pages = p
			break
		}
	}
	for _, a := range areas[pages] {
		if a.free {
			a.free = false
			taken = append(taken, a)
			return a
		}
	}
	m, err := syscall.Mmap(-1, 0, (pages+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		die("mmap: %v", err)
	}
	if err := syscall.Mprotect(m[:page], syscall.PROT_NONE); err != nil {
		die("mprotect: %v", err)
	}
	if err := syscall.Mprotect(m[(pages+1)*page:], syscall.PROT_NONE); err != nil {
		die("mprotect: %v", err)
	}
	a := &area{all: m[page : (pages+1)*page]}
	areas[pages] = append(areas[pages], a)
	taken = append(taken, a)
	return a
}

type fence struct {
	mem  []byte
	snap []byte
	what string
}

type fences []fence

func (f *fences) add(mem []byte, what string) {
	if len(mem) > 0 {
		*f = append(*f, fence{mem, append([]byte(nil), mem...), what})
	}
}

func (f fences) check() error {
	for _, x := range f {
		for i := range x.mem {
			if x.mem[i] != x.snap[i] {
				return fmt.Errorf("memory %s was changed: byte %d of %d from %#x to %#x", x.what, i, len(x.mem), x.snap[i], x.mem[i])
			}
		}
	}
	return nil
}

func fill(b []byte) {
	for i := range b {
		b[i] = 0xc7
	}
}

// guarded returns n bytes directly before (or after) an inaccessible page.
func (e *Env) guarded(n int, f *fences, what string) unsafe.Pointer {
	a := getArea(n)
	fill(a.all)
	at := len(a.all) - n
	if e.S.Draw(3) == 2 {
		at = 0
		f.add(a.all[n:], "after "+what)
	} else {
		f.add(a.all[:at], "before "+what)
	}
	mem := a.all[at : at+n]
	for i := range mem {
		mem[i] = 0
	}
	e.Probe("next to an inaccessible page")
	return unsafe.Pointer(&mem[0])
}

const maxGuard = 1 << 18

func rawOf(p unsafe.Pointer, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(p), n)
}

// place allocates a Go value for td holding v, surrounded by watched memory.
func (e *Env) place(td *TD, v *ref.V, f *fences) reflect.Value {
	g := td.R.Go
	var p reflect.Value
	if !td.R.HasPtr() && g.Size() <= maxGuard && e.S.Draw(2) == 1 {
		p = reflect.NewAt(g, e.guarded(int(g.Size()), f, "the value"))
	} else {
		s := reflect.MakeSlice(reflect.SliceOf(g), 3, 3)
		base := unsafe.Pointer(s.Pointer())
		sz := g.Size()
		lo, hi := rawOf(base, sz), rawOf(unsafe.Add(base, 2*sz), sz)
		if td.R.HasPtr() {
			td.R.Set(s.Index(0), td.R.Gen(e.S, 60), false)
			td.R.Set(s.Index(2), td.R.Gen(e.S, 60), false)
		} else {
			fill(lo)
			fill(hi)
		}
		f.add(lo, "before the value")
		f.add(hi, "after the value")
		p = s.Index(1).Addr()
	}
	td.R.Set(p.Elem(), v, false)
	n := 24
	e.fenceSlices(td.R, p.Elem(), f, &n)
	return p
}

// fenceSlices moves the contents of lists into larger arrays, of which the list only has a part.
func (e *Env) fenceSlices(t *ref.T, rv reflect.Value, f *fences, left *int) {
	for i := 0; i < t.Ptrs; i++ {
		if rv.IsNil() {
			return
		}
		rv = rv.Elem()
	}
	if *left <= 0 {
		return
	}
	switch t.K {
	case ref.BasicList, ref.Bitlist, ref.List:
		*left--
		n := rv.Len()
		el := rv.Type().Elem()
		ptr := t.K == ref.List && t.Elem.HasPtr()
		size := int(el.Size())
		extra := []int{0, 0, 1, 5, 40}[e.S.Draw(5)]
		if uint64(extra) > 40*64/uint64(size)+1 {
			extra = 1
		}
		if n+extra == 0 {
			break
		}
		if !ptr && (n+extra)*size <= maxGuard && e.S.Draw(2) == 1 {
			mem := e.guarded((n+extra)*size, f, "list contents")
			hdr := sliceAt(rv.Type(), mem, n, n+extra)
			reflect.Copy(hdr, rv)
			rv.Set(hdr)
		} else {
			h, tl := e.S.Draw(3), e.S.Draw(3)+1
			arr := reflect.MakeSlice(rv.Type(), h+n+extra+tl, h+n+extra+tl)
			base := unsafe.Pointer(arr.Pointer())
			lo := rawOf(base, uintptr(h*size))
			hi := rawOf(unsafe.Add(base, (h+n+extra)*size), uintptr(tl*size))
			if !ptr {
				fill(lo)
				fill(hi)
			} else {
				for i := 0; i < tl; i++ {
					t.Elem.Set(arr.Index(h+n+extra+i), t.Elem.Gen(e.S, 30), false)
				}
			}
			part := arr.Slice3(h, h+n, h+n+extra)
			reflect.Copy(part, rv)
			rv.Set(part)
			f.add(lo, "before the list contents")
			f.add(hi, "after the capacity of a list")
		}
	}
	switch t.K {
	case ref.Vec, ref.List:
		for i := 0; i < rv.Len() && i < 5; i++ {
			e.fenceSlices(t.Elem, rv.Index(i), f, left)
		}
	case ref.Cont:
		for _, x := range t.F {
			e.fenceSlices(x.T, rv.FieldByIndex(x.Path), f, left)
		}
	}
}

func sliceAt(t reflect.Type, mem unsafe.Pointer, n, c int) reflect.Value {
	s := reflect.New(t)
	h := (*struct {
		p    unsafe.Pointer
		n, c int
	})(s.UnsafePointer())
	h.p, h.n, h.c = mem, n, c
	return s.Elem()
}

// memory returns a view of everything the value owns: its own memory and what it refers to.
func memory(td *TD, p reflect.Value) (out []fence) {
	var f fences
	f.add(rawOf(p.UnsafePointer(), td.R.Go.Size()), "of the value")
	for _, r := range td.R.Regions(p.Elem(), "", nil) {
		f.add(rawOf(unsafe.Pointer(r.Start), r.End-r.Start), "of the value ("+r.What+")")
	}
	return f
}

var garbage [][]byte

// churn makes the allocator reuse what was freed.
func churn() {
	garbage = garbage[:0]
	for _, n := range []int{8, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024, 4096} {
		for i := 0; i < 12; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = 0xee
			}
			garbage = append(garbage, b)
		}
	}
}

func collect() {
	runtime.GC()
	churn()
}

//go:noinline
func deep(n int) int {
	var pad [512]byte
	pad[n%512] = byte(n)
	if n == 0 {
		return int(pad[0])
	}
	return deep(n-1) + int(pad[1])
}
