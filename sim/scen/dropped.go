package scen

import (
	"reflect"
	"runtime"
	"unsafe"
	"weak"

	"github.com/protolambda/zssz/htr"

	"verif.local/sim/ref"
)

// A type definition that stays in use keeps nothing of what it was used with.

type dropped struct {
	what string
	p    weak.Pointer[byte]
}

// watchValue lists the memory of a value. Pieces that may share a block with others are left out.
func watchValue(td *TD, obj reflect.Value, what string, out []dropped) []dropped {
	rs := td.R.Regions(obj.Elem(), what, []ref.Region{{obj.Pointer(), obj.Pointer() + obj.Type().Elem().Size(), what}})
	for _, r := range rs {
		if r.End-r.Start >= 32 && len(out) < 200 {
			out = append(out, dropped{r.What, weak.Make((*byte)(unsafe.Add(unsafe.Pointer(nil), r.Start)))})
		}
	}
	return out
}

func watch[T any](p *T, what string, out []dropped) []dropped {
	return append(out, dropped{what, weak.Make((*byte)(unsafe.Pointer(p)))})
}

//go:noinline
func (e *Env) useAndDrop(td *TD, budget int, hash *ref.Hash) (out []dropped) {
	v := e.Gen(td, budget)
	obj := td.New(v)
	out = watchValue(td, obj, "value", out)
	for i := e.S.Draw(5) + 1; i > 0; i-- {
		switch kind := e.S.Draw(8); kind {
		case 0:
			e.Size(obj, td)
		case 1, 2:
			c := e.WrCfg()
			if e.S.Draw(4) == 3 {
				c.Fail, c.Err = e.S.Draw(200), errDisk
			}
			if e.S.Draw(6) == 5 {
				c.Panic = e.S.Draw(6)
			}
			w := e.NewWr(c)
			out = watch(w, "sink", out)
			if kind == 1 {
				e.Encode(w.W(), obj, td)
			} else {
				e.PrettyP(w.W(), obj, td)
			}
		case 3:
			hs := e.NewHs(hash)
			out = watch(hs, "hash function", out)
			if e.S.Draw(4) == 3 {
				hs.Panic = e.S.Draw(20)
			}
			var h htr.MerkleFn = hs
			if e.S.Draw(2) == 1 {
				h = hs.Fn()
			}
			if e.S.Draw(3) == 2 {
				e.SRoot(h, obj, td)
			} else {
				e.Root(h, obj, td)
			}
		default:
			var b []byte
			n := uint64(0)
			switch {
			case kind == 7:
				b = e.fuzzInput(td, budget)
				n = uint64(len(b))
			case kind == 6:
				b, n = e.damaged(td, budget)
			default:
				b = td.R.Enc(v)
				n = uint64(len(b))
			}
			c := e.RdCfg()
			if e.S.Draw(4) == 3 {
				c.Cut, c.CutErr = e.S.Draw(len(b)+1), e.cutErr()
			}
			if e.S.Draw(6) == 5 {
				c.Panic = e.S.Draw(6)
			}
			rd := e.NewRd(b, c)
			out = watch(rd, "stream", out)
			r, _ := rd.R()
			if e.S.Draw(4) == 3 {
				e.Dry(r, n, td)
				continue
			}
			dst := td.Zero()
			if kind == 7 {
				e.Fuzz(r, n, dst, td)
			} else {
				e.Decode(r, n, dst, td)
			}
			out = watchValue(td, dst, "decoded value", out)
		}
	}
	return
}

func (e *Env) c17dropped() {
	td := e.Type()
	for i := 0; i < 5 && td.R.Min > 4096; i++ {
		td = e.Type()
	}
	if e.S.Draw(2) == 1 {
		td = e.Fresh(td)
	}
	hash := hashes[e.S.Draw(len(hashes))]
	htr.InitZeroHashes(hash.F)
	e.Desc("%s: what a definition was used with is dropped", td.R)
	seen := e.useAndDrop(td, []int{60, 300, 2000}[e.S.Draw(3)], hash)
	if e.S.Draw(3) == 2 {
		seen = append(seen, e.useAndDrop(td, 300, hash)...)
	}
	for i := 0; i < 3; i++ { // pools are emptied in the second collection
		runtime.GC()
	}
	for _, d := range seen {
		if d.p.Value() != nil {
			e.Fail("kept", "%s: memory of a %s that was dropped is still in use, as long as the type definition or the library are", td.R, d.what)
		}
	}
	e.Soft++
	e.Probe("dropped while the definition stays")
	runtime.KeepAlive(td)
}
