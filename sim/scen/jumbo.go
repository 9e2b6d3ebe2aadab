package scen

import (
	"bytes"
	"reflect"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
)

// Values of many megabytes or with more than 65536 elements: lengths, counts and offsets
// beyond 16 and 24 bits. Rare, because one such execution costs as much as thousands of others.
const jumboEvery = 1200

func (e *Env) isJumbo() bool {
	if e.S.Draw(jumboEvery) != jumboEvery-1 {
		return false
	}
	e.Probe("value beyond 16-bit or 24-bit lengths")
	e.fuel = 60 * opFuel
	e.big = true
	return true
}

func (e *Env) jumboType() reflect.Type {
	if e.S.Draw(2) == 0 {
		return catalog.Odd[e.S.Draw(len(catalog.Odd))]
	}
	return catalog.Jumbo[e.S.Draw(len(catalog.Jumbo))]
}

// sizes of values: mostly around 64 KiB, seldom many megabytes
var jumboSizes = []int{1 << 16, 1 << 17, 70000, 300000, 1 << 20, 1<<20 + 1<<16, 1 << 24, 5000000, 1<<24 + 1<<16}

func (e *Env) jumboVal(td *TD) *ref.V {
	return td.R.GenBig(e.S, jumboSizes[e.S.Pick(4, 4, 4, 4, 3, 3, 1, 1, 1)])
}

// jumbo is the scenario of C01 to C05 and C08 on such values.
func jumbo(e *Env, prop string) {
	td := e.Type()
	v := e.jumboVal(td)
	enc := td.R.Enc(v)
	n := len(enc)
	e.Desc("%s: %d bytes", td.R, n)
	var obj reflect.Value
	if prop == "C02" || prop == "C08" {
		obj = td.New(v)
	}
	cut := func() int {
		switch e.S.Draw(5) {
		case 0:
			return e.S.Draw(n + 1)
		case 1:
			return n - 1
		case 2:
			return minInt(n-1, 1<<16+e.S.Draw(3)-1)
		case 3:
			return minInt(n-1, 1<<24+e.S.Draw(3)-1)
		}
		return minInt(n-1, e.S.Draw(100))
	}
	if n == 0 {
		return
	}
	switch prop {
	case "C01":
		data := append(append([]byte(nil), enc...), ref.Content(e.S, e.S.Draw(2)*40, false)...)
		c := e.RdCfg()
		for i, dry := range []bool{false, true} {
			if i > 0 {
				data = append(data, 0)
			}
			r, pos := e.NewRd(data, c).R()
			var o Out
			var got *ref.V
			if dry {
				o = e.Dry(r, uint64(n), td)
			} else {
				dst := td.Zero()
				if o = e.Decode(r, uint64(n), dst, td); o.Ok {
					got = td.Get(dst)
				}
			}
			e.checkRecv(frame{td, v}, o, got, dry, pos(), n, c.String())
		}
	case "C02":
		for i := e.S.Draw(2); i >= 0; i-- {
			wc := e.WrCfg()
			if i > 0 {
				wc.Fail, wc.Style, wc.Err = cut(), e.S.Draw(4), errDisk
			}
			w := e.NewWr(wc)
			o := e.Encode(w.W(), obj, td)
			if o.Pan != nil {
				e.Fail("panic", "encoding %s panics: %s", td.R, o.Pan)
			}
			if !bytes.HasPrefix(enc, w.Got()) {
				e.Fail("bytes", "%s: wrote %d bytes, which differ from the canonical %d at byte %d", td.R, len(w.Got()), n, diffAt(w.Got(), enc))
			}
			if o.N != uint64(len(w.Got())) || w.After > 0 {
				e.Fail("count", "%s: the sink accepted %d bytes, encode reports %d (err %v), %d writes after the failed one", td.R, len(w.Got()), o.N, o.Err, w.After)
			}
			if w.Failed == (o.Err == nil) || !w.Failed && len(w.Got()) != n {
				e.Fail("failure swallowed", "%s: sink failed %v, wrote %d of %d bytes, result %v", td.R, w.Failed, len(w.Got()), n, o.Err)
			}
		}
		if sz := e.Size(obj, td); sz.Pan != nil || sz.N != uint64(n) {
			e.Fail("size", "%s: announced size %s, the serialization has %d bytes", td.R, sz, n)
		}
	case "C03":
		dst := td.Zero()
		for i := e.S.Draw(3); i >= 0; i-- {
			c := e.RdCfg()
			at := n
			if i > 0 {
				at = cut()
			}
			c.Cut, c.CutErr = at, e.cutErr()
			dry := e.S.Draw(3) == 2
			r, _ := e.NewRd(enc, c).R()
			var o Out
			if dry {
				o = e.Dry(r, uint64(n), td)
			} else {
				o = e.Decode(r, uint64(n), dst, td)
			}
			if o.Pan != nil || o.Ok != (at >= n) {
				e.Fail("truncated", "%s: stream failed after %d of %d bytes, result %s (%s, dry=%v)", td.R, at, n, o, c, dry)
			}
			if o.Ok && !dry && !ref.Equal(td.Get(dst), v) {
				e.Fail("value", "%s: %d bytes received, value differs (%s)", td.R, n, c)
			}
		}
	case "C04", "C05":
		b := enc
		for k := e.S.Draw(3); k > 0; k-- {
			b = e.corrupt(td, v, b)
			if len(b) == 0 {
				break
			}
		}
		c := e.RdCfg()
		r, _ := e.NewRd(b, c).R()
		dst := td.Zero()
		o := e.Decode(r, uint64(len(b)), dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: decoding %d damaged bytes panics: %s", td.R, len(b), o.Pan)
		}
		if prop == "C05" {
			r, _ := e.NewRd(b, e.RdCfg()).R()
			o2 := e.Dry(r, uint64(len(b)), td)
			if o2.Pan != nil || o2.Ok != o.Ok {
				e.Fail("disagree", "%s: %d bytes: decode says %s, dry check says %s (%s)", td.R, len(b), o, o2, c)
			}
			return
		}
		want, err := td.R.Dec(b)
		if o.Ok != (err == nil) {
			e.Fail("accepted or refused", "%s: %d bytes: %s, by the rules %v", td.R, len(b), o, err)
		}
		if o.Ok && !ref.Equal(td.Get(dst), want) {
			e.Fail("value", "%s: %d bytes decode to another value", td.R, len(b))
		}
	case "C08":
		h := e.UseHash()
		if o := e.Root(e.Hasher(h), obj, td); !o.Ok || o.Root != h.Root(td.R, v) {
			e.Fail("root", "%s, %d bytes: root %s, want %x", td.R, n, o, h.Root(td.R, v))
		}
	}
}
