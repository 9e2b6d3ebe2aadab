//go:build custom

package scen

import (
	"bytes"
	"errors"
	"io"
	"math"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

// The reader and the writer that components are given, driven by programs of the application's own.

func init() { Scenarios["C26"] = c26 }

const (
	llRead = iota
	llByte
	llU16
	llU32
	llU64
	llOffset
	llSkip
	llDecode
	llDry
	llScope
	llOver  // asks for more than there is in the scope
	llWrite // writers only
	llEncode
	llBadOffset
)

var llNames = [...]string{"Read", "ReadByte", "ReadUint16", "ReadUint32", "ReadUint64", "ReadOffset", "Skip", "Decode", "DryCheck", "Scope", "refused operation", "Write", "Encode", "WriteOffset"}

type llStep struct {
	kind int
	n    uint64 // bytes it takes from the reader it is done with
	way  int    // of a refused operation
	arg  uint64
	td   *TD
	v    *ref.V
	wrap bool // in a scope of its own
	fuzz bool
	sub  []llStep
	data []byte
}

func (e *Env) llBytes(n int) []byte {
	p := prng{uint64(e.S.Draw(1 << 20))}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p.n(256))
	}
	return b
}

func (e *Env) llCount() int {
	switch e.S.Pick(4, 3, 1, 1) {
	case 0:
		return e.S.Draw(9)
	case 1:
		return e.S.Draw(70)
	case 2:
		return e.S.Draw(700)
	}
	return []int{0, 31, 32, 33, 511, 512, 4096, 8192, 9000}[e.S.Draw(9)]
}

func (e *Env) llValue(s *llStep) []byte {
	s.td = e.Type()
	for i := 0; i < 4 && s.td.R.Min > 4096; i++ {
		s.td = e.Type()
	}
	s.v = e.Gen(s.td, 100)
	s.wrap = !s.td.R.Fixed || e.S.Draw(2) == 1
	return s.td.R.Enc(s.v)
}

// llReads draws operations of a reader and the bytes they are about.
func (e *Env) llReads(depth int, fuzz bool, data []byte) ([]llStep, []byte) {
	var out []llStep
	for i := e.S.Draw([]int{4, 8, 14}[e.S.Draw(3)]); i > 0; i-- {
		s := llStep{kind: e.S.Pick(4, 1, 1, 1, 1, 1, 4, 2, 2, 4, 4)}
		if s.kind == llScope && depth > 5 {
			s.kind = llSkip
		}
		if fuzz && (s.kind == llDecode || s.kind == llDry) { // means something else there
			s.kind = llRead
		}
		at := len(data)
		switch s.kind {
		case llRead, llSkip:
			data = append(data, e.llBytes(e.llCount())...)
		case llByte:
			data = append(data, e.llBytes(1)...)
		case llU16:
			data = append(data, e.llBytes(2)...)
		case llU32, llOffset:
			data = append(data, e.llBytes(4)...)
		case llU64:
			data = append(data, e.llBytes(8)...)
		case llDecode, llDry:
			data = append(data, e.llValue(&s)...)
		case llScope:
			s.fuzz = e.S.Draw(6) == 5
			s.sub, data = e.llReads(depth+1, fuzz || s.fuzz, data)
			s.n = uint64(len(data) - at)
			if e.S.Draw(3) == 2 { // something is left for the one who made the scope
				rest := e.llBytes(e.llCount())
				s.n += uint64(len(rest))
				out = append(out, s)
				data = append(data, rest...)
				out = append(out, llStep{kind: []int{llRead, llSkip}[e.S.Draw(2)], n: uint64(len(rest))})
				continue
			}
		case llOver:
			s.way = e.S.Draw(4)
			s.arg = []uint64{1, 2, 9, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 40}[e.S.Draw(10)]
			s.fuzz = e.S.Draw(2) == 1 // counted from 0 instead of from what is left
		}
		if s.kind != llScope {
			s.n = uint64(len(data) - at)
		}
		out = append(out, s)
	}
	return out, data
}

// llRun is one stream and the reader program on it.
type llRun struct {
	e    *Env
	data []byte
	end  int
	err  error
	pos  func() int
	at   int // bytes taken so far
	over bool
}

// done ends a program early.
var errDone = errors.New("done")

func (e *Env) llReader() func() {
	steps, data := e.llReads(0, false, nil)
	c := e.RdCfg()
	c.Wrap = []int{0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9}[e.S.Draw(12)]
	l := &llRun{e: e, data: data, end: len(data), err: io.EOF}
	if e.S.Draw(2) == 1 {
		c.Cut, c.CutErr = e.S.Draw(len(data)+1), e.cutErr()
		l.end, l.err = c.Cut, c.CutErr
	}
	scoped := e.S.Draw(3) != 2
	max := uint64(math.MaxUint64)
	if scoped {
		max = uint64(len(data))
		if e.S.Draw(4) == 3 { // a scope the stream does not fill
			max = []uint64{max + 1, max + 40, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, math.MaxUint64}[e.S.Draw(7)]
		}
	}
	if max > uint64(len(data)) && e.S.Draw(3) == 2 {
		n := []uint64{1, 2, 33, 5000, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, math.MaxUint64}[e.S.Draw(9)]
		if left := max - uint64(len(data)); n > left {
			n = left
		}
		s := llStep{kind: llSkip, n: n}
		if n <= 1<<16 && e.S.Draw(2) == 1 {
			s.kind = llRead
		}
		steps = append(steps, s)
	}
	rd := e.NewRd(data, c)
	e.Desc("reader: %d steps on %d bytes, scoped %v of %d, %s", len(steps), len(data), scoped, max, c)
	return func() {
		r, pos := rd.R()
		l.pos = pos
		var dr *dec.DecodingReader
		if pan := e.try(func() { dr = dec.NewDecodingReader(r) }); pan != nil {
			e.Fail("panic", "making a reader panics: %s", pan)
		}
		if scoped {
			root := dr
			var err error
			if pan := e.try(func() { dr, err = root.Scope(max) }); pan != nil || err != nil {
				e.Fail("scope", "a scope of %d bytes of an unlimited reader: %v, panic %s", max, err, pan)
			}
			if l.steps(dr, max, steps) == nil {
				root.UpdateIndexFromScoped(dr)
				l.account(root, 0, math.MaxUint64, "after the scope")
			}
			return
		}
		l.steps(dr, max, steps)
	}
}

// account checks what a reader says about its position.
func (l *llRun) account(dr *dec.DecodingReader, start int, max uint64, what string) {
	i := uint64(l.at - start)
	if dr.Index() != i || dr.Max() != max || dr.GetBytesSpan() != max-i {
		l.e.Fail("account", "%s: the reader is at %d of %d, says it is at %d of %d with %d left", what, i, max, dr.Index(), dr.Max(), dr.GetBytesSpan())
	}
	if p := l.pos(); p != l.at {
		l.e.Fail("account", "%s: %d bytes are taken from the stream, the operations were about %d", what, p, l.at)
	}
}

// steps performs the operations with a reader that has a maximum of max; not nil: the stream has ended.
func (l *llRun) steps(dr *dec.DecodingReader, max uint64, steps []llStep) error {
	e := l.e
	start := l.at
	for _, s := range steps {
		rt.Between()
		span := max - uint64(l.at-start)
		what := llNames[s.kind]
		l.account(dr, start, max, "before a "+what)
		var n int
		var err error
		var got []byte
		var num, size uint64
		var pan *Pan
		switch s.kind {
		case llScope:
			var sub *dec.DecodingReader
			pan = e.try(func() { sub, err = dr.Scope(s.n) })
			if pan != nil || err != nil {
				e.Fail("scope", "a scope of %d bytes where %d are left: %v, panic %s", s.n, span, err, pan)
			}
			if s.fuzz {
				before := dr.IsFuzzMode()
				sub.EnableFuzzMode()
				if !sub.IsFuzzMode() || dr.IsFuzzMode() != before {
					e.Fail("mode", "fuzz mode is enabled for a scope: its reader says %v, the outer one %v (before %v)", sub.IsFuzzMode(), dr.IsFuzzMode(), before)
				}
			}
			if err := l.steps(sub, s.n, s.sub); err != nil {
				return err
			}
			dr.UpdateIndexFromScoped(sub)
			e.Probe("scope")
			continue
		case llOver:
			if err := l.refuse(dr, s, span, start, max); err != nil {
				return err
			}
			continue
		case llRead:
			got = make([]byte, s.n)
			pan = e.try(func() { n, err = dr.Read(got) })
		case llByte:
			var x byte
			pan = e.try(func() { x, err = dr.ReadByte() })
			num, size = uint64(x), 1
		case llU16:
			var x uint16
			pan = e.try(func() { x, err = dr.ReadUint16() })
			num, size = uint64(x), 2
		case llU32:
			var x uint32
			pan = e.try(func() { x, err = dr.ReadUint32() })
			num, size = uint64(x), 4
		case llU64:
			pan = e.try(func() { num, err = dr.ReadUint64() })
			size = 8
		case llOffset:
			pan = e.try(func() { num, err = dr.ReadOffset() })
			size = 4
		case llSkip:
			pan = e.try(func() { n, err = dr.Skip(s.n) })
		case llDecode, llDry:
			sub := dr
			if s.wrap {
				if pan = e.try(func() { sub, err = dr.Scope(s.n) }); pan != nil || err != nil {
					e.Fail("scope", "a scope of %d bytes where %d are left: %v, panic %s", s.n, span, err, pan)
				}
			}
			what += " of a " + s.td.R.String()
			var dst reflect.Value
			if s.kind == llDry {
				pan = e.try(func() { err = s.td.Def.DryCheck(sub) })
			} else {
				dst = s.td.Zero()
				pan = e.try(func() { err = s.td.Def.Decode(sub, unsafe.Pointer(dst.Pointer())) })
			}
			if pan == nil && err == nil {
				if s.wrap {
					dr.UpdateIndexFromScoped(sub)
				}
				l.pos()
				if s.kind == llDecode && s.n <= uint64(l.end-l.at) {
					if v := s.td.Get(dst); !ref.Equal(v, s.v) {
						e.Fail("value", "%s gives %s, want %s", what, v, s.v)
					}
				}
			}
			runtime.KeepAlive(dst)
		}
		if pan != nil {
			e.Fail("panic", "%s panics: %s", what, pan)
		}
		if s.n > uint64(l.end-l.at) {
			if err == nil {
				e.Fail("end missed", "%s of %d bytes at %d succeeds although the stream ends at %d", what, s.n, l.at, l.end)
			}
			if s.n < 1<<62 && l.err != io.EOF && l.err != io.ErrUnexpectedEOF && !errors.Is(err, l.err) { // a skip of more may be refused without asking
				e.Fail("error lost", "%s: the stream fails with %q, the error is %v", what, l.err, err)
			}
			if p := l.pos(); p > l.at && uint64(p-l.at) > s.n {
				e.Fail("over-read", "%s of %d bytes at %d takes the stream to %d", what, s.n, l.at, p)
			}
			e.Probe("stream ended")
			return errDone
		}
		if err != nil {
			e.Fail("refused", "%s of %d bytes at %d of a stream of %d, with %d left in the scope: %v", what, s.n, l.at, l.end, span, err)
		}
		want := l.data[l.at : l.at+int(s.n)]
		l.at += int(s.n)
		switch {
		case s.kind == llRead && (n != len(got) || !bytes.Equal(got, want)):
			e.Fail("bytes", "%s of %d bytes gives %d: %s, want %s", what, s.n, n, hexs(got), hexs(want))
		case s.kind == llSkip && n != int(s.n):
			e.Fail("count", "%s of %d bytes says %d", what, s.n, n)
		case size > 0:
			w := uint64(0)
			for i := range want {
				w |= uint64(want[i]) << (8 * uint(i))
			}
			if w != num {
				e.Fail("bytes", "%s gives %d, the bytes are %x", what, num, want)
			}
		}
		l.account(dr, start, max, "after a "+what)
	}
	return nil
}

// refuse asks for more than the scope has.
func (l *llRun) refuse(dr *dec.DecodingReader, s llStep, span uint64, start int, max uint64) error {
	e := l.e
	n := s.arg
	if !s.fuzz {
		if n += span; n < span {
			n = s.arg
		}
	}
	if n <= span {
		return nil
	}
	var err error
	var pan *Pan
	k := 0
	what := "Scope"
	switch s.way {
	case 0, 1:
		what = "Skip"
		pan = e.try(func() { k, err = dr.Skip(n) })
	case 2:
		pan = e.try(func() { _, err = dr.Scope(n) })
	case 3:
		if what = "Read"; n > 1<<16 {
			if n = span + 1; span > 1<<16 {
				return nil
			}
		}
		if span < 8 && n > span && s.arg > 1<<40 {
			what, n = "ReadUint64", 8
			pan = e.try(func() { _, err = dr.ReadUint64() })
			break
		}
		buf := make([]byte, n)
		if s.arg&1 == 1 {
			what = "io.ReadFull"
			pan = e.try(func() { k, err = io.ReadFull(dr, buf) })
		} else {
			pan = e.try(func() { k, err = dr.Read(buf) })
		}
	}
	if pan != nil {
		e.Fail("panic", "%s of %d bytes where %d are left panics: %s", what, n, span, pan)
	}
	if k != 0 {
		e.Fail("count", "%s of %d bytes where %d are left is refused (%v) and says it took %d", what, n, span, err, k)
	}
	if err == nil {
		e.Fail("beyond scope", "%s of %d bytes succeeds where %d are left", what, n, span)
	}
	e.Soft++
	e.Probe("more than the scope refused")
	l.account(dr, start, max, "after a refused "+what)
	return nil
}

// ---------------------------------------------------------------- writers

func (e *Env) llWriter() func() {
	var steps []llStep
	total := 0
	for i := e.S.Draw([]int{4, 8, 14}[e.S.Draw(3)]); i > 0; i-- {
		s := llStep{kind: []int{llWrite, llWrite, llByte, llOffset, llEncode, llBadOffset}[e.S.Draw(6)]}
		switch s.kind {
		case llWrite:
			s.data = e.llBytes(e.llCount())
		case llByte:
			s.data = e.llBytes(1)
		case llOffset:
			s.n = uint64(e.S.Draw(1<<16)) << uint(e.S.Draw(17))
			s.arg = uint64(e.S.Draw(1<<16)) << uint(e.S.Draw(17))
			if e.S.Draw(4) == 3 {
				s.arg = 1<<32 - 1 - s.n
			}
			x := s.n + s.arg
			if x >= 1<<32 {
				s.kind = llBadOffset
				break
			}
			s.data = []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
		case llEncode:
			s.data = e.llValue(&s)
		case llBadOffset:
			s.n = []uint64{1<<32 - 1, 1 << 32, 1<<32 - 100, 1 << 40, math.MaxUint64, 1 << 63}[e.S.Draw(6)]
			s.arg = []uint64{1, 1 << 32, 101, 1 << 31, math.MaxUint64, 1 << 63}[e.S.Draw(6)]
			if s.n < 1<<32 && s.arg < 1<<32 && s.n+s.arg < 1<<32 {
				s.arg = 1 << 32
			}
		}
		total += len(s.data)
		steps = append(steps, s)
	}
	c := e.WrCfg()
	if e.S.Draw(2) == 1 {
		c.Fail, c.Style = e.S.Draw(total+1), e.S.Draw(4)
		if c.Err = errDisk; c.Style == 3 {
			c.Err = io.ErrShortWrite
		}
	}
	w := e.NewWr(c)
	e.Desc("writer: %d steps, %d bytes, fails at %d", len(steps), total, c.Fail)
	objs := make([]reflect.Value, len(steps))
	for i, s := range steps {
		if s.kind == llEncode {
			objs[i] = s.td.New(s.v)
		}
	}
	return func() {
		var ew *enc.EncodingWriter
		if pan := e.try(func() { ew = enc.NewEncodingWriter(w.W()) }); pan != nil {
			e.Fail("panic", "making a writer panics: %s", pan)
		}
		var want []byte
		for i, s := range steps {
			rt.Between()
			what := llNames[s.kind]
			var err error
			var pan *Pan
			switch s.kind {
			case llWrite:
				pan = e.try(func() { err = ew.Write(s.data) })
			case llByte:
				what = "WriteByte"
				pan = e.try(func() { err = ew.WriteByte(s.data[0]) })
			case llOffset:
				what = "WriteOffset"
				var x uint64
				pan = e.try(func() { x, err = ew.WriteOffset(s.n, s.arg) })
				if pan == nil && err == nil && x != s.n+s.arg {
					e.Fail("offset", "%s(%d, %d) gives %d", what, s.n, s.arg, x)
				}
			case llBadOffset:
				pan = e.try(func() { _, err = ew.WriteOffset(s.n, s.arg) })
				if pan == nil && err == nil {
					e.Fail("wrapped", "%s(%d, %d) succeeds", what, s.n, s.arg)
				}
				if w.Failed {
					return
				}
				pan, err = nil, nil
				e.Soft++
				e.Probe("offset refused")
			case llEncode:
				what += " of a " + s.td.R.String()
				p := unsafe.Pointer(objs[i].Pointer())
				var n uint64
				if pan = e.try(func() { n = s.td.Def.SizeOf(p) }); pan == nil && n != uint64(len(s.data)) {
					e.Fail("size", "SizeOf a %s of %d bytes gives %d", s.td.R, len(s.data), n)
				}
				pan = e.try(func() { err = s.td.Def.Encode(ew, p) })
			}
			want = append(want, s.data...)
			if pan != nil {
				e.Fail("panic", "%s panics: %s", what, pan)
			}
			if ew.Written() != len(w.Got()) {
				e.Fail("count", "after a %s: the sink accepted %d bytes, the writer says %d", what, len(w.Got()), ew.Written())
			}
			if w.Failed {
				if err == nil {
					e.Fail("swallowed", "%s succeeds although the sink fails after %d bytes", what, len(w.Got()))
				}
				if !errors.Is(err, c.Err) {
					e.Fail("error lost", "%s: the sink fails with %q, the error is %v", what, c.Err, err)
				}
				if !bytes.HasPrefix(want, w.Got()) {
					e.Fail("bytes", "%s: the sink has %s, want a beginning of %s", what, hexs(w.Got()), hexs(want))
				}
				return
			}
			if err != nil {
				e.Fail("refused", "%s fails: %v", what, err)
			}
			if !bytes.Equal(w.Got(), want) {
				e.Fail("bytes", "%s: the sink has %s, want %s", what, hexs(w.Got()), hexs(want))
			}
		}
		e.Probe("everything written")
		runtime.KeepAlive(objs)
	}
}

func c26(e *Env) {
	e.Schedule()
	n := 1
	if e.S.Draw(4) == 3 {
		n = e.S.Draw(2) + 2
	}
	var tasks []func()
	for i := 0; i < n; i++ {
		if e.S.Draw(3) == 2 {
			tasks = append(tasks, e.llWriter())
		} else {
			tasks = append(tasks, e.llReader())
		}
	}
	if n == 1 {
		tasks[0]()
	} else {
		e.Par(tasks...)
	}
}
