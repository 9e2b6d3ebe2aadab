package scen

import (
	"bytes"
	"encoding/binary"
	"io"
	"reflect"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C15"] = c15
}

// file is a simulated file: what was written, and how much of it survives any crash.
type file struct {
	e       *Env
	data    []byte
	synced  int
	crashAt int // the process dies when this many bytes are there (-1: not while writing)
	full    int // the disk is full at this size (-1: never)
	bad     int // the write that reaches this size fails, once (-1: none)
	chunk   int // the writing process is interruptible every so many bytes
	dead    bool
	failed  bool // a write was reported as failed
}

func (f *file) Write(p []byte) (int, error) {
	done := 0
	for done < len(p) {
		if f.dead {
			rt.StallForever()
		}
		n := len(p) - done
		if f.chunk > 0 && n > f.chunk {
			n = f.chunk
		}
		if f.full >= 0 && len(f.data)+n > f.full {
			n = f.full - len(f.data)
			if n < 0 {
				n = 0
			}
			f.data = append(f.data, p[done:done+n]...)
			f.e.Fault("disk full")
			f.failed = true
			return done + n, errFull
		}
		if f.bad >= 0 && len(f.data)+n > f.bad {
			n = max(f.bad-len(f.data), 0)
			f.data = append(f.data, p[done:done+n]...)
			f.bad = -1
			f.failed = true
			f.e.Fault("one write fails")
			return done + n, errDisk
		}
		if f.crashAt >= 0 && len(f.data)+n >= f.crashAt {
			n = f.crashAt - len(f.data)
			if n > 0 {
				f.data = append(f.data, p[done:done+n]...)
			}
			f.dead = true
			f.e.Fault("process crash while writing")
			rt.StallForever()
		}
		f.data = append(f.data, p[done:done+n]...)
		done += n
		rt.Point()
	}
	return done, nil
}

func (f *file) sync() {
	if !f.dead {
		f.synced = len(f.data)
		f.e.Sim.Logf("sync at %d", f.synced)
	}
}

type record struct {
	k   int // type
	v   *ref.V
	end int // where it ends in the file
}

const recHead = 9

func c15(e *Env) {
	if e.S.Draw(2) == 1 {
		e.Schedule()
	}
	budget := e.Budget()
	if budget > 3000 && e.S.Draw(4) != 3 {
		budget = 3000
	}
	wrap := e.S.Pick(4, 1, 1, 1)
	var rs []*ref.T
	for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
		rs = append(rs, e.Type().R)
	}
	f := &file{e: e, crashAt: -1, full: -1, bad: -1}
	var log []record // every record whose complete bytes are in f.data
	cycles := e.S.Draw(3) + 1
	for cy := 0; cy < cycles; cy++ {
		// ---- a process starts: its own definitions
		var tds []*TD
		for _, r := range rs {
			tds = append(tds, e.TypeOf(r.Go))
		}
		var todo []record
		total := len(f.data)
		var marks []int // structural positions in the bytes to be written
		for i, n := 0, e.S.Draw(5)+1; i < n; i++ {
			k := e.S.Draw(len(rs))
			v := rs[k].Gen(e.S, budget)
			_, b := rs[k].Layout(v)
			marks = append(marks, total, total+recHead)
			for j, x := range b {
				if j < 20 {
					marks = append(marks, total+recHead+x)
				}
			}
			total += recHead + len(rs[k].Enc(v))
			todo = append(todo, record{k: k, v: v, end: total})
			marks = append(marks, total)
		}
		spot := func(lo, hi int) int { // a position in [lo,hi], favouring structure
			x := lo
			if e.S.Draw(2) == 0 {
				x = marks[e.S.Draw(len(marks))] + e.S.Draw(3) - 1
			} else {
				x = lo + e.S.Draw(hi-lo+1)
			}
			if x < lo {
				x = lo
			}
			if x > hi {
				x = hi
			}
			return x
		}
		f.crashAt, f.full, f.bad, f.dead = -1, -1, -1, false
		start := len(f.data)
		switch e.S.Pick(2, 4, 2, 2) {
		case 3:
			f.bad = spot(start, total)
		case 1:
			f.crashAt = spot(start, total)
		case 2:
			f.full = spot(start, total)
		}
		f.chunk = []int{0, 1, 5, 64, 1000}[e.S.Draw(5)]
		if f.chunk == 1 && total-start > 3000 {
			f.chunk = 64
		}
		buffered := e.S.Draw(3) == 2
		inPlace := e.S.Draw(2) == 1
		syncEvery := []int{0, 1, 2, 3}[e.S.Draw(4)]
		bg := e.S.Draw(3) == 2
		gap := e.S.Draw(1000) + 1
		e.Desc("cycle %d: process appends %d records (first %s) at %d, sync every %d, background sync %v, crash at %d, disk full at %d, write error at %d", cy, len(todo), rs[todo[0].k], start, syncEvery, bg, f.crashAt, f.full, f.bad)
		done := false
		writer := func() {
			defer func() { done = true }()
			objs := map[int]reflect.Value{}
			for i, rec := range todo {
				td := tds[rec.k]
				obj, ok := objs[rec.k]
				if ok && inPlace {
					td.R.Set(obj.Elem(), rec.v, true)
				} else {
					obj = td.New(rec.v)
					objs[rec.k] = obj
				}
				at := len(f.data)
				f.failed = false
				rec.end = at + recHead + len(td.R.Enc(rec.v))
				log = append(log, rec)
				var hdr [recHead]byte
				hdr[0] = byte(rec.k) + 1
				var o Out
				var err error
				if buffered {
					var buf bytes.Buffer
					o = e.Encode(&buf, obj, td)
					binary.LittleEndian.PutUint64(hdr[1:], o.N)
					if _, err = f.Write(hdr[:]); err == nil {
						_, err = f.Write(buf.Bytes())
					}
				} else {
					sz := e.Size(obj, td)
					binary.LittleEndian.PutUint64(hdr[1:], sz.N)
					if _, err = f.Write(hdr[:]); err == nil {
						o = e.Encode(wrapW(f, wrap), obj, td)
						err = o.Err
						if err == nil && o.Ok && o.N != sz.N {
							e.Fail("append", "%s: announced %d bytes, wrote %d", td.R, sz.N, o.N)
						}
					}
				}
				if o.Pan != nil {
					e.Fail("panic", "appending a record of %s panics: %s", td.R, o.Pan)
				}
				if err != nil {
					if !f.failed {
						e.Fail("append", "appending a record of %s fails on a healthy disk: %v", td.R, err)
					}
					// the application removes the partial record and stops, or goes on if the disk is not full
					f.data = f.data[:at]
					log = log[:len(log)-1]
					if f.synced > at {
						f.synced = at
					}
					e.Probe("append failed, rolled back")
					if f.full >= 0 {
						return
					}
					f.failed = false
					continue
				}
				if f.failed || len(f.data) != rec.end {
					e.Fail("acknowledged", "a record of %s was appended without an error, but the file has %d of its %d bytes", td.R, len(f.data)-at, rec.end-at)
				}
				if syncEvery > 0 && (i+1)%syncEvery == 0 {
					f.sync()
				}
				rt.Between()
			}
		}
		if bg {
			e.Par(writer, func() {
				for i := 0; i < 200 && !done && !f.dead; i++ {
					rt.Sleep(int64(gap))
					f.sync()
				}
			})
		} else {
			e.Par(writer)
		}
		// ---- crash: a suffix of what was not synced is lost
		f.crashAt = -1
		keep := len(f.data)
		if f.synced < keep && e.S.Draw(4) != 0 {
			keep = spot(f.synced, len(f.data))
			if keep < len(f.data) {
				e.Fault("unsynced suffix lost")
			}
		}
		f.data = append([]byte(nil), f.data[:keep]...)
		f.synced = len(f.data)
		n := 0
		for n < len(log) && log[n].end <= keep {
			n++
		}
		log = log[:n]
		// ---- a new process recovers
		good := e.recover15(rs, f, log)
		if good < len(f.data) {
			e.Probe("truncated an incomplete record")
		}
		f.data = f.data[:good]
		f.synced = len(f.data)
	}
}

// recover15 reads the file like a restarted process and returns where the last complete record ends.
func (e *Env) recover15(rs []*ref.T, f *file, log []record) int {
	var tds []*TD
	for _, r := range rs {
		tds = append(tds, e.TypeOf(r.Go))
	}
	c := e.RdCfg()
	reuse := e.S.Draw(2) == 1
	verify := e.S.Draw(4) == 3 // dry check first, decode after
	flaky := -1                // a transient read error
	if len(f.data) > 0 && e.S.Draw(4) == 3 {
		flaky = e.S.Draw(len(f.data))
	}
	pos, i := 0, 0
	open := func() io.Reader {
		x := c
		if flaky >= pos {
			x.Cut, x.CutErr = flaky-pos, errDisk
		}
		r, _ := e.NewRd(f.data[pos:], x).R()
		return r
	}
	r := open()
	dsts := map[int]reflect.Value{}
	for {
		again := func() bool { // after a transient error: seek back to the record and retry
			if flaky < pos {
				return false
			}
			flaky = -1
			e.Probe("retry after a read error")
			r = open()
			return true
		}
		var hdr [recHead]byte
		if _, err := io.ReadFull(r, hdr[:]); err != nil {
			if again() {
				continue
			}
			break
		}
		k := int(hdr[0]) - 1
		n := binary.LittleEndian.Uint64(hdr[1:])
		if k < 0 || k >= len(tds) {
			e.Fail("out of step", "recovery finds no record header at %d (record %d of %d)", pos, i, len(log))
		}
		td := tds[k]
		dst, ok := dsts[k]
		if !ok || !reuse {
			dst = td.Zero()
			dsts[k] = dst
		}
		complete := i < len(log)
		if verify {
			o := e.Dry(r, n, td)
			if !o.Ok && again() {
				continue
			}
			e.judge15("dry-checking", td, o, n, complete, i, pos, len(f.data), c)
			if !complete {
				break
			}
			x := c
			x.Cut = -1
			r, _ = e.NewRd(f.data[pos+recHead:], x).R()
		}
		o := e.Decode(r, n, dst, td)
		if !o.Ok && again() {
			continue
		}
		e.judge15("decoding", td, o, n, complete, i, pos, len(f.data), c)
		if !complete {
			break
		}
		want := log[i]
		if k != want.k {
			e.Fail("out of step", "record %d at %d is of type %d, written was type %d", i, pos, k, want.k)
		}
		if g := td.Get(dst); !ref.Equal(g, want.v) {
			e.Fail("value", "record %d of %s recovered as %s, written was %s (%s)", i, td.R, g, want.v, c)
		}
		pos += recHead + int(n)
		if pos != want.end {
			e.Fail("out of step", "record %d of %s ends at %d, written up to %d", i, td.R, pos, want.end)
		}
		if verify {
			r = open()
		}
		i++
	}
	if i < len(log) {
		e.Fail("lost", "recovery stops after %d of %d complete records (at %d of %d bytes) (%s)", i, len(log), pos, len(f.data), c)
	}
	e.Probe("recovered")
	return pos
}

func (e *Env) judge15(what string, td *TD, o Out, n uint64, complete bool, i, pos, size int, c RdCfg) {
	if o.Pan != nil {
		e.Fail("panic", "%s record %d of %s during recovery panics: %s", what, i, td.R, o.Pan)
	}
	if complete && !o.Ok {
		e.Fail("lost", "%s the complete record %d of %s (%d bytes at %d) during recovery fails: %v (%s)", what, i, td.R, n, pos, o.Err, c)
	}
	if !complete && o.Ok {
		e.Fail("incomplete accepted", "%s the incomplete record %d of %s (%d bytes announced at %d, the file has %d) succeeds (%s)", what, i, td.R, n, pos+recHead, size, c)
	}
	if !complete {
		e.Probe("incomplete record rejected")
	}
}
