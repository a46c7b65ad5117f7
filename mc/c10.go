package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C10", &Check{
		Run:   runC10,
		Level: "fault_enumeration",
		Rule: "6 element types x all shapes of rank 0 to 3 with dimensions 1 to 3 (and larger ones) x both stream forms x every byte position at which the writer fails (short, empty, transient), at which the stream ends and at which the reader fails (permanent, transient) x every two-way split and several fragmentations of the reader; " +
			"all sequences of up to 3 saves of both forms over 3 tensors with exact consumption and every truncation; all 65536 int16 values, 196608 float32 patterns (thorough: all 2^32) and all one- and two-bit float64/int64 patterns bit for bit. evaluation = one save or load against the fault; state = distinct (type, shape, form, fault)",
		Assumptions: []string{"readers and writers honour the io contracts: a short write comes with an error"},
	})
}

// ---- faulty streams

var errFault = errors.New("injected fault")

// faultWriter accepts limit bytes, then fails. A transient writer fails once
// and accepts everything afterwards; an atomic one writes nothing of the
// failing call.
type faultWriter struct {
	buf       bytes.Buffer
	limit     int
	transient bool
	atomic    bool
	failed    bool
	calls     int
	failures  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed && w.transient {
		return w.buf.Write(p)
	}
	if w.failed || w.buf.Len()+len(p) > w.limit {
		n := 0
		if !w.failed && !w.atomic {
			n = w.limit - w.buf.Len()
			w.buf.Write(p[:n])
		}
		w.failed = true
		w.failures++
		return n, errFault
	}
	return w.buf.Write(p)
}

// fragReader delivers data in the given pieces (then in one piece), with
// optional empty reads in between, an optional fault at a position and an
// optional end of file together with the last bytes.
type fragReader struct {
	data      []byte
	pos       int
	pieces    []int
	chunk     int
	empty     bool
	emptyNow  bool
	eofWith   bool
	failAt    int // -1: never
	transient bool
	failed    bool
}

func (r *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.failAt >= 0 && r.pos >= r.failAt && !(r.failed && r.transient) {
		r.failed = true
		return 0, errFault
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.empty {
		r.emptyNow = !r.emptyNow
		if r.emptyNow {
			return 0, nil
		}
	}
	n := len(p)
	if len(r.pieces) > 0 {
		if r.pieces[0] < n {
			n = r.pieces[0]
		}
		r.pieces[0] -= n
	} else if r.chunk > 0 && r.chunk < n {
		n = r.chunk
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if r.failAt >= 0 && !r.failed && r.pos+n > r.failAt {
		n = r.failAt - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	if len(r.pieces) > 0 && r.pieces[0] <= 0 {
		r.pieces = r.pieces[1:]
	}
	r.pos += n
	if r.eofWith && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// ---- bits

func bits[T types.Number](v T) uint64 {
	switch x := any(v).(type) {
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	case int16:
		return uint64(uint16(x))
	case int32:
		return uint64(uint32(x))
	case int64:
		return uint64(x)
	case int:
		return uint64(x)
	}
	panic("type")
}

func fromBits[T types.Number](b uint64) T {
	var z T
	var r any
	switch any(z).(type) {
	case float32:
		r = math.Float32frombits(uint32(b))
	case float64:
		r = math.Float64frombits(b)
	case int16:
		r = int16(b)
	case int32:
		r = int32(b)
	case int64:
		r = int64(b)
	case int:
		r = int(b)
	}
	return r.(T)
}

func bitEq[T types.Number](a, b T) bool { return bits(a) == bits(b) }

func wantBits[T types.Number](what string, got tensor.Tensor[T], w RT[T]) {
	if s := diff(got, w, bitEq[T]); s != "" {
		Fail("%s: %s", what, s)
	}
}

// bitLeaf fills a shape with awkward bit patterns.
func bitLeaf[T types.Number](s []uint, k int) RT[T] {
	pats := []uint64{
		0x7ff0000000000001, 0x8000000000000000, 0x0102030405060708, 0xffffffffffffffff, 0x7f800001_7fc00123,
		0x0000000000000001, 0x7fefffffffffffff, 0xfff8dead0000beef, 0x3ff0000000000000, 0x8001_0203_a0b0c0d0, 0x00ff00ff00ff00ff,
		0, 0x80000000, 0x7fffffff, 0xff800000, 0x0a0d1a00_1a0d0a00,
	}
	return mkRT(s, func(i int) T { return fromBits[T](pats[(i*3+k)%len(pats)]) })
}

type streamForm[T types.Number] struct {
	name string
	save func(t tensor.Tensor[T], w io.Writer) error
	load func(t tensor.Tensor[T], r io.Reader) error
}

func forms10[T types.Number]() []streamForm[T] {
	return []streamForm[T]{
		{"Save", func(t tensor.Tensor[T], w io.Writer) error { return t.Save(w) }, func(t tensor.Tensor[T], r io.Reader) error { return t.Load(r) }},
		{"SaveFull", func(t tensor.Tensor[T], w io.Writer) error { return t.SaveFull(w) }, func(t tensor.Tensor[T], r io.Reader) error { return t.LoadFull(r) }},
	}
}

func runC10(c *C) {
	c10[float64](c)
	c10[float32](c)
	c10[int16](c)
	c10[int32](c)
	c10[int64](c)
	c10[int](c)
	c10seq[float64](c)
	c10seq[int](c)
	c10seq[float32](c)
	c10seq[int16](c)
	c10values(c)
}

func c10[T types.Number](c *C) {
	list := shapes(0, 3, 1, 3)
	list = append(list, []uint{17}, []uint{5, 7}, []uint{2, 1, 2, 1, 2}, []uint{1, 1, 1, 1, 1, 1, 1})
	if c.Thorough {
		list = append(list, shapes(4, 4, 1, 3)...)
		list = append(list, []uint{300}, []uint{40, 30})
	}
	big := [][]uint{{1000}, {64, 33}, {10, 10, 11}}
	if c.Thorough {
		big = append(big, []uint{5000}, []uint{70, 70})
	}
	c10long[T](c)
	for _, s := range append(list, big...) {
		for _, f := range forms10[T]() {
			if c.Out() || !c.Mine() {
				continue
			}
			c10shape(c, s, f, len(list) > 0 && size(s) > 900)
		}
	}
}

// c10long: streams longer than any buffer.
func c10long[T types.Number](c *C) {
	for _, s := range [][]uint{{4096}, {4097}, {70, 130}, {3, 7, 11, 41}, {65537}, {256, 257}, {150000}} {
		for _, f := range forms10[T]() {
			if c.Out() || !c.Mine() {
				continue
			}
			s, f := s, f
			v := mkRT(s, func(i int) T { return fromBits[T](uint64(i+1) * 0x9e3779b97f4a7c15) })
			var stream []byte
			what := func() string { return fmt.Sprintf("%s %v %s", typeName[T](), s, f.name) }
			c.Do(what, func() {
				var b bytes.Buffer
				m := v.mat()
				noErr("save", f.save(m, &b))
				stream = b.Bytes()
				wantBits("saved tensor", m, v)
				var b2 bytes.Buffer
				noErr("save", f.save(m, &b2))
				if !bytes.Equal(stream, b2.Bytes()) {
					Fail("saving twice gives different streams")
				}
				c.Step(2)
			})
			for _, ch := range []int{0, 1, 3, 4096, 65535} {
				if ch == 1 && size(s) > 70000 {
					continue
				}
				ch := ch
				c.State(what(), "long", ch)
				c.Do(func() string { return fmt.Sprintf("%s read in chunks of %d", what(), ch) }, func() {
					r := &fragReader{data: append(append([]byte{}, stream...), 1, 2, 3), chunk: ch, failAt: -1}
					t := newRT[T](s).mat()
					noErr("load", f.load(t, r))
					wantBits("loaded tensor", t, v)
					if r.pos != len(stream) {
						Fail("the load consumed %d bytes of the %d that were saved", r.pos, len(stream))
					}
					c.Step(1)
				})
			}
			L := len(stream)
			pos := []int{L - 1, L - 2, L - 8, L - 9, L / 2}
			for p := 4096; p < L; p *= 2 {
				pos = append(pos, p-1, p, p+1)
			}
			if size(s) > 10000 && !c.Thorough {
				pos = pos[:3]
			}
			for _, k := range pos {
				k := k
				if k < 0 || k >= L {
					continue
				}
				c.State(what(), "long fault", k)
				c.Do(func() string { return fmt.Sprintf("%s, fault at byte %d of %d", what(), k, L) }, func() {
					for mode := 0; mode < 4; mode++ {
						if f.save(v.mat(), &faultWriter{limit: k, transient: mode&1 != 0, atomic: mode&2 != 0}) == nil {
							Fail("no error although the writer failed (mode %d)", mode)
						}
						if f.load(newRT[T](s).mat(), &fragReader{data: stream, chunk: []int{0, 5000}[mode/2], failAt: k, transient: mode&1 != 0}) == nil {
							Fail("no error although the reader failed (mode %d)", mode)
						}
					}
					if f.load(newRT[T](s).mat(), bytes.NewReader(stream[:k])) == nil {
						Fail("no error although the stream is cut")
					}
					c.Step(9)
				})
			}
		}
	}
}

func c10shape[T types.Number](c *C, s []uint, f streamForm[T], big bool) {
	v := bitLeaf[T](s, len(s))
	what := func() string { return fmt.Sprintf("%s %v %s", typeName[T](), s, f.name) }
	var stream []byte
	full := f.name == "SaveFull"
	target := func() *tensor.TensorMat[T] { return bitLeaf[T](s, 5).mat() }
	ok := c.Do(what, func() {
		m := v.mat()
		var b bytes.Buffer
		noErr("save", f.save(m, &b))
		stream = append([]byte{}, b.Bytes()...)
		wantBits("saved tensor", m, v)
		var b2 bytes.Buffer
		noErr("save", f.save(m, &b2))
		if !bytes.Equal(stream, b2.Bytes()) {
			Fail("saving twice gives different streams")
		}
		// results of graphs and eager operations are saved alike
		x := tensor.Reshape[T](v.mat(), s...)
		runGraph[T]("Reshape", x)
		var b3 bytes.Buffer
		noErr("save", f.save(x, &b3))
		t := target()
		noErr("load", f.load(t, &b3))
		wantBits("graph result saved and loaded", t, v)
		// loading into a graph result
		y := tensor.AddScalar[T](target(), &number.Scalar[T]{})
		runGraph[T]("AddScalar", y)
		noErr("load", f.load(y, bytes.NewReader(stream)))
		wantBits("loaded into a graph result", y, v)
		c.Step(5)
	})
	if !ok || stream == nil {
		return
	}
	L := len(stream)
	c.Bound("stream_bytes", uint64(L))
	pos := func(f func(k int)) {
		for k := 0; k < L && !c.Out(); k++ {
			if big && k > 70 && k < L-70 && k%97 != 0 {
				continue
			}
			f(k)
		}
	}
	// round trip, however the reader fragments
	var readers []func() *fragReader
	var names []string
	add := func(name string, f func() *fragReader) {
		names = append(names, name)
		readers = append(readers, f)
	}
	tail := []byte{0xaa, 0x55, 0xaa}
	data := append(append([]byte{}, stream...), tail...)
	for _, ch := range []int{0, 1, 2, 3, 5, 7, 9, 13} {
		for _, e := range []bool{false, true} {
			ch, e := ch, e
			add(fmt.Sprintf("chunks of %d, empty reads %v", ch, e), func() *fragReader {
				return &fragReader{data: data, chunk: ch, empty: e, failAt: -1}
			})
			add(fmt.Sprintf("chunks of %d, empty reads %v, end with the last bytes", ch, e), func() *fragReader {
				return &fragReader{data: stream, chunk: ch, empty: e, failAt: -1, eofWith: true}
			})
		}
	}
	pos(func(k int) {
		if k == 0 {
			return
		}
		add(fmt.Sprintf("split at %d", k), func() *fragReader {
			return &fragReader{data: data, pieces: []int{k}, failAt: -1}
		})
	})
	for i, mk := range readers {
		i, mk := i, mk
		c.Do(func() string { return what() + ", reader: " + names[i] }, func() {
			r := mk()
			t := target()
			noErr("load", f.load(t, r))
			wantBits("loaded tensor", t, v)
			if r.pos != L {
				Fail("the load consumed %d bytes of the %d that were saved", r.pos, L)
			}
			c.Step(1)
		})
		c.State(what(), names[i])
	}
	// the self-describing form restores the shape into any tensor
	if full {
		for _, o := range [][]uint{{}, {1}, {2}, {3, 3}, {1, 2, 3}, {size2(s) + 1}, {7, 1, 1, 1}} {
			o := o
			c.Do(func() string { return fmt.Sprintf("%s loaded into shape %v", what(), o) }, func() {
				t := bitLeaf[T](o, 1).mat()
				noErr("LoadFull", t.LoadFull(bytes.NewReader(stream)))
				wantBits("loaded tensor", t, v)
				p := 0
				indices(s, func(idx []uint) {
					g, err := t.Get(idx...)
					noErr("Get", err)
					if !bitEq(g, v.D[p]) {
						Fail("element %v is %v instead of %v", idx, g, v.D[p])
					}
					p++
				})
				var b bytes.Buffer
				noErr("SaveFull", t.SaveFull(&b))
				if !bytes.Equal(b.Bytes(), stream) {
					Fail("saving the loaded tensor gives another stream")
				}
				c.Step(1)
			})
		}
	}
	// faults
	pos(func(k int) {
		for mode := 0; mode < 4; mode++ {
			mode := mode
			c.State(what(), "write", k, mode)
			c.Do(func() string {
				return fmt.Sprintf("%s, writer failing at byte %d of %d (transient %v, nothing of the failing call %v)", what(), k, L, mode&1 != 0, mode&2 != 0)
			}, func() {
				w := &faultWriter{limit: k, transient: mode&1 != 0, atomic: mode&2 != 0}
				m := v.mat()
				err := f.save(m, w)
				if err == nil {
					Fail("no error")
				}
				wantBits("saved tensor", m, v)
				c.Step(1)
			})
		}
		for _, ch := range []int{0, 1, 3} {
			ch := ch
			c.State(what(), "truncate", k, ch)
			c.Do(func() string {
				return fmt.Sprintf("%s, stream truncated at byte %d of %d, chunks of %d", what(), k, L, ch)
			}, func() {
				err := f.load(target(), &fragReader{data: stream[:k], chunk: ch, failAt: -1})
				if err == nil {
					Fail("no error")
				}
				err = f.load(target(), &fragReader{data: stream[:k], chunk: ch, failAt: -1, eofWith: true})
				if err == nil {
					Fail("no error when the end comes with the last bytes")
				}
				c.Step(2)
			})
			for _, tr := range []bool{false, true} {
				tr := tr
				c.State(what(), "readfault", k, ch, tr)
				c.Do(func() string {
					return fmt.Sprintf("%s, reader failing at byte %d of %d, chunks of %d, transient %v", what(), k, L, ch, tr)
				}, func() {
					err := f.load(target(), &fragReader{data: stream, chunk: ch, failAt: k, transient: tr})
					if err == nil {
						Fail("no error")
					}
					c.Step(1)
				})
			}
		}
	})
	c.Sample("%s: %d bytes, every fault position", what(), L)
}

func size2(s []uint) uint { return uint(size(s)) }

// c10seq: sequences of saves in one stream, read back in order.
func c10seq[T types.Number](c *C) {
	vs := []RT[T]{bitLeaf[T]([]uint{2}, 1), bitLeaf[T]([]uint{1, 3}, 2), bitLeaf[T]([]uint{}, 3)}
	fs := forms10[T]()
	type step struct{ v, f int }
	var seqs [][]step
	var rec func(s []step)
	rec = func(s []step) {
		if len(s) > 0 {
			seqs = append(seqs, append([]step{}, s...))
		}
		if len(s) == 3 || (len(s) == 4) {
			return
		}
		for v := range vs {
			for f := range fs {
				rec(append(s, step{v, f}))
			}
		}
	}
	rec(nil)
	for _, seq := range seqs {
		if c.Out() || !c.Mine() {
			continue
		}
		seq := seq
		c.State("seq", typeName[T](), seq)
		c.Do(func() string { return fmt.Sprintf("%s: stream of %v (tensor, form)", typeName[T](), seq) }, func() {
			var b bytes.Buffer
			var ends []int
			for _, st := range seq {
				noErr("save", fs[st.f].save(vs[st.v].mat(), &b))
				ends = append(ends, b.Len())
			}
			data := b.Bytes()
			for _, ch := range []int{0, 1, 3, 5} {
				r := &fragReader{data: append(append([]byte{}, data...), 1, 2, 3), chunk: ch, failAt: -1}
				for i, st := range seq {
					t := newRT[T](vs[st.v].S).mat()
					if st.f == 1 {
						t = newRT[T]([]uint{4, 2}).mat()
					}
					noErr("load", fs[st.f].load(t, r))
					wantBits(fmt.Sprintf("tensor %d of the stream", i), t, vs[st.v])
					if r.pos != ends[i] {
						Fail("after load %d the reader is at byte %d instead of %d", i, r.pos, ends[i])
					}
					c.Step(1)
				}
			}
			for k := 0; k < len(data); k++ {
				r := &fragReader{data: data[:k], chunk: 3, failAt: -1}
				for i, st := range seq {
					t := newRT[T](vs[st.v].S).mat()
					err := fs[st.f].load(t, r)
					c.Step(1)
					if ends[i] <= k {
						noErr("load", err)
						wantBits(fmt.Sprintf("tensor %d of a stream cut at %d", i, k), t, vs[st.v])
						continue
					}
					if err == nil {
						Fail("stream cut at byte %d: load %d (bytes up to %d) reports no error", k, i, ends[i])
					}
					break
				}
			}
		})
	}
}

// c10values: every value comes back bit for bit.
func c10values(c *C) {
	n := uint(4096)
	c10block[int16](c, n, 65536/uint64(n), func(i uint64) uint64 { return i })
	c10block[float32](c, n, 3*65536/uint64(n), func(i uint64) uint64 {
		return i%65536<<16 | []uint64{0, 1, 0xffff}[i/65536%3]
	})
	two := func(i uint64) uint64 {
		a, b := i/64%64, i%64
		v := uint64(1)<<a | uint64(1)<<b
		if i >= 4096 {
			v = ^v
		}
		return v
	}
	c10block[float64](c, n, 2, two)
	c10block[int64](c, n, 2, two)
	c10block[int](c, n, 2, two)
	c10block[int32](c, n, 2, two)
	exps := func(i uint64) uint64 { return i%4096<<52 | []uint64{0, 1, 1<<52 - 1, 1 << 51}[i/4096%4] }
	c10block[float64](c, n, 4, exps)
	if c.Thorough {
		n = 65536
		c10block[float32](c, n, 65536, func(i uint64) uint64 { return i })
		c10block[int32](c, n, 65536/16, func(i uint64) uint64 { return i * 16 })
	}
}

func c10block[T types.Number](c *C, n uint, blocks uint64, f func(i uint64) uint64) {
	for k := uint64(0); k < blocks; k++ {
		if c.Out() || !c.Mine() {
			continue
		}
		k := k
		c.State("values", typeName[T](), k, blocks)
		c.Do(func() string { return fmt.Sprintf("%s: block %d of %d of all values", typeName[T](), k, blocks) }, func() {
			v := mkRT([]uint{n}, func(i int) T { return fromBits[T](f(k*uint64(n) + uint64(i))) })
			m := v.mat()
			for fi, fm := range forms10[T]() {
				if fi == 1 && blocks > 100 {
					continue
				}
				var b bytes.Buffer
				noErr(fm.name, fm.save(m, &b))
				t := newRT[T]([]uint{n}).mat()
				noErr(fm.name, fm.load(t, &b))
				wantBits("loaded values", t, v)
			}
			c.Step(int(n))
		})
	}
}
