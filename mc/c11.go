package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"

	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C11", &Check{
		Run:   runC11,
		Level: "fault_enumeration",
		Rule: "every architecture of the alphabet (chains, branches, shared layers, all ways of nesting 3 layers in models) x both floating-point types x every byte position at which the writer fails (short, empty, transient), the stream ends or the reader fails, and every fragmentation class; " +
			"all histories of length 4 (thorough 5) over {save, save to a failing writer, load, load of a truncated stream, load into the other model, train, predict, summary, freeze or unfreeze} on two models of 12 architectures, parameters compared bit for bit after every step; all pairs of {save, save and load} of any layer or nested model, failing save, failing load, followed by saving and loading the whole, on every architecture and every network of up to 3 layers. Also on every network of up to 4 layers (9048: dense, normalisation, flatten, sub-range, soft-max, concatenation of any two earlier layers) and every chain of up to 3 image layers (2868 over 15 layers): one save and load of the whole, every parameter written exactly once. evaluation = one save or load; state = (architecture, history prefix) or (architecture, fault position)",
		Assumptions: []string{"readers and writers honour the io contracts", "the parameters after a failed load are not specified"},
	})
}

func runC11(c *C) {
	for _, a := range append(archAll(), c11Extra()...) {
		c11faults[float64](c, a, func() *Net[float64] { return newNet[float64](a) })
		c11faults[float32](c, a, func() *Net[float32] { return newNet[float32](a) })
	}
	for _, a := range archLarge() {
		a := a
		c11faults[float64](c, a, func() *Net[float64] { return newNet[float64](a) })
		c11faults[float32](c, a, func() *Net[float32] { return newNet[float32](a) })
	}
	nest := chain("nested", in(2), dense(2, "tanh"), dense(3, "linear"), dense(1, "sin"))
	for _, p := range plans(4, 2) {
		p := p
		c11faults[float64](c, Arch{"nested " + p.String(), nest.nodes}, func() *Net[float64] { return composed[float64](nest, p) })
	}
	for _, cuts := range cutSets(4) {
		for k := 0; k < 4; k++ {
			cuts, k := cuts, k
			c11faults[float64](c, Arch{fmt.Sprint("chained at ", cuts, k), nest.nodes}, func() *Net[float64] { return chained[float64](nest, cuts, k%2 == 1, k/2) })
		}
	}
	d := 4
	if c.Thorough {
		d = 5
	}
	pick := map[string]bool{"diamond": true, "skip connection": true, "layer joined with itself": true, "double diamond": true,
		"conv branches flat": true, "three branches": true, "conv pool": true, "dense2": true, "norm": true, "sub": true}
	for _, a := range archAll() {
		if pick[a.name] {
			c11histories(c, a, d, func() *Net[float64] { return newNet[float64](a) })
		}
	}
	for i, p := range plans(4, 2) {
		if i%17 == 5 {
			p := p
			c11histories(c, Arch{"nested " + p.String(), nest.nodes}, d-1, func() *Net[float64] { return composed[float64](nest, p) })
		}
	}
	for _, a := range append(append(archAll(), c11Extra()...), archNested()...) {
		a := a
		c11parts(c, a, func() *Net[float64] { return newNet[float64](a) })
	}
	dags := archDags(3)
	if c.Thorough {
		dags = archDags(4)
	}
	for _, a := range dags {
		a := a
		c11parts(c, a, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range append(append(archDags(4), archNested()...), archImages(3)...) {
		a := a
		c11once(c, a, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, p := range plans(4, 2) {
		p := p
		c11parts(c, Arch{"nested " + p.String(), nest.nodes}, func() *Net[float64] { return composed[float64](nest, p) })
	}
	for _, cuts := range cutSets(4) {
		for k := 0; k < 4; k++ {
			cuts, k := cuts, k
			c11parts(c, Arch{fmt.Sprint("chained at ", cuts, k), nest.nodes}, func() *Net[float64] { return chained[float64](nest, cuts, k%2 == 1, k/2) })
		}
	}
	c.Bound("history", uint64(d))
}

// c11Extra are joins of every kind at the end of the model.
func c11Extra() []Arch {
	return []Arch{
		{"dense and input joined", []LSpec{in(2), dense(2, "tanh").from(0), cat(1, 0, 0)}},
		{"input and dense joined", []LSpec{in(2), dense(2, "tanh").from(0), cat(0, 1, 0)}},
		{"dense and sub joined", []LSpec{in(3), dense(2, "tanh").from(0), sub(0, 1, 3).from(0), cat(1, 2, 0)}},
		{"join of joins", []LSpec{in(2), dense(1, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), dense(1, "tanh").from(0), cat(4, 0, 0), cat(3, 5, 0)}},
		{"join with an earlier layer", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(1), cat(2, 1, 0)}},
		{"join with itself", []LSpec{in(2), dense(2, "tanh").from(0), cat(1, 1, 0)}},
		{"norm of a join", []LSpec{in(2), dense(2, "tanh").from(0), cat(1, 0, 0), norm().from(2)}},
	}
}

// c11parts: whole models and their parts - every layer and every nested model,
// each with the layers before it - are saved and loaded in turn. Whatever was
// done with a part, saving and loading the whole, after preparing it, covers
// everything; saving and loading a part covers that part.
func c11parts(c *C, a Arch, mk func() *Net[float64]) {
	if c.Out() {
		return
	}
	type store interface {
		Save(io.Writer) error
		Load(io.Reader) error
		ResetSave()
		ResetLoad()
	}
	units := func(n *Net[float64]) []store {
		out := []store{n.m}
		for _, p := range n.parts {
			out = append(out, p)
		}
		for _, l := range n.layers {
			out = append(out, l)
		}
		return out
	}
	var N, bytesAll int
	if !c.Do(a.String, func() {
		n := mk()
		noErr("Compile", n.m.Compile())
		N, bytesAll = len(units(n)), paramBytes(n)
	}) {
		return
	}
	// 0..N-1: unit i of A is saved; N..2N-1: unit i is saved and loaded into
	// B; 2N: a save of unit 0 that fails after the first bytes
	kinds := 2*N + 2
	seqs(kinds, 2, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append(append([]int{}, s...), N)
		c.Do(func() string {
			return fmt.Sprintf("%s: %v (below %d: that unit of A is saved, below %d: and loaded into B, %d: failing save, %d: failing load; unit 0 is the model, then its parts, then its layers)", a, h, N, 2*N, 2*N, 2*N+1)
		}, func() {
			A, B := mk(), mk()
			noErr("Compile", A.m.Compile())
			noErr("Compile", B.m.Compile())
			A.exact(1)
			B.exact(2)
			pa, pb := A.bitsOf(), B.bitsOf()
			ua, ub := units(A), units(B)
			for i, k := range h {
				switch {
				case k >= 2*N && bytesAll == 0:
					// nothing to lose
				case k == 2*N:
					A.m.ResetSave()
					if A.m.Save(&faultWriter{limit: (i*8 + 3) % bytesAll}) == nil {
						Fail("step %d: a failed save is not reported", i)
					}
				case k == 2*N+1:
					var w bytes.Buffer
					A.m.ResetSave()
					noErr("Save", A.m.Save(&w))
					B.m.ResetLoad()
					if B.m.Load(&fragReader{data: w.Bytes()[:w.Len()-1], failAt: -1}) == nil {
						Fail("step %d: a truncated stream is not reported", i)
					}
					pb = B.bitsOf()
				default:
					u := k % N
					var w bytes.Buffer
					ua[u].ResetSave()
					noErr("Save", ua[u].Save(&w))
					if u == 0 && w.Len() != bytesAll {
						Fail("step %d: %d bytes are written, the parameters take %d", i, w.Len(), bytesAll)
					}
					if k >= N {
						data := w.Bytes()
						r := &fragReader{data: append(append([]byte{}, data...), 1, 2, 3), failAt: -1}
						ub[u].ResetLoad()
						noErr("Load", ub[u].Load(r))
						if r.pos != len(data) {
							Fail("step %d: loading consumed %d bytes of %d", i, r.pos, len(data))
						}
						got := B.bitsOf()
						own := -1
						for q, l := range A.ref.paramLayers() {
							if l == u-(N-len(A.layers)) {
								own = q
							}
						}
						for q := range got {
							same := slices.Equal(got[q], pa[q])
							if (u == 0 || q == own) && !same {
								Fail("step %d: after loading unit %d, parameters %d are %v instead of %v", i, u, q, got[q], pa[q])
							}
							if !same && !slices.Equal(got[q], pb[q]) {
								Fail("step %d: after loading unit %d, parameters %d are %v, neither the saved nor the earlier ones", i, u, q, got[q])
							}
						}
						pb = got
					}
				}
				wantParams(fmt.Sprintf("step %d: model A", i), A, pa)
				wantParams(fmt.Sprintf("step %d: model B", i), B, pb)
				c.Step(1)
				c.State("parts", a.name, h[:i+1])
			}
		})
	})
}

// c11once: one save and one load of the whole, after a failed save and a
// truncated load.
func c11once(c *C, a Arch, mk func() *Net[float64]) {
	if c.Out() || !c.Mine() {
		return
	}
	c.Do(a.String, func() {
		A, B := mk(), mk()
		noErr("Compile", A.m.Compile())
		noErr("Compile", B.m.Compile())
		A.exact(1)
		B.exact(2)
		pa := A.bitsOf()
		want := paramBytes(A)
		for i := 0; i < 2; i++ {
			var w bytes.Buffer
			A.m.ResetSave()
			noErr("Save", A.m.Save(&w))
			if w.Len() != want {
				Fail("%d bytes are written, the parameters take %d", w.Len(), want)
			}
			if want > 0 {
				A.m.ResetSave()
				if A.m.Save(&faultWriter{limit: want - 1 - i*want/2}) == nil {
					Fail("a failed save is not reported")
				}
				B.m.ResetLoad()
				if B.m.Load(&fragReader{data: w.Bytes()[:w.Len()-1-i*want/2], failAt: -1}) == nil {
					Fail("a truncated stream is not reported")
				}
			}
			r := &fragReader{data: append(append([]byte{}, w.Bytes()...), 1, 2, 3), failAt: -1}
			B.m.ResetLoad()
			noErr("Load", B.m.Load(r))
			if r.pos != want {
				Fail("loading consumed %d bytes of %d", r.pos, want)
			}
			wantParams("the loaded model", B, pa)
			wantParams("the saved model", A, pa)
			B.exact(3)
			c.Step(4)
		}
		c.State("once", a.String())
	})
}

// paramBytes is what the parameters of all layers, each once, take.
func paramBytes[T types.Number](n *Net[T]) int {
	var b bytes.Buffer
	for k, nd := range n.ref.nodes {
		if nd.wS != nil {
			noErr("Save of a tensor", field(n.layers[k], "Weights").Save(&b))
			noErr("Save of a tensor", field(n.layers[k], "Bias").Save(&b))
		}
	}
	return b.Len()
}

func sameBits(a, b [][]uint64) bool {
	return slices.EqualFunc(a, b, func(x, y []uint64) bool { return slices.Equal(x, y) })
}

func wantParams[T types.Number](what string, n *Net[T], w [][]uint64) {
	if got := n.bitsOf(); !sameBits(got, w) {
		for k := range got {
			if k >= len(w) || !slices.Equal(got[k], w[k]) {
				Fail("%s: parameters %d (bit patterns) are %v instead of %v", what, k, short(got[k]), short(w[k]))
			}
		}
		Fail("%s: parameters of %d layers instead of %d", what, len(got), len(w))
	}
}

// exact sets parameters that use all bits of the element type.
func (n *Net[T]) exact(seed int) {
	for k, nd := range n.ref.nodes {
		for i := range nd.W {
			nd.W[i] = float64(T(paramValue(i, k, seed) / 3))
		}
		for i := range nd.B {
			nd.B[i] = float64(T(paramValue(i+5, k+3, seed) / 3))
		}
	}
	n.load(n.ref)
}

func c11faults[T types.Number](c *C, a Arch, mk func() *Net[T]) {
	if c.Out() || !c.Mine() {
		return
	}
	where := func(s string, k int) func() string {
		return func() string { return fmt.Sprintf("%s %s: %s at byte %d", typeName[T](), a, s, k) }
	}
	var data []byte
	var bits [][]uint64
	var src *Net[T]
	save := func(w *faultWriter) error {
		src.m.ResetSave()
		return src.m.Save(w)
	}
	ok := c.Do(where("save", 0), func() {
		src = mk()
		noErr("Compile", src.m.Compile())
		src.exact(1)
		bits = src.bitsOf()
		w := &faultWriter{limit: 1 << 30}
		noErr("Save", save(w))
		data = w.buf.Bytes()
		if n := paramBytes(src); len(data) != n {
			Fail("%d bytes are written, the parameters take %d", len(data), n)
		}
		wantParams("after saving", src, bits)
	})
	if !ok {
		return
	}
	load := func(n *Net[T], r *fragReader) error {
		n.m.ResetLoad()
		return n.m.Load(r)
	}
	frags := [][]int{nil, {1}, {3}, {len(data) / 2}}
	chunks := []int{0, 1, 2, 3, 5, 7}
	if len(data) > 1000 {
		chunks, frags = []int{0, 1, 13, 512, 1000, 4096, 4097}, frags[:2]
	}
	for _, chunk := range chunks {
		for _, pieces := range frags {
			for _, mode := range []int{0, 1, 2} {
				chunk, pieces, mode := chunk, pieces, mode
				c.Do(where(fmt.Sprintf("load in pieces %v, then of %d, mode %d", pieces, chunk, mode), 0), func() {
					dst := mk()
					if mode != 2 {
						noErr("Compile", dst.m.Compile())
						dst.exact(2)
					}
					r := &fragReader{data: append(append([]byte{}, data...), 0x55, 0xAA, 0x55), pieces: append([]int{}, pieces...), chunk: chunk, failAt: -1, empty: mode == 1}
					noErr("Load", load(dst, r))
					if r.pos != len(data) {
						Fail("loading consumed %d bytes of %d", r.pos, len(data))
					}
					wantParams("after loading", dst, bits)
					x := ten[T](src.ref.inS, sampleX(src.ref.inS, 1))
					p1, e1 := src.m.Predict(x)
					p2, e2 := dst.m.Predict(x)
					noErr("Predict", e1)
					noErr("Predict", e2)
					for i, v := range p1.GetData() {
						if !bitEq(v, p2.GetData()[i]) {
							Fail("prediction %v after loading, %v before saving", p2.GetData(), p1.GetData())
						}
					}
					c.Step(2)
				})
			}
		}
	}
	for k := 0; k < len(data); k++ {
		if len(data) > 1000 {
			// large streams: both ends, the first buffer sizes, then 30 positions
			near := k < 3*4096 && (k%512 == 0 || k%4096 == 1 || k%4096 == 4095)
			if !near && k > 8 && k < len(data)-9 && k%(len(data)/30+1) != 0 {
				continue
			}
		}
		for mode := 0; mode < 3; mode++ {
			k, mode := k, mode
			c.Do(where("write fault", k), func() {
				w := &faultWriter{limit: k, transient: mode == 2, atomic: mode == 1}
				if save(w) == nil {
					Fail("a failed write is not reported")
				}
				wantParams("after a failed save", src, bits)
				c.Step(1)
			})
			c.Do(where("read fault", k), func() {
				dst := mk()
				noErr("Compile", dst.m.Compile())
				r := &fragReader{data: data[:k], failAt: -1, eofWith: mode == 2}
				if mode == 1 {
					r = &fragReader{data: data, failAt: k, chunk: k + 1}
				}
				if load(dst, r) == nil {
					Fail("a stream that ends early or fails is not reported")
				}
				r = &fragReader{data: data, failAt: -1}
				noErr("Load after a failed load", load(dst, r))
				wantParams("loading after a failed load", dst, bits)
				c.Step(2)
			})
		}
		c.State(typeName[T](), a.name, k)
	}
	c.Do(where("save after failed saves", 0), func() {
		w := &faultWriter{limit: 1 << 30}
		noErr("Save", save(w))
		if !bytes.Equal(w.buf.Bytes(), data) {
			Fail("the stream differs from the first one")
		}
	})
	c.Bound("stream_bytes", uint64(len(data)))
}

var c11ops = []string{"A saves", "A fails to save", "B loads", "A loads", "B loads half a stream", "A trains", "B trains", "both predict", "summaries", "A frozen or unfrozen", "B's first layer frozen or unfrozen"}

func c11histories(c *C, a Arch, depth int, mk func() *Net[float64]) {
	seqs(len(c11ops), depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append([]int{}, s...)
		desc := func() string {
			t := a.String() + ":"
			for _, k := range h {
				t += " " + c11ops[k] + ";"
			}
			return t
		}
		c.Do(desc, func() {
			A, B := mk(), mk()
			noErr("Compile", A.m.Compile())
			noErr("Compile", B.m.Compile())
			A.exact(1)
			B.exact(2)
			pa, pb := A.bitsOf(), B.bitsOf()
			var stream []byte
			var saved [][]uint64
			aFrozen, bFrozen := false, false
			x := ten[float64](A.ref.inS, sampleX(A.ref.inS, 0))
			y := ten[float64](A.ref.last().shape, sampleY(A.ref.last().shape, 0))
			for i, k := range h {
				switch k {
				case 0:
					var w bytes.Buffer
					A.m.ResetSave()
					noErr("Save", A.m.Save(&w))
					stream, saved = w.Bytes(), pa
				case 1:
					A.m.ResetSave()
					if A.m.Save(&faultWriter{limit: 11}) == nil {
						Fail("step %d: a failed save is not reported", i)
					}
				case 2, 3:
					if stream == nil {
						return
					}
					m := B
					if k == 3 {
						m = A
					}
					m.m.ResetLoad()
					r := &fragReader{data: stream, failAt: -1}
					noErr("Load", m.m.Load(r))
					if r.pos != len(stream) {
						Fail("step %d: loading consumed %d bytes of %d", i, r.pos, len(stream))
					}
					if k == 2 {
						pb = saved
					} else {
						pa = saved
					}
				case 4:
					if stream == nil {
						return
					}
					B.m.ResetLoad()
					if B.m.Load(&fragReader{data: stream[:len(stream)/2], failAt: -1}) == nil {
						Fail("step %d: half a stream is not reported", i)
					}
					pb = B.bitsOf()
				case 5, 6:
					m := A
					if k == 6 {
						m = B
					}
					_, err := m.m.TrainOne(x, y, 0.125, 0.5)
					noErr("TrainOne", err)
					if k == 5 {
						pa = A.bitsOf()
					} else {
						pb = B.bitsOf()
					}
				case 7:
					p, e1 := A.m.Predict(x)
					q, e2 := B.m.Predict(x)
					noErr("Predict", e1)
					noErr("Predict", e2)
					A.read()
					B.read()
					if w := A.ref.forward(x.GetData()); A.ok(w) {
						A.cmpOut(fmt.Sprintf("step %d: A", i), p, w)
					}
					if w := B.ref.forward(x.GetData()); B.ok(w) {
						B.cmpOut(fmt.Sprintf("step %d: B", i), q, w)
					}
				case 8:
					_ = A.m.String()
					_ = B.m.String()
				case 9:
					aFrozen = !aFrozen
					A.m.SetTrainable(!aFrozen)
				case 10:
					bFrozen = !bFrozen
					B.layers[B.ref.paramLayers()[0]].SetTrainable(!bFrozen)
				}
				wantParams(fmt.Sprintf("step %d: model A", i), A, pa)
				wantParams(fmt.Sprintf("step %d: model B", i), B, pb)
				c.Step(1)
				c.State(a.name, h[:i+1])
			}
		})
	})
}
