package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C21", &Check{
		Run:   runC21,
		Level: "model_checking",
		Rule: "every history of length 3 (cross-section and thorough: 4, 5) over {Compile, CompileBackPropagation, predict, predict another input, train one sample, train a data set, reset, summary, save and load back, rejected prediction, rejected training and loading, freeze or unfreeze, save, load what was saved last} on a model of every architecture (chains, branches, shared layers, nested, chained) that was never compiled, in step with a twin that was compiled completely before its first step and skips the compile steps; both draw the same random numbers: every call succeeds, and results, losses, summaries and all parameters agree after every step. Also on every network of up to 4 layers (9048: dense, normalisation, flatten, sub-range, soft-max, concatenation of any two earlier layers) and every chain of up to 3 image layers (2868 over 15 layers): every single call (every pair of calls up to 2 layers). Every pair of calls repeated 30 times on four architectures. " +
			"Models that cannot be compiled: every history of length 3 over the same calls, each must return an error and no result. state = (architecture, history prefix)",
		Assumptions: []string{"were the initial parameters not drawn from math/rand's package-level source, histories are explored from a model compiled by its first step only"},
	})
}

var c21ops = []string{"Compile", "CompileBackPropagation", "Predict 0", "Predict 1", "TrainOne", "Train", "ResetIS", "String", "Save, Load", "Predict a wrong shape", "TrainOne a wrong target and a wrong input, Load nothing", "freeze or unfreeze", "Save", "Load what was saved last"}

func runC21(c *C) {
	d := 3
	if c.Thorough {
		d = 4
	}
	det := c21deterministic()
	if !det {
		c.Bound("compiled by the first step", 1)
	}
	for _, a := range archAll() {
		a := a
		c21hist(c, a.String(), d, det, func() *Net[float64] { return newNet[float64](a) })
		c21hist(c, a.String(), 2, det, func() *Net[float32] { return newNet[float32](a) })
	}
	for _, a := range archFew() {
		if a.name != "dense2" && a.name != "conv pool" && a.name != "diamond" && !c.Thorough {
			continue
		}
		a := a
		c21hist(c, a.String(), d+1, det, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range archLarge() {
		a := a
		c21hist(c, a.String(), 1, det, func() *Net[float64] { return newNet[float64](a) })
		if deepArch(a) {
			c21hist(c, a.String(), 2, det, func() *Net[float64] { return newNet[float64](a) })
		}
	}
	for _, a := range append(append(archDags(4), archNested()...), archImages(3)...) {
		a := a
		if len(a.nodes) <= 3 {
			c21hist(c, a.String(), 2, det, func() *Net[float64] { return newNet[float64](a) })
		}
		c21hist(c, a.String(), 1, det, func() *Net[float64] { return newNet[float64](a) })
	}
	nest := chain("nested", in(2), dense(2, "tanh"), dense(3, "linear"), dense(1, "sin"))
	for _, p := range plans(4, 2) {
		p := p
		c21hist(c, "nested "+p.String(), 2, det, func() *Net[float64] { return composed[float64](nest, p) })
	}
	conv := chain("nested conv", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), pool(2, 1), dense(2, "linear"))
	for _, p := range plans(4, 1) {
		p := p
		c21hist(c, "nested "+p.String()+" of "+conv.String(), 2, det, func() *Net[float64] { return composed[float64](conv, p) })
	}
	for _, cuts := range cutSets(4) {
		for k := 0; k < 4; k++ {
			cuts, k := cuts, k
			c21hist(c, fmt.Sprint("chained at ", cuts, k), d, det, func() *Net[float64] { return chained[float64](nest, cuts, k%2 == 1, k/2) })
		}
	}
	for _, i := range []int{0, 1, 2, 9} {
		c21long(c, archFew()[i], 30, det)
	}
	unit := chain("one unit", indense(1, 1, "tanh"))
	for k := range c21ops {
		if c.Out() || !c.Mine() {
			continue
		}
		var h []int
		for i := 0; i < 600; i++ {
			h = append(h, k, 4+i%2, 2)
		}
		c21one(c, unit.String(), h, det, func() *Net[float64] { return newNet[float64](unit) })
	}
	c21bad(c)
	c.Bound("history", uint64(d+1))
}

// draws answers random draws from a fixed sequence, which each network has to
// itself.
type draws struct{ n uint64 }

func (d *draws) hook(kind string, n int64) (float64, bool) {
	d.n++
	x := d.n * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	u := float64(x>>11) / (1 << 53)
	switch kind {
	case "Float64", "Float32":
		return math.Min(u, 0.9999999), true
	case "NormFloat64":
		return u*2 - 1, true
	case "Intn", "Int31n", "Int63n":
		return float64(x % uint64(n)), true
	case "Perm":
		return 1, true
	}
	return 0, false
}

func (d *draws) run(f func()) {
	rand.VerifHook = d.hook
	defer func() { rand.VerifHook = nil }()
	f()
}

func c21deterministic() (ok bool) {
	defer func() { recover() }()
	var first string
	for i := 0; i < 2; i++ {
		d := &draws{}
		d.run(func() {
			n := newNet[float64](chain("", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), deconvL(1, 2, 2, 1, 1, "tanh"), dense(2, "tanh")))
			noErr("Compile", n.m.Compile())
			s := fmt.Sprint(n.bitsOf())
			ok = s == first
			first = s
		})
	}
	return
}

func c21hist[T types.Number](c *C, name string, depth int, det bool, mk func() *Net[T]) {
	seqs(len(c21ops), depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		c21one(c, name, append([]int{}, s...), det, mk)
	})
}

// c21long: every pair of calls, repeated over and over.
func c21long(c *C, a Arch, times int, det bool) {
	seqs(len(c21ops), 2, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		var h []int
		for i := 0; i < times; i++ {
			h = append(h, s...)
		}
		c21one(c, a.String(), append(h, 2, 4, 3), det, func() *Net[float64] { return newNet[float64](a) })
	})
	c.Bound("longest history", uint64(2*times+3))
}

func c21one[T types.Number](c *C, name string, h []int, det bool, mk func() *Net[T]) {
	{
		desc := func() string {
			t := typeName[T]() + " " + name + ":"
			for i, k := range h {
				if i > 8 {
					return t + fmt.Sprintf(" ... (%d calls)", len(h))
				}
				t += " " + c21ops[k] + ";"
			}
			return t
		}
		c.Do(desc, func() {
			da, db := &draws{}, &draws{}
			var a, b *Net[T]
			var sa, sb c21state
			da.run(func() { a = mk() })
			db.run(func() {
				b = mk()
				noErr("twin: Compile", b.m.Compile())
				noErr("twin: CompileBackPropagation", b.m.CompileBackPropagation())
			})
			for i, k := range h {
				var ra, rb string
				var va, vb []T
				da.run(func() { ra, va = c21step(a, k, i, &sa, false) })
				if !det && i == 0 {
					if a.m.Compile() != nil {
						Fail("step 0: the model does not compile")
					}
					da.run(func() { a.setParams(1); b.setParams(1) })
					if k >= 2 {
						return
					}
				}
				db.run(func() { rb, vb = c21step(b, k, i, &sb, true) })
				if k <= 1 {
					rb = ""
				}
				if ra != rb {
					Fail("step %d: %s gives %q; after compiling once beforehand it gives %q", i, c21ops[k], ra, rb)
				}
				if len(va) != len(vb) {
					Fail("step %d: %s gives %v; after compiling once beforehand it gives %v", i, c21ops[k], va, vb)
				}
				for j := range va {
					if !bitEq(va[j], vb[j]) && !nearNet[T](float64(va[j]), float64(vb[j])) && !(va[j] != va[j] && vb[j] != vb[j]) {
						Fail("step %d: %s gives %v; after compiling once beforehand it gives %v", i, c21ops[k], va, vb)
					}
				}
				c21params(a, b, i, k)
				c.Step(1)
				c.State(name, typeName[T](), fmt.Sprint(h[:i+1]))
			}
		})
	}
}

func c21params[T types.Number](a, b *Net[T], step, k int) {
	for q, nd := range a.ref.nodes {
		if nd.wS == nil {
			continue
		}
		for _, name := range []string{"Weights", "Bias"} {
			x, y := field(a.layers[q], name), field(b.layers[q], name)
			if x == nil || y == nil {
				if x == nil && k >= 7 {
					continue // nothing required these steps to compile
				}
				Fail("step %d: layer %d has no %s", step, q, name)
			}
			dx, dy := x.GetData(), y.GetData()
			if len(dx) != len(dy) {
				Fail("step %d: layer %d has %d %s instead of %d", step, q, len(dx), name, len(dy))
			}
			for j := range dx {
				if !bitEq(dx[j], dy[j]) && !nearNet[T](float64(dx[j]), float64(dy[j])) && !(dx[j] != dx[j] && dy[j] != dy[j]) {
					Fail("step %d: after %s layer %d (%s) has %s[%d] = %v; after compiling once beforehand %v", step, c21ops[k], q, nd.kind, name, j, dx[j], dy[j])
				}
			}
		}
	}
}

// c21step performs one call and says how it ended and what it computed.
func c21step[T types.Number](n *Net[T], k, i int, st *c21state, twin bool) (string, []T) {
	inS, outS := n.ref.inS, n.ref.last().shape
	x := func(k int) tensor.Tensor[T] { return ten[T](inS, sampleX(inS, k)) }
	y := func(k int) tensor.Tensor[T] { return ten[T](outS, sampleY(outS, k)) }
	how := func(err error) string {
		if err != nil {
			return "an error"
		}
		return ""
	}
	eighth := 0.125
	a, m := T(eighth), T(eighth*2)
	if i%3 == 1 {
		a, m = a/2, m*2
	}
	switch k {
	case 0:
		if twin {
			return "", nil
		}
		err := n.m.Compile()
		noErr("Compile", err)
	case 1:
		if twin {
			return "", nil
		}
		noErr("CompileBackPropagation", n.m.CompileBackPropagation())
	case 2, 3:
		p, err := n.m.Predict(x(k - 2))
		noErr("Predict", err)
		return "", p.GetData()
	case 4:
		l, err := n.m.TrainOne(x(0), y(0), a, m)
		noErr("TrainOne", err)
		return "", []T{l}
	case 5:
		noErr("Train", n.m.Train([]tensor.Tensor[T]{x(0), x(1)}, []tensor.Tensor[T]{y(0), y(1)}, 1, 2, a, m))
	case 6:
		noErr("ResetIS", n.m.ResetIS())
	case 7:
		return n.m.String(), nil
	case 8:
		var buf bytes.Buffer
		n.m.ResetSave()
		noErr("Save", n.m.Save(&buf))
		s := buf.Bytes()
		n.m.ResetLoad()
		noErr("Load", n.m.Load(bytes.NewReader(s)))
		return fmt.Sprintf("%d bytes", len(s)), nil
	case 9:
		p, err := n.m.Predict(ten[T]([]uint{uint(size(inS)) + 1}, make([]float64, size(inS)+1)))
		if err == nil || p != nil {
			Fail("predicting an input of the wrong size: result %v, error %v", p, err)
		}
		return how(err), nil
	case 10:
		_, err := n.m.TrainOne(x(0), ten[T]([]uint{uint(size(outS)) + 1}, make([]float64, size(outS)+1)), a, m)
		if err == nil {
			Fail("training on a target of the wrong size reports no error")
		}
		if _, err := n.m.TrainOne(ten[T]([]uint{uint(size(inS)) + 1}, make([]float64, size(inS)+1)), y(0), a, m); err == nil {
			Fail("training on an input of the wrong size reports no error")
		}
		// nor does loading from a stream that holds nothing
		n.m.ResetLoad()
		_ = n.m.Load(bytes.NewReader(nil))
		return how(err), nil
	case 11:
		st.frozen = !st.frozen
		n.m.SetTrainable(!st.frozen)
	case 12:
		var buf bytes.Buffer
		n.m.ResetSave()
		noErr("Save", n.m.Save(&buf))
		st.saved = buf.Bytes()
		return fmt.Sprintf("%d bytes", len(st.saved)), nil
	case 13:
		if st.saved != nil {
			n.m.ResetLoad()
			noErr("Load", n.m.Load(bytes.NewReader(st.saved)))
		}
	}
	return "", nil
}

// c21state: what the caller remembers.
type c21state struct {
	frozen bool
	saved  []byte
}

// c21bad: models that cannot be compiled.
func c21bad(c *C) {
	type bad struct {
		name string
		mk   func() *model.Model[float64]
	}
	io := func(in, out layer.Layer[float64]) *model.Model[float64] {
		m, err := model.FromInOut(in, out)
		noErr("FromInOut", err)
		return m
	}
	L := realActOf[float64]("linear")
	bads := []bad{
		{"empty model", func() *model.Model[float64] { return model.NewModel[float64]() }},
		{"kernel larger than the input", func() *model.Model[float64] {
			return model.NewModel[float64]().Push(layer.NewInput[float64](1, 2, 2)).Push(layer.NewConv2D[float64](1, 3, 1, L))
		}},
		{"convolution of a vector", func() *model.Model[float64] {
			return model.NewModel[float64]().Push(layer.NewInput[float64](4)).Push(layer.NewConv2D[float64](1, 2, 1, L)).Push(layer.NewDense[float64](1, L))
		}},
		{"pooling of a vector", func() *model.Model[float64] {
			return model.NewModel[float64]().Push(layer.NewInDense[float64](2, 4, L)).Push(layer.NewMaxPool2D[float64](2)).Push(layer.NewFlatten[float64]())
		}},
		{"range past the end", func() *model.Model[float64] {
			return model.NewModel[float64]().Push(layer.NewInDense[float64](2, 4, L)).Push(layer.NewSubTensor[float64](0, 2, 6))
		}},
		{"unequal concatenation", func() *model.Model[float64] {
			i := layer.NewInput[float64](1, 2, 2)
			a := layer.NewConv2D[float64](1, 2, 1, L)
			a.Connect(i)
			return io(i, layer.NewConcat[float64](i, a, 0))
		}},
		{"unequal concatenation below", func() *model.Model[float64] {
			i := layer.NewInput[float64](1, 2, 2)
			a := layer.NewConv2D[float64](1, 2, 1, L)
			a.Connect(i)
			cc := layer.NewConcat[float64](i, a, 0)
			d := layer.NewDense[float64](2, L)
			d.Connect(cc)
			return io(i, d)
		}},
	}
	ops := []string{"Compile", "CompileBackPropagation", "Predict", "TrainOne", "Train", "ResetIS", "String", "Save", "Load"}
	depth := 3
	if c.Thorough {
		depth = 5
	}
	for _, b := range bads {
		seqs(len(ops), depth, func(s []int) {
			if c.Out() || !c.Mine() {
				return
			}
			h := append([]int{}, s...)
			c.Do(func() string {
				t := "model that cannot be compiled (" + b.name + "):"
				for _, k := range h {
					t += " " + ops[k] + ";"
				}
				return t
			}, func() {
				m := b.mk()
				x, y := ten[float64]([]uint{1, 2, 2}, []float64{1, 2, 3, 4}), ten[float64]([]uint{1}, []float64{1})
				for i, k := range h {
					var err error
					var p tensor.Tensor[float64]
					switch k {
					case 0:
						err = m.Compile()
					case 1:
						err = m.CompileBackPropagation()
					case 2:
						p, err = m.Predict(x)
					case 3:
						_, err = m.TrainOne(x, y, 0.1, 0)
					case 4:
						err = m.Train([]tensor.Tensor[float64]{x}, []tensor.Tensor[float64]{y}, 1, 1, 0.1, 0)
					case 5:
						err = m.ResetIS()
					case 6:
						_ = m.String()
						c.Step(1)
						continue
					case 7:
						err = m.Save(&bytes.Buffer{})
					case 8:
						err = m.Load(&bytes.Buffer{})
					}
					c.Step(1)
					c.State("bad", b.name, fmt.Sprint(h[:i+1]))
					if err == nil || p != nil {
						Fail("step %d: %s returns no error (result %v)", i, ops[k], p)
					}
					if err.Error() == "" {
						Fail("step %d: %s: empty error", i, ops[k])
					}
				}
			})
		})
	}
}
