package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C12", &Check{
		Run:   runC12,
		Level: "model_checking",
		Rule: "every history of length 3 (cross-section and thorough: 4, 5) over {predict input 0, 1, 2 (zeros) or a large one, predict the same tensor object after the caller changed it, predict a tensor of the wrong shape, write into every earlier result, reset, summary, save, train, load or write other parameters, rejected training, freeze, predict an earlier result and the model's own output and input tensors, predict an input with NaN and infinity} on every architecture of the alphabet (chains, branches, shared layers, nested and chained models) in float64 and, shorter, float32: " +
			"each result is compared with the reference network, all parameters bit for bit, every earlier result and every input with what they were. Also on every network of up to 4 layers (9048: dense, normalisation, flatten, sub-range, soft-max, concatenation of any two earlier layers) and every chain of up to 3 image layers (2868 over 15 layers): every single call (every pair of calls up to 3 layers). state = (architecture, history prefix)",
		Assumptions: []string{"predictions within 1e-6 of a pooling tie or with NaN in the reference are not compared with it, only with each other"},
	})
}

var c12ops = []string{"predict 0", "predict 1", "predict 2", "predict changed input", "predict wrong shape", "write into results", "ResetIS", "String", "Save", "train", "other parameters loaded", "a parameter written", "rejected training", "freeze or unfreeze", "predict an earlier result and the model's own tensors", "predict an input with NaN and infinity"}

func runC12(c *C) {
	d := 3
	if c.Thorough {
		d = 4
	}
	for _, a := range archAll() {
		a := a
		c12hist(c, a.String(), d, func() *Net[float64] { return newNet[float64](a) })
		c12hist(c, a.String(), 2, func() *Net[float32] { return newNet[float32](a) })
	}
	for _, a := range archFew() {
		a := a
		c12hist(c, a.String(), d+1, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range archLarge() {
		a := a
		c12hist(c, a.String(), 2, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range append(archDags(4), archNested()...) {
		a := a
		n := 1
		if len(a.nodes) <= 4 {
			n = 2
		}
		c12hist(c, a.String(), n, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range archImages(3) {
		a := a
		c12hist(c, a.String(), 1, func() *Net[float64] { return newNet[float64](a) })
	}
	nest := chain("nested", in(2), dense(2, "tanh"), dense(3, "linear"), dense(1, "sin"))
	for _, p := range plans(4, 2) {
		p := p
		c12hist(c, "nested "+p.String(), 2, func() *Net[float64] { return composed[float64](nest, p) })
	}
	conv := chain("nested conv", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), pool(2, 1), dense(2, "linear"))
	for _, p := range plans(4, 1) {
		p := p
		c12hist(c, "nested "+p.String()+" of "+conv.String(), 2, func() *Net[float64] { return composed[float64](conv, p) })
	}
	for _, cuts := range cutSets(4) {
		for k := 0; k < 4; k++ {
			cuts, k := cuts, k
			c12hist(c, fmt.Sprint("chained at ", cuts, k), 3, func() *Net[float64] { return chained[float64](nest, cuts, k%2 == 1, k/2) })
			c12hist(c, fmt.Sprint("chained at ", cuts, k, conv), 2, func() *Net[float64] { return chained[float64](conv, cuts, k%2 == 1, k/2) })
		}
	}
	c.Bound("history", uint64(d+1))
	for i, a := range []Arch{chain("dense2", indense(2, 2, "tanh"), dense(2, "sigmoid")), archFew()[4], archFew()[8]} {
		if i == 0 || c.Thorough {
			c12long(c, a, 70)
		} else {
			c12long(c, a, 30)
		}
	}
	unit := chain("one unit", indense(1, 1, "tanh"))
	for k := range c12ops {
		if c.Out() || !c.Mine() {
			continue
		}
		var h []int
		for i := 0; i < 1100; i++ {
			h = append(h, k, i%2)
		}
		c12one(c, unit.String(), h, func() *Net[float64] { return newNet[float64](unit) })
	}
}

func c12input[T types.Number](s []uint, k int) []float64 {
	if k == 2 {
		return make([]float64, size(s))
	}
	return toF(toT[T](sampleX(s, k)))
}

func c12hist[T types.Number](c *C, name string, depth int, mk func() *Net[T]) {
	seqs(len(c12ops), depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		c12one(c, name, append([]int{}, s...), mk)
	})
}

// c12long: every pair of calls, repeated over and over.
func c12long(c *C, a Arch, times int) {
	seqs(len(c12ops), 2, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		var h []int
		for i := 0; i < times; i++ {
			h = append(h, s...)
		}
		c12one(c, a.String(), append(h, 0, 1), func() *Net[float64] { return newNet[float64](a) })
	})
	c.Bound("longest history", uint64(2*times+2))
}

func c12one[T types.Number](c *C, name string, h []int, mk func() *Net[T]) {
	{
		desc := func() string {
			t := typeName[T]() + " " + name + ":"
			for i, k := range h {
				if i > 8 {
					return t + fmt.Sprintf(" ... (%d calls)", len(h))
				}
				t += " " + c12ops[k] + ";"
			}
			return t
		}
		c.Do(desc, func() {
			n := mk()
			noErr("Compile", n.m.Compile())
			n.setParams(1)
			par := n.bitsOf()
			type kept struct {
				t tensor.Tensor[T]
				d []T
				s []uint
			}
			var results []kept
			inS := n.ref.inS
			own := ten[T](inS, c12input[T](inS, 0))
			ownVer := 0
			seen := map[string][]T{}
			trainable := true
			predict := func(i int, in tensor.Tensor[T], x []float64) {
				before := in.GetData()
				p, err := n.m.Predict(in)
				noErr("Predict", err)
				for j, v := range in.GetData() {
					if !bitEq(v, before[j]) {
						Fail("step %d: prediction changed its input from %v to %v", i, before, in.GetData())
					}
				}
				if w := n.ref.forward(x); n.ok(w) && finiteIn(x) {
					n.cmpOut(fmt.Sprintf("step %d: prediction of %v", i, x), p, w)
				}
				results = append(results, kept{p, p.GetData(), p.GetShape()})
				key := fmt.Sprint(x)
				if old, ok := seen[key]; ok {
					for q, v := range p.GetData() {
						if !bitEq(v, old[q]) && !(v != v && old[q] != old[q]) {
							Fail("step %d: predicting %v again gives %v instead of %v", i, x, p.GetData(), old)
						}
					}
				}
				seen[key] = p.GetData()
			}
			same := sameShape(inS, n.ref.last().shape)
			for i, k := range h {
				switch k {
				case 14:
					if !same {
						break
					}
					if len(results) > 0 {
						r := results[len(results)-1].t
						predict(i, r, toF(r.GetData()))
					}
					for _, t := range []tensor.Tensor[T]{n.m.Output, n.m.Input} {
						x := toF(t.GetData())
						p, err := n.m.Predict(t)
						noErr("Predict", err)
						if w := n.ref.forward(x); n.ok(w) {
							n.cmpOut(fmt.Sprintf("step %d: prediction of the model's own tensor with the values %v", i, x), p, w)
						}
						results = append(results, kept{p, p.GetData(), p.GetShape()})
					}
				case 15:
					// compared with earlier and later predictions of the same
					for v, special := range []float64{math.NaN(), math.Inf(1)} {
						x := c12input[T](inS, 1)
						x[(len(x)-1)*v] = special
						predict(i, ten[T](inS, x), x)
					}
				case 0, 1, 2:
					x := c12input[T](inS, k)
					predict(i, ten[T](inS, x), x)
				case 3:
					ownVer++
					x := toF(toT[T](sampleX(inS, ownVer+3)))
					noErr("LoadData", own.LoadData(toT[T](x)))
					predict(i, own, x)
					// what the caller does to it afterwards has no effect
					noErr("LoadData", own.LoadData(toT[T](sampleX(inS, ownVer+9))))
				case 4:
					for _, bad := range [][]uint{{uint(size(inS)) + 1}, append([]uint{2}, inS...)} {
						if _, err := n.m.Predict(tensor.NewNormRand[T](bad...)); err == nil {
							Fail("step %d: an input of shape %v instead of %v is accepted", i, bad, inS)
						}
					}
				case 5:
					for j := range results {
						r := &results[j]
						for q := range r.d {
							r.d[q] = T(100 + q + j)
						}
						noErr("LoadData", r.t.LoadData(r.d))
					}
				case 6:
					noErr("ResetIS", n.m.ResetIS())
				case 7:
					_ = n.m.String()
				case 8:
					n.m.ResetSave()
					noErr("Save", n.m.Save(&faultWriter{limit: 1 << 30}))
				case 9:
					x, y := c12input[T](inS, i%3), sampleY(n.ref.last().shape, i)
					_, err := n.m.TrainOne(ten[T](inS, x), ten[T](n.ref.last().shape, y), halves[T](2), 0)
					noErr("TrainOne", err)
					n.read()
					par, seen = n.bitsOf(), map[string][]T{}
				case 10:
					o := mk()
					noErr("Compile", o.m.Compile())
					o.setParams(i + 3)
					var w bytes.Buffer
					o.m.ResetSave()
					noErr("Save", o.m.Save(&w))
					n.m.ResetLoad()
					noErr("Load", n.m.Load(&w))
					n.read()
					par, seen = o.bitsOf(), map[string][]T{}
				case 11:
					ks := n.ref.paramLayers()
					if len(ks) == 0 {
						break
					}
					w := field(n.layers[ks[i%len(ks)]], []string{"Bias", "Weights"}[i/len(ks)%2])
					ops := w.GetOperands()
					ops[i%len(ops)].Value -= halves[T](0) + halves[T](1)
					n.read()
					par, seen = n.bitsOf(), map[string][]T{}
				case 12:
					bad := append([]uint{3}, inS...)
					if _, err := n.m.TrainOne(tensor.NewNormRand[T](bad...), tensor.NewOnes[T](n.ref.last().shape...), halves[T](0), 0); err == nil {
						Fail("step %d: training with an input of shape %v instead of %v is accepted", i, bad, inS)
					}
				case 13:
					trainable = !trainable
					n.m.SetTrainable(trainable)
				}
				wantParams(fmt.Sprintf("step %d", i), n, par)
				for j, r := range results {
					if !sameShape(r.t.GetShape(), r.s) {
						Fail("step %d: earlier result %d now has shape %v instead of %v", i, j, r.t.GetShape(), r.s)
					}
					for q, v := range r.t.GetData() {
						if !bitEq(v, r.d[q]) {
							Fail("step %d: earlier result %d is now %v instead of %v", i, j, r.t.GetData(), r.d)
						}
					}
				}
				c.Step(1)
				c.State(name, h[:i+1])
			}
		})
		c.Sample("%s", desc())
	}
}

func finiteIn(x []float64) bool {
	for _, v := range x {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

// halves is 1/2, halved k times.
func halves[T types.Number](k int) T {
	v := T(1) / 2
	for ; k > 0; k-- {
		v /= 2
	}
	return v
}
