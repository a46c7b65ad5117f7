package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C14", &Check{
		Run:   runC14,
		Level: "model_checking",
		Rule: "every history of length 4 (thorough 5; on a cross-section of 11 architectures 5, thorough 7) over {train sample 0 or 1 with (rate, momentum) in {(0.1,0), (0.2,0.5), (0,0.9)}, predict} on every architecture of the alphabet (38 chains covering every layer type, activation, kernel/stride/block asymmetry, 15 branched networks, 8 with shared layers), " +
			"and one step on every single-layer configuration between two dense layers' worth of parameters, in float64 and float32: reported loss, all parameters after every step and predictions are compared with an independent reference network. Also on every network of up to 4 layers (9048: dense, normalisation, flatten, sub-range, soft-max, concatenation of any two earlier layers) and every chain of up to 3 image layers (2868 over 15 layers): a step with momentum followed by every call (every two calls up to 3 layers). Every pair of rate and momentum of a grid (10 rates from -3 to 12, 11 momenta from -2.5 to 12) between two steps, every pair of calls repeated 40 times (thorough 200), and every two of 11 calls of other kinds (reset, summary, save, load, freeze and unfreeze, rejected calls, empty training) between three steps. state = (architecture, history prefix), transition = one call compared",
		Assumptions: []string{
			"histories end where a pre-activation is within 1e-6 of a kink or two maxima of a pooling block are within 1e-6 of each other",
			"layers with parameters at or before them that feed several layers: recorded finding, compared with the recorded behaviour as well",
		},
	})
}

type trainOp struct {
	train bool
	k     int
	a, m  float64
	kind  int // 0: sample k, 1: its target is the network's output, 2: far target, 3: large input, 4: zero input, 5: other extreme
}

// extremeOps: samples without any error, far targets, large and zero inputs,
// and unusual rates.
var extremeOps = []trainOp{
	{true, 0, 0.25, 0.5, 1}, {true, 0, 1.0 / 4096, 0.25, 2}, {true, 1, 1.0 / 4096, 0, 3}, {true, 1, 0.25, 0.5, 4}, {true, 0, 1, 1, 0}, {true, 1, -0.125, -0.5, 0}, {true, 0, 0.0625, 1.5, 0},
}

var trainOps = []trainOp{
	{true, 0, 0.125, 0, 0}, {true, 1, 0.125, 0, 0}, {true, 0, 0.25, 0.5, 0}, {true, 1, 0.25, 0.5, 0}, {true, 1, 0, 0.75, 0}, {false, 0, 0, 0, 0},
}

func runC14(c *C) {
	for _, a := range archAll() {
		d := 4
		if c.Thorough {
			d = 5
		}
		c14arch[float64](c, a, d)
		c14arch[float32](c, a, 2)
		// every mixture of usual and extreme calls
		all := append(append([]trainOp{}, trainOps...), extremeOps...)
		seqs(len(all), d-1, func(s []int) {
			ops, special := make([]trainOp, len(s)), false
			for i, k := range s {
				ops[i] = all[k]
				special = special || k >= len(trainOps)
			}
			if !special || c.Out() || !c.Mine() {
				return
			}
			c14history[float64](c, a, ops, 1)
		})
	}
	for _, a := range archLarge() {
		small := append(append([]trainOp{}, trainOps...), extremeOps[0])
		for k := range small {
			small[k].a /= 256
		}
		for k := range small {
			if c.Out() || !c.Mine() {
				continue
			}
			c14history[float64](c, a, []trainOp{small[2], small[k], small[6]}, 1)
		}
		if c.Mine() {
			c14history[float32](c, a, small[:1], 1)
		}
	}
	for _, a := range append(archDags(4), archNested()...) {
		n := 2
		if len(a.nodes) > 4 && !c.Thorough {
			n = 1
		}
		seqs(len(trainOps), n, func(s []int) {
			ops := []trainOp{trainOps[2]}
			for _, k := range s {
				ops = append(ops, trainOps[k])
			}
			if !c.Out() && c.Mine() {
				c14history[float64](c, a, ops, 1)
			}
		})
	}
	for _, a := range archImages(3) {
		for k := range trainOps {
			if !c.Out() && c.Mine() {
				c14history[float64](c, a, []trainOp{trainOps[2], trainOps[k]}, 1)
			}
		}
	}
	for _, a := range archFew() {
		d := 5
		if c.Thorough {
			d = 7
		}
		c14arch[float64](c, a, d)
	}
	c14rates(c)
	c14sides(c)
	c14long(c)
	c14layers(c)
	c14big(c)
	c14nested(c)
	c14chained(c)
}

// sideCalls are calls between two steps that must not affect the second one.
var sideCalls = []string{"reset", "summary", "save", "save and load back", "freeze and unfreeze", "training with a wrong target", "training with a wrong input", "training without epochs", "compile again", "prediction", "rejected prediction", "other parameters", "loading other parameters"}

func (n *Net[T]) side(k int) {
	inS, outS := n.ref.inS, n.ref.last().shape
	wrong := func(s []uint) tensor.Tensor[T] { return tensor.NewOnes[T](append([]uint{2}, s...)...) }
	switch sideCalls[k] {
	case "reset":
		noErr("ResetIS", n.m.ResetIS())
	case "summary":
		_ = n.m.String()
	case "save", "save and load back":
		var buf bytes.Buffer
		n.m.ResetSave()
		noErr("Save", n.m.Save(&buf))
		if sideCalls[k] == "save" {
			return
		}
		n.m.ResetLoad()
		noErr("Load", n.m.Load(&buf))
	case "freeze and unfreeze":
		n.m.SetTrainable(false)
		n.m.SetTrainable(true)
	case "training with a wrong target":
		if _, err := n.m.TrainOne(ten[T](inS, sampleX(inS, 2)), wrong(outS), halves[T](0), halves[T](1)); err == nil {
			Fail("training with a target of the wrong shape is accepted")
		}
	case "training with a wrong input":
		if _, err := n.m.TrainOne(wrong(inS), ten[T](outS, sampleY(outS, 2)), halves[T](0), halves[T](1)); err == nil {
			Fail("training with an input of the wrong shape is accepted")
		}
	case "training without epochs":
		noErr("Train", n.m.Train([]tensor.Tensor[T]{ten[T](inS, sampleX(inS, 2))}, []tensor.Tensor[T]{ten[T](outS, sampleY(outS, 2))}, 0, 1, halves[T](0), halves[T](1)))
	case "compile again":
		noErr("Compile", n.m.Compile())
		noErr("CompileBackPropagation", n.m.CompileBackPropagation())
	case "prediction":
		_, err := n.m.Predict(ten[T](inS, sampleX(inS, 2)))
		noErr("Predict", err)
	case "other parameters":
		n.setParams(2)
	case "loading other parameters":
		n.setParams(3)
		var buf bytes.Buffer
		n.m.ResetSave()
		noErr("Save", n.m.Save(&buf))
		n.setParams(2)
		n.m.ResetLoad()
		noErr("Load", n.m.Load(&buf))
		for k, nd := range n.ref.nodes {
			for i := range nd.W {
				nd.W[i] = float64(T(paramValue(i, k, 3)))
			}
			for i := range nd.B {
				nd.B[i] = float64(T(paramValue(i+5, k+3, 3)))
			}
		}
	case "rejected prediction":
		if _, err := n.m.Predict(wrong(inS)); err == nil {
			Fail("predicting an input of the wrong shape is accepted")
		}
	}
}

// c14sides: every pair of calls of other kinds, between three steps with
// momentum.
func c14sides(c *C) {
	for _, a := range append(archAll(), archNested()...) {
		if len(newRNet(a).fanout()) > 0 {
			continue
		}
		seqs(len(sideCalls), 2, func(s []int) {
			if c.Out() || !c.Mine() {
				return
			}
			k, l := s[0], s[1]
			c.Do(func() string {
				return fmt.Sprintf("%s: step, %s, step, %s, %s, step", a, sideCalls[k], sideCalls[l], sideCalls[k])
			}, func() {
				n := compiled[float64](a, 1)
				for i, op := range []trainOp{trainOps[2], trainOps[3], {true, 0, 1.0 / 32, 0.75, 0}} {
					if !n.do(c, i, op) {
						return
					}
					if i < 2 {
						n.side(s[i])
						n.cmpParams(fmt.Sprintf("after step %d and %s", i, sideCalls[s[i]]))
						if i == 1 {
							n.side(k)
							n.cmpParams(fmt.Sprintf("after step %d, %s and %s", i, sideCalls[l], sideCalls[k]))
						}
					}
				}
				c.State("sides", a.name, k, l)
			})
		})
	}
	c.Bound("kinds of calls between steps", uint64(len(sideCalls)))
}

// c14rates: every pair of rate and momentum of a grid, between two usual steps.
func c14rates(c *C) {
	rates := []float64{0, 1.0 / (1 << 30), 1.0 / 1024, 0.3, 1, 1.5, 2.75, 12, -0.25, -3}
	moms := []float64{0, 1.0 / (1 << 20), 0.9, 0.999, 1, 1.25, 3, 12, -0.25, -1, -2.5}
	archs := archFew()
	if c.Thorough {
		archs = archAll()
	}
	for _, a := range archs {
		for _, r := range rates {
			for _, m := range moms {
				if c.Out() || !c.Mine() {
					continue
				}
				c14history[float64](c, a, []trainOp{trainOps[3], {true, 0, r, m, 0}, {true, 1, 1.0 / 256, 0.5, 0}, trainOps[5]}, 1)
			}
		}
	}
	c.Bound("rates", uint64(len(rates)))
	c.Bound("momenta", uint64(len(moms)))
}

// c14long: every pair of calls, repeated over and over. The rates are small so
// that the steps stay comparable for as long as possible.
func c14long(c *C) {
	times := 40
	if c.Thorough {
		times = 200
	}
	archs := append(archFew(), chain("one unit", indense(1, 1, "linear")), chain("one unit", indense(1, 1, "linear")))
	for ai, a := range archs {
		times := times
		if ai == len(archs)-1 {
			times = 1200
		}
		seqs(len(trainOps), 2, func(s []int) {
			if c.Out() || !c.Mine() {
				return
			}
			var ops []trainOp
			for i := 0; i < times; i++ {
				for _, k := range s {
					op := trainOps[k]
					op.a /= 16
					ops = append(ops, op)
				}
			}
			c.Do(func() string { return fmt.Sprintf("%s, %d times %v", a, times, ops[:2]) }, func() {
				n := compiled[float64](a, 1)
				if len(n.ref.fanout()) > 0 {
					c14shared(c, n, ops)
					return
				}
				for i, op := range ops {
					if !n.do(c, i, op) {
						c.Bound("longest history of training calls", uint64(i))
						return
					}
				}
				c.Bound("longest history of training calls", uint64(len(ops)))
				c.State("long", a.name, s)
			})
		})
	}
}

// c14nested: the same step, however the layers are put together.
func c14nested(c *C) {
	for _, a := range c16chains() {
		depth := 2
		if len(a.nodes) > 5 {
			depth = 1
		}
		for _, p := range plans(len(a.nodes), depth) {
			if c.Out() || !c.Mine() {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("%v put together as %v", a, p) }, func() {
				n := composed[f64](a, p)
				noErr("Compile", n.m.Compile())
				n.setParams(1)
				for i, k := range []int{2, 3, 5} {
					if !n.do(c, i, trainOps[k]) {
						return
					}
				}
				c.State("nested", a.name, p.String())
			})
		}
	}
}

func seqs(n, k int, f func(s []int)) {
	s := make([]int, k)
	for {
		f(s)
		i := k - 1
		for ; i >= 0; i-- {
			s[i]++
			if s[i] < n {
				break
			}
			s[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func c14arch[T types.Number](c *C, a Arch, depth int) {
	seqs(len(trainOps), depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append([]int{}, s...)
		ops := make([]trainOp, len(h))
		for i, k := range h {
			ops[i] = trainOps[k]
		}
		c14history[T](c, a, ops, 1)
	})
	c.Bound("history", uint64(depth))
}

func c14history[T types.Number](c *C, a Arch, ops []trainOp, seed int) {
	c.Do(func() string {
		return fmt.Sprintf("%s %s, history %v (train?, sample, rate, momentum)", typeName[T](), a, ops)
	}, func() {
		n := compiled[T](a, seed)
		if len(n.ref.fanout()) > 0 {
			c14shared(c, n, ops)
			return
		}
		for i, op := range ops {
			if !n.do(c, i, op) {
				return
			}
			c.State(typeName[T](), a.name, ops[:i+1], seed)
		}
	})
	c.Sample("%s: %v", a.name, ops)
}

// sample is the input and target of a call.
func (n *Net[T]) sample(op trainOp) (x, y []float64) {
	x = toF(toT[T](sampleX(n.ref.inS, op.k)))
	y = toF(toT[T](sampleY(n.ref.last().shape, op.k)))
	switch op.kind {
	case 1:
		p, err := n.m.Predict(ten[T](n.ref.inS, x))
		noErr("Predict", err)
		y = toF(p.GetData())
	case 2:
		for i := range y {
			y[i] = y[i]*512 + 700
		}
	case 3:
		for i := range x {
			x[i] *= 64
		}
	case 4:
		for i := range x {
			x[i] = 0
		}
	}
	return
}

// do performs one call on both networks; false ends the history.
func (n *Net[T]) do(c *C, i int, op trainOp) bool {
	x, y := n.sample(op)
	if !op.train {
		want := n.ref.forward(x)
		if !n.ok(want) {
			c.Skip()
			return false
		}
		p, err := n.m.Predict(ten[T](n.ref.inS, x))
		noErr("Predict", err)
		n.cmpOut(fmt.Sprintf("step %d: prediction", i), p, want)
		n.cmpParams(fmt.Sprintf("step %d: after predicting", i))
		c.Step(1)
		return true
	}
	n.shadowStep(x, y, op.a, op.m)
	wl := n.ref.step(x, y, op.a, op.m)
	if !n.ok(n.ref.last().out) || n.amplified() {
		c.Skip()
		return false
	}
	loss, err := n.m.TrainOne(ten[T](n.ref.inS, x), ten[T](n.ref.last().shape, y), T(op.a), T(op.m))
	noErr("TrainOne", err)
	if !n.nearLoss(float64(loss), wl, y) {
		Fail("step %d: loss %v instead of %v", i, loss, wl)
	}
	n.cmpParams(fmt.Sprintf("step %d: after training", i))
	c.Step(1)
	return true
}

// shadowStep performs the step on a second reference network whose parameters
// differ by about a rounding error; amplified tells whether the steps so far
// have made that error so large that results are no longer comparable.
func (n *Net[T]) shadowStep(x, y []float64, a, m float64) {
	if n.shadow == nil {
		n.shadow = n.ref.clone()
		e := 1e-12
		if !isDouble[T]() {
			e = 1e-7
		}
		for _, nd := range n.shadow.nodes {
			for i := range nd.W {
				nd.W[i] += e * (1 + math.Abs(nd.W[i])) * float64(1-i%3)
			}
			for i := range nd.B {
				nd.B[i] -= e * (1 + math.Abs(nd.B[i])) * float64(1-i%2*2)
			}
		}
	}
	n.shadow.step(x, y, a, m)
}

func (n *Net[T]) amplified() bool {
	lim := 1e-10
	if !isDouble[T]() {
		lim = 3e-5
	}
	far := func(a, b []float64) bool {
		for i := range a {
			if !(math.Abs(a[i]-b[i]) <= lim*(1+math.Abs(a[i]))) {
				return true
			}
		}
		return false
	}
	for k, nd := range n.ref.nodes {
		s := n.shadow.nodes[k]
		if far(nd.W, s.W) || far(nd.B, s.B) {
			return true
		}
	}
	return far(n.ref.last().out, n.shadow.last().out)
}

// nearLoss compares losses up to the rounding of their terms.
func (n *Net[T]) nearLoss(a, b float64, y []float64) bool {
	s := 1.0
	for i, v := range n.ref.last().out {
		s += math.Abs(v) + math.Abs(y[i])
	}
	e := 1e-8
	if !isDouble[T]() {
		e = 3e-4
	}
	return math.Abs(a-b) <= e*s
}

// ok says whether the last forward pass stayed away from kinks and overflow.
func (n *Net[T]) ok(out []float64) bool {
	lim := 1e-6
	if !isDouble[T]() {
		lim = 1e-3
	}
	if n.ref.margin < lim {
		return false
	}
	for _, v := range out {
		if math.IsNaN(v) || math.Abs(v) > 1e4 {
			return false
		}
	}
	return true
}

func isDouble[T types.Number]() bool {
	var z T
	_, ok := any(z).(float64)
	return ok
}

// c14layers puts every single-layer configuration behind a layer with
// parameters, so that its backward function is seen.
func c14layers(c *C) {
	for _, s := range singleLayers(c.Thorough) {
		if len(s.nodes) < 2 || c.Out() || !c.Mine() {
			continue
		}
		l := s.nodes[len(s.nodes)-1]
		sh := s.nodes[0].a
		var a Arch
		ops := []trainOp{trainOps[0], trainOps[3]}
		switch {
		case l.kind == "concat":
			continue
		case len(sh) == 3:
			a = chain("layer", in(sh...), convL(sh[0], 1, 1, 1, 1, "tanh"), l, dense(2, "linear"))
			// the layer as last one
			c14history[float64](c, chain("layer last", in(sh...), convL(sh[0], 1, 1, 1, 1, "tanh"), l), ops, 1)
			c14history[float64](c, chain("layer after deconv", in(sh...), deconvL(sh[0], 1, 1, 1, 1, "sin"), l, dense(1, "linear")), ops[:1], 2)
		case len(sh) == 1:
			a = chain("layer", in(3), dense(sh[0], "tanh"), l, dense(2, "linear"))
			c14history[float64](c, chain("layer last", in(3), dense(sh[0], "tanh"), l), ops, 1)
		default:
			continue
		}
		c14history[float64](c, a, ops, 1)
		c14history[float32](c, a, ops[:1], 1)
	}
	// every pair of layer types one behind the other
	mids := []LSpec{convL(2, 2, 2, 1, 1, "tanh"), convL(1, 1, 2, 1, 2, "sin"), deconvL(1, 2, 1, 1, 2, "tanh"), deconvL(2, 1, 1, 2, 1, "sigmoid"),
		pool(2, 1), pool(2, 2), pool(3, 2), up(2, 1), up(1, 2), norm(), enorm(), softmax(), sub(1, 0, 2), sub(2, 1, 2), sub(0, 0, 1), flat(), dense(3, "swish")}
	ends := append([]LSpec{}, mids...)
	for _, m1 := range mids {
		for _, m2 := range ends {
			if c.Out() || !c.Mine() {
				continue
			}
			flatDone := m1.kind == "flat" || m1.kind == "dense"
			if flatDone && (m2.kind == "conv" || m2.kind == "deconv" || m2.kind == "pool" || m2.kind == "up" || m2.kind == "sub") {
				continue
			}
			for _, end := range []bool{true, false} {
				ls := []LSpec{in(2, 4, 4), convL(1, 1, 1, 1, 1, "tanh"), m1, m2}
				if end {
					ls = append(ls, dense(2, "linear"))
				}
				a := chain("pair", ls...)
				if !fits(a) {
					continue
				}
				for seed := 1; seed <= 2; seed++ {
					c14history[float64](c, a, []trainOp{trainOps[0], trainOps[3], trainOps[5]}, seed)
				}
				c14history[float32](c, a, []trainOp{trainOps[2]}, 1)
				if !flatDone && m1.kind != "softmax" && m2.kind != "softmax" {
					// the same pair behind a concatenation of two branches
					b := Arch{"pair behind concat", []LSpec{in(2, 4, 4), convL(1, 1, 1, 1, 1, "tanh").from(0), convL(1, 1, 1, 1, 1, "sin").from(0), cat(1, 2, 0), m1.from(3), m2.from(4)}}
					if end {
						b.nodes = append(b.nodes, dense(2, "linear").from(5))
					}
					if fits(b) {
						c14history[float64](c, b, []trainOp{trainOps[0], trainOps[3]}, 1)
					}
				}
			}
		}
	}
}

// fits reports whether the shapes of an architecture are possible.
func fits(a Arch) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	n := newRNet(a)
	for _, nd := range n.nodes {
		for _, d := range nd.shape {
			if d == 0 || d > 1000 {
				return false
			}
		}
		if nd.kind == "sub" {
			if s := n.nodes[nd.src[0]].shape; nd.a[2] > s[nd.a[0]] {
				return false
			}
		}
		if nd.kind == "conv" {
			if s := n.nodes[nd.src[0]].shape; nd.a[1] > s[1] || nd.a[2] > s[2] {
				return false
			}
		}
	}
	return true
}

// c14big: sizes beyond the exhaustive bound.
func c14big(c *C) {
	for _, a := range []Arch{
		chain("big dense", indense(40, 33, "tanh"), dense(17, "linear")),
		chain("big dense 2", indense(1, 129, "sin"), dense(2, "tanh")),
		chain("big conv", in(3, 9, 7), convL(4, 3, 2, 2, 1, "tanh"), pool(2, 3), dense(3, "linear")),
		chain("big deconv", in(3, 3, 4), deconvL(3, 3, 4, 2, 3, "tanh"), dense(2, "linear")),
		chain("gan", in(4, 1, 1), deconvL(3, 3, 3, 1, 1, "sigmoid"), up(2, 2), deconvL(2, 3, 3, 2, 2, "sigmoid"), convL(3, 3, 3, 2, 2, "sigmoid"), convL(3, 2, 2, 1, 1, "sigmoid"), pool(2, 2), convL(3, 2, 2, 1, 1, "sigmoid"), dense(1, "sigmoid")),
	} {
		for k := 0; k < len(trainOps); k++ {
			if c.Out() || !c.Mine() {
				continue
			}
			c14history[float64](c, a, []trainOp{trainOps[k], trainOps[2]}, 1)
			c14history[float32](c, a, []trainOp{trainOps[k]}, 1)
		}
	}
}

// ---- recorded findings

// c14shared: a layer that feeds several layers. The step must be the one of
// the reference network, or, for the layers at or before the shared one, the
// recorded one: they receive a part of the error only.
func c14shared[T types.Number](c *C, n *Net[T], ops []trainOp) {
	affected := map[int]bool{}
	var mark func(i int)
	mark = func(i int) {
		if affected[i] {
			return
		}
		affected[i] = true
		for _, s := range n.ref.nodes[i].src {
			mark(s)
		}
	}
	for _, i := range n.ref.fanout() {
		mark(i)
	}
	for i, op := range ops {
		x, y := n.sample(op)
		if !op.train {
			want := n.ref.forward(x)
			if !n.ok(want) {
				return
			}
			p, err := n.m.Predict(ten[T](n.ref.inS, x))
			noErr("Predict", err)
			n.cmpOut(fmt.Sprintf("step %d: prediction", i), p, want)
			c.Step(1)
			continue
		}
		rec := n.ref.clone()
		n.shadow = nil
		n.shadowStep(x, y, op.a, op.m)
		wl := n.ref.step(x, y, op.a, op.m)
		if !n.ok(n.ref.last().out) || n.amplified() {
			return
		}
		loss, err := n.m.TrainOne(ten[T](n.ref.inS, x), ten[T](n.ref.last().shape, y), T(op.a), T(op.m))
		noErr("TrainOne", err)
		if !n.nearLoss(float64(loss), wl, y) {
			Fail("step %d: loss %v instead of %v", i, loss, wl)
		}
		k, s := n.badParam(n.ref)
		if k < 0 {
			c.Step(1)
			continue
		}
		if !affected[k] {
			Fail("step %d: after training: %s", i, s)
		}
		rec.recordedStep(x, y, op.a, op.m)
		if k2, s2 := n.badParam(rec); k2 >= 0 {
			Fail("step %d: after training: %s; and the recorded behaviour of a shared layer: %s", i, s, s2)
		}
		c.Violation("shared-layer", "step %d: after training: %s", i, s)
		n.ref = rec
		c.Step(1)
	}
}

// recordedStep is the step as the code takes it for shared layers: back
// propagation is a depth-first walk in which a layer passes on, once, what it
// has received so far, divided by the number of layers that it feeds.
func (n *RNet) recordedStep(x, target []float64, alpha, momentum float64) {
	out := n.forward(x)
	// where each layer's error is stored: a concatenation and a soft-max have
	// no storage of their own
	cell := make([][]*float64, len(n.nodes))
	for i, nd := range n.nodes {
		nd.D = make([]float64, len(nd.out))
		cell[i] = make([]*float64, len(nd.out))
		for j := range cell[i] {
			cell[i][j] = new(float64)
		}
		switch nd.kind {
		case "softmax":
			cell[i] = cell[nd.src[0]]
		case "concat":
			n.eachCatOf(nd, func(k, a, o int) { cell[i][o] = cell[nd.src[k]][a] })
		}
	}
	for o := range out {
		*cell[len(n.nodes)-1][o] = target[o] - out[o]
	}
	// reference counts, shared by flatten layers and the layer before them
	ref := make([]int, len(n.nodes))
	for i := range n.nodes {
		ref[i] = n.nodes[i].consumers
	}
	ref[len(n.nodes)-1]++
	root := func(i int) int {
		for n.nodes[i].kind == "flat" {
			i = n.nodes[i].src[0]
		}
		return i
	}
	for i, nd := range n.nodes {
		if nd.kind == "flat" {
			ref[root(i)] += ref[i] - 1
		}
	}
	refOf := func(i int) int { return ref[root(i)] }
	done := make([]bool, len(n.nodes))
	own := make([][]float64, len(n.nodes)) // what each layer's own update uses
	var bp func(i int)
	bp = func(i int) {
		if done[i] {
			return
		}
		done[i] = true
		nd := n.nodes[i]
		if nd.kind == "concat" {
			bp(nd.src[0])
			bp(nd.src[1])
			return
		}
		div := float64(refOf(i))
		full, D := make([]float64, len(nd.out)), make([]float64, len(nd.out))
		for j, v := range cell[i] {
			full[j], D[j] = *v, *v
			if div > 1 && nd.kind != "flat" {
				D[j] /= div
			}
		}
		own[i] = D
		if nd.kind == "conv" || nd.kind == "deconv" {
			own[i] = full
		}
		if len(nd.src) == 0 {
			return
		}
		if nd.kind != "softmax" {
			pre := n.nodes[nd.src[0]]
			for j := range pre.D {
				pre.D[j] = 0
			}
			n.push(i, D)
			overwrite := nd.kind == "flat" || nd.kind == "norm" || nd.kind == "enorm" || nd.kind == "up"
			for j, v := range pre.D {
				c := cell[nd.src[0]][j]
				if overwrite {
					*c = v
				} else {
					*c += v
				}
			}
		}
		bp(nd.src[0])
	}
	bp(len(n.nodes) - 1)
	for i := range n.nodes {
		n.nodes[i].D = own[i]
		if own[i] == nil {
			n.nodes[i].D = make([]float64, len(n.nodes[i].out))
		}
	}
	for i := range n.nodes {
		n.update(i, x, alpha, momentum)
	}
}

// c14chained: training a model made of two models.
func c14chained(c *C) {
	if c.shard != 0 {
		return
	}
	gl := []LSpec{in(2), dense(3, "tanh")}
	dl := []LSpec{in(3), dense(2, "sin"), dense(1, "linear")}
	whole := chain("chained", in(2), dense(3, "tanh"), dense(2, "sin"), dense(1, "linear"))
	c.Do(func() string { return "model chained by FromModels: " + whole.String() }, func() {
		g, d := wire[f64](chain("g", gl...)), wire[f64](chain("d", dl...))
		gm, err := model.FromInOut[f64](g[0], g[1])
		noErr("FromInOut", err)
		dm, err := model.FromInOut[f64](d[0], d[2])
		noErr("FromInOut", err)
		m, err := model.FromModels[f64](gm, dm)
		noErr("FromModels", err)
		n := &Net[f64]{arch: whole, ref: newRNet(whole), m: m}
		n.layers = append(n.layers, g[0], g[1], d[1], d[2])
		n.setParams(1)
		x, y := sampleX([]uint{2}, 0), sampleY([]uint{1}, 0)
		rec := n.ref.clone()
		wl := n.ref.step(x, y, 0.25, 0)
		loss, err := m.TrainOne(ten[f64]([]uint{2}, x), ten[f64]([]uint{1}, y), 0.25, 0)
		noErr("TrainOne", err)
		if !nearNet[f64](loss, wl) {
			Fail("loss %v instead of %v", loss, wl)
		}
		k, s := n.badParam(n.ref)
		if k < 0 {
			return
		}
		if k > 1 {
			Fail("%s", s)
		}
		// recorded: the last layer of the first model counts twice, once for
		// its own model and once for the chain, and its error is halved
		out := rec.forward(x)
		for _, nd := range rec.nodes {
			nd.D = make([]float64, len(nd.out))
		}
		for i := range out {
			rec.last().D[i] = y[i] - out[i]
		}
		rec.push(3, rec.nodes[3].D)
		rec.push(2, rec.nodes[2].D)
		for i := range rec.nodes[1].D {
			rec.nodes[1].D[i] /= 2
		}
		for i := range rec.nodes {
			rec.update(i, x, 0.25, 0)
		}
		if k2, s2 := n.badParam(rec); k2 >= 0 {
			Fail("%s; and the recorded behaviour: %s", s, s2)
		}
		FailKey("chained-halved", "%s", s)
	})
	c.Do(func() string { return "training the first of two chained models: " + whole.String() }, func() {
		n := chained[f64](whole, []int{2}, false, 0)
		n.setParams(1)
		first := newRNet(chain("first", in(2), dense(3, "tanh")))
		copy(first.nodes[1].W, n.ref.nodes[1].W)
		copy(first.nodes[1].B, n.ref.nodes[1].B)
		x, y := sampleX([]uint{2}, 0), sampleY([]uint{3}, 0)
		wl := first.step(x, y, 0.25, 0)
		before := n.bitsOf()
		loss, err := n.parts[0].TrainOne(ten[f64]([]uint{2}, x), ten[f64]([]uint{3}, y), 0.25, 0)
		noErr("TrainOne", err)
		if !nearNet[f64](loss, wl) {
			Fail("loss %v instead of %v", loss, wl)
		}
		after := n.bitsOf()
		if !sameBits(before[1:], after[1:]) {
			Fail("training the first model changed the second one")
		}
		for q, v := range append(append([]float64{}, first.nodes[1].W...), first.nodes[1].B...) {
			if a := fromBits[f64](after[0][q]); !nearNet[f64](a, v) {
				FailKey("chained-front-untrainable", "parameter %d of the first model is %v instead of %v", q, a, v)
			}
		}
	})
}
