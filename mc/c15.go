package main

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C15", &Check{
		Run:   runC15,
		Level: "model_checking",
		Rule: "every subset of frozen layers (by layer and, for every nested model, by model) x every history of length 4 (thorough 5) over {freeze layer i, unfreeze layer i, freeze model, unfreeze model, train without momentum}, and of length 3 (thorough 4) with momentum after an earlier step, on 16 architectures of up to 5 layers with parameters, branches, shared layers and nested models; " +
			"and every history of length 3 (4 on two, thorough 4 and 5) over 13 calls (freezing, predicting, compiling, saving, loading, resetting, summaries, rejected and data-set training) on all architectures in both floating-point types; after every step frozen parameters are compared bit for bit, all others with the reference step, and all parameters of a second, untrained model bit for bit. Also every network of up to 3 layers (570) and every chain of up to 2 image layers (219) with every one of these calls. state = (architecture, history prefix)",
		Assumptions: []string{"steps after a layer was unfrozen use no momentum: whether a frozen layer's momentum memory continues is not specified",
			"layers behind a shared layer: recorded finding of C14, compared with what an unfrozen twin does"},
	})
}

func runC15(c *C) {
	c15arch(c)
	c15misc(c)
	c15nested(c)
	c15gan(c)
}

var c15miscOps = []string{"freeze first", "freeze last", "freeze model", "unfreeze model", "Predict", "CompileBackPropagation", "Compile", "String", "Save", "Load", "ResetIS", "rejected TrainOne", "Train", "TrainOne"}

// c15misc: other calls in between do not thaw or freeze anything.
func c15misc(c *C) {
	d := 3
	if c.Thorough {
		d = 4
	}
	for _, a := range archAll() {
		a := a
		c15miscArch[float64](c, a.String(), d, func() *Net[float64] { return newNet[float64](a) })
		c15miscArch[float32](c, a.String(), 2, func() *Net[float32] { return newNet[float32](a) })
	}
	for _, a := range archLarge() {
		a := a
		c15miscArch[float64](c, a.String(), 1, func() *Net[float64] { return newNet[float64](a) })
		if deepArch(a) {
			c15miscArch[float64](c, a.String(), 2, func() *Net[float64] { return newNet[float64](a) })
		}
	}
	for _, a := range append(append(archDags(3), archNested()...), archImages(2)...) {
		a := a
		c15miscArch[float64](c, a.String(), d-2, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range archFew() {
		if a := a; a.name == "dense2" || a.name == "conv branches flat" || c.Thorough {
			c15miscArch[float64](c, a.String(), d+1, func() *Net[float64] { return newNet[float64](a) })
		}
	}
}

func c15miscArch[T types.Number](c *C, name string, d int, mk func() *Net[T]) {
	nops := len(c15miscOps)
	seqs(nops, d, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append(append([]int{}, s...), nops-1)
		desc := func() string {
			t := typeName[T]() + " " + name + ":"
			for _, k := range h {
				t += " " + c15miscOps[k] + ";"
			}
			return t
		}
		c.Do(desc, func() {
			n, twin := mk(), mk()
			ps := n.ref.paramLayers()
			if len(ps) == 0 {
				c.Skip()
				return
			}
			if h[0] > 3 {
				noErr("Compile", n.m.Compile())
			}
			noErr("Compile", twin.m.Compile())
			frozen := map[int]bool{}
			inS, outS := n.ref.inS, n.ref.last().shape
			x, y := ten[T](inS, sampleX(inS, 0)), ten[T](outS, sampleY(outS, 0))
			rate := 0.25
			done := false
			for i, k := range h {
				if !done && (k > 3 || i == len(h)-1) {
					noErr("Compile", n.m.Compile())
					n.setParams(1)
					done = true
				}
				var keep [][]uint64
				if done && k != 9 && k < 12 {
					keep = n.bitsOf()
				}
				switch k {
				case 0, 1:
					p := ps[k*(len(ps)-1)]
					n.layers[p].SetTrainable(false)
					frozen[p] = true
				case 2, 3:
					n.m.SetTrainable(k == 3)
					for _, p := range ps {
						frozen[p] = k == 2
					}
				case 4:
					_, err := n.m.Predict(x)
					noErr("Predict", err)
				case 5:
					noErr("CompileBackPropagation", n.m.CompileBackPropagation())
				case 6:
					noErr("Compile", n.m.Compile())
				case 7:
					_ = n.m.String()
				case 8:
					n.m.ResetSave()
					noErr("Save", n.m.Save(io.Discard))
				case 9:
					var b bytes.Buffer
					twin.setParams(2)
					twin.m.ResetSave()
					noErr("Save", twin.m.Save(&b))
					n.m.ResetLoad()
					noErr("Load", n.m.Load(&b))
				case 10:
					noErr("ResetIS", n.m.ResetIS())
				case 11:
					if _, err := n.m.TrainOne(x, ten[T]([]uint{uint(size(outS)) + 1}, make([]float64, size(outS)+1)), T(rate), 0); err == nil {
						Fail("step %d: wrong target accepted", i)
					}
					if _, err := n.m.TrainOne(ten[T]([]uint{uint(size(inS)) + 1}, make([]float64, size(inS)+1)), y, T(rate), 0); err == nil {
						Fail("step %d: wrong input accepted", i)
					}
				default:
					before := n.bitsOf()
					n.read()
					twin.load(n.ref)
					var moves map[int]bool
					if i == len(h)-1 {
						moves = n.ref.moves(toF(x.GetData()), toF(y.GetData()), rate)
					}
					for _, m := range []*Net[T]{twin, n} {
						if k == 12 {
							noErr("Train", m.m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 1, 1, T(rate), 0))
						} else {
							_, err := m.m.TrainOne(x, y, T(rate), 0)
							noErr("TrainOne", err)
						}
					}
					after, tw := n.bitsOf(), twin.bitsOf()
					for j, p := range ps {
						if frozen[p] {
							if !sameBits(before[j:j+1], after[j:j+1]) {
								Fail("step %d: frozen layer %d changed", i, p)
							}
							continue
						}
						if moves[p] && sameBits(before[j:j+1], after[j:j+1]) {
							Fail("step %d: trainable layer %d (frozen: %v) did not change", i, p, frozen)
						}
						for q := range after[j] {
							a, b := float64(fromBits[T](after[j][q])), float64(fromBits[T](tw[j][q]))
							if !nearNet[T](a, b) && !(a != a && b != b) {
								Fail("step %d: trainable layer %d (frozen: %v): parameter %d is %v instead of %v", i, p, frozen, q, a, b)
							}
						}
					}
					c.Step(1)
				}
				if keep != nil {
					wantParams(fmt.Sprintf("step %d: after %s, which trains nothing", i, c15miscOps[k]), n, keep)
				}
				c.State("misc", typeName[T](), name, h[:i+1])
			}
		})
	})
}

// moves says which layers a training step changes clearly, both by definition
// and in the recorded way of layers that feed several others.
func (n *RNet) moves(x, y []float64, rate float64) map[int]bool {
	a, b := n.clone(), n.clone()
	a.step(x, y, rate, 0)
	b.recordedStep(x, y, rate, 0)
	out := map[int]bool{}
	far := func(p, q []float64) bool {
		for i := range p {
			if math.Abs(p[i]-q[i]) > 1e-3*(1+math.Abs(p[i])) {
				return true
			}
		}
		return false
	}
	for i, nd := range n.nodes {
		move := func(m *RNet) bool { return far(nd.W, m.nodes[i].W) || far(nd.B, m.nodes[i].B) }
		out[i] = move(a) && move(b)
	}
	return out
}

// paramLayers lists the layers with parameters.
func (n *RNet) paramLayers() []int {
	var out []int
	for i, nd := range n.nodes {
		if nd.wS != nil {
			out = append(out, i)
		}
	}
	return out
}

// A twin is an identical network in which nothing is frozen; its parameters
// are set to the trained network's before every step, so that its step is the
// one the unfrozen layers must take.
func c15arch(c *C) {
	pick := map[string]bool{"dense1": true, "dense2": true, "dense2in": true, "dense4": true, "conv pool": true, "conv conv": true, "deconv deconv": true,
		"up": true, "norm": true, "softmax inner": true, "sub conv": true, "two dense branches": true, "two dense branches last": true, "three branches": true,
		"skip from input": true, "conv branches flat": true, "deep branches": true, "diamond": true, "skip connection": true, "double diamond": true}
	for _, a := range archAll() {
		if !pick[a.name] {
			continue
		}
		ps := newRNet(a).paramLayers()
		ops := 2*len(ps) + 3
		d := 3
		if ops <= 7 {
			d = 4
		}
		if c.Thorough {
			d++
		}
		seqs(ops, d, func(s []int) {
			if c.Out() || !c.Mine() || s[d-1] != ops-1 {
				return // the last operation is a training step
			}
			c15run(c, a.String(), func() *Net[f64] { return newNet[f64](a) }, append([]int{}, s...), false)
		})
		// every subset frozen one by one, then momentum
		for mask := 0; mask < 1<<len(ps); mask++ {
			if c.Out() || !c.Mine() {
				continue
			}
			var h []int
			for i := range ps {
				if mask>>i&1 == 1 {
					h = append(h, 2*i)
				}
			}
			mk := func() *Net[f64] { return newNet[f64](a) }
			c15run(c, a.String(), mk, append(append([]int{}, h...), ops-1, ops-1, ops-1), true)
			// with a momentum memory from before: train, freeze, train, train
			late := append(append([]int{ops - 1, ops - 1}, h...), ops-1, ops-1)
			c15run(c, a.String(), mk, late, true)
			// and then unfrozen one by one
			for i := range ps {
				if mask>>i&1 == 1 {
					late = append(late, 2*i+1, ops-1)
				}
			}
			c15run(c, a.String(), mk, late, true)
			// whole model frozen with a memory, only these layers released
			late = []int{ops - 1, ops - 3, ops - 1}
			for i := range ps {
				if mask>>i&1 == 1 {
					late = append(late, 2*i+1)
				}
			}
			c15run(c, a.String(), mk, append(late, ops-1, ops-1), true)
		}
		// every history with a momentum memory
		seqs(ops, d-1, func(s []int) {
			if c.Out() || !c.Mine() || s[d-2] != ops-1 {
				return
			}
			c15run(c, a.String(), func() *Net[f64] { return newNet[f64](a) }, append([]int{ops - 1}, s...), true)
		})
		// freeze the model before it is compiled
		c.Bound("history", uint64(d))
	}
}

// c15run performs a history: 2i freezes and 2i+1 unfreezes parameter layer i,
// then freeze model, unfreeze model, train.
func c15run(c *C, name string, mk func() *Net[f64], h []int, momentum bool) {
	desc := func() string {
		return fmt.Sprintf("%s: %v (2i freeze, 2i+1 unfreeze layer i; then model; last: train) momentum %v", name, h, momentum)
	}
	c.Do(desc, func() {
		n, twin, other := mk(), mk(), mk()
		frozen, ever := map[int]bool{}, map[int]bool{}
		// freezing before compilation counts as well
		k0 := 0
		ps := n.ref.paramLayers()
		apply := func(op int) {
			switch {
			case op < 2*len(ps):
				n.layers[ps[op/2]].SetTrainable(op%2 == 1)
				frozen[ps[op/2]] = op%2 == 0
			default:
				n.m.SetTrainable(op == 2*len(ps)+1)
				for _, p := range ps {
					frozen[p] = op == 2*len(ps)
				}
			}
		}
		for k0 < len(h) && h[k0] != 2*len(ps)+2 && len(h)%2 == 0 {
			apply(h[k0])
			k0++
		}
		noErr("Compile", n.m.Compile())
		noErr("Compile", twin.m.Compile())
		noErr("Compile", other.m.Compile())
		n.setParams(1)
		other.setParams(3)
		alone := other.bitsOf()
		twin.setParams(1)
		for i := k0; i < len(h); i++ {
			if h[i] != 2*len(ps)+2 {
				keep := n.bitsOf()
				apply(h[i])
				wantParams(fmt.Sprintf("step %d: freezing or unfreezing, without training,", i), n, keep)
				continue
			}
			before := n.bitsOf()
			n.read()
			x, y := sampleX(n.ref.inS, i%2), sampleY(n.ref.last().shape, i%2)
			if w := n.ref.forward(x); !n.ok(w) {
				c.Skip()
				return
			}
			m := 0.0
			if momentum {
				m = 0.5
			}
			// the step of the twin, from the same parameters
			twin.load(n.ref)
			wl, err := twin.m.TrainOne(ten[f64](n.ref.inS, x), ten[f64](n.ref.last().shape, y), 0.25, m)
			noErr("TrainOne", err)
			loss, err := n.m.TrainOne(ten[f64](n.ref.inS, x), ten[f64](n.ref.last().shape, y), 0.25, m)
			noErr("TrainOne", err)
			if !nearNet[f64](loss, wl) {
				Fail("step %d: loss %v instead of %v", i, loss, wl)
			}
			after, tw := n.bitsOf(), twin.bitsOf()
			for j, p := range ps {
				if frozen[p] {
					ever[p] = true
					if !sameBits(before[j:j+1], after[j:j+1]) {
						Fail("step %d: frozen layer %d changed", i, p)
					}
					continue
				}
				if momentum && ever[p] {
					continue // its momentum memory is not specified
				}
				for q := range after[j] {
					a, b := fromBits[f64](after[j][q]), fromBits[f64](tw[j][q])
					if !nearNet[f64](a, b) {
						Fail("step %d: trainable layer %d (frozen: %v): parameter %d is %v instead of %v", i, p, frozen, q, a, b)
					}
				}
				if len(n.ref.fanout()) == 0 && m == 0 {
					r := n.ref.clone()
					r.step(x, y, 0.25, 0)
					nd := r.nodes[p]
					for q, v := range append(append([]float64{}, nd.W...), nd.B...) {
						if a := fromBits[f64](after[j][q]); !nearNet[f64](a, v) {
							Fail("step %d: trainable layer %d (frozen: %v): parameter %d is %v instead of %v", i, p, frozen, q, a, v)
						}
					}
				}
			}
			wantParams(fmt.Sprintf("step %d: another model", i), other, alone)
			c.Step(1)
			c.State(name, h[:i+1], momentum)
		}
	})
	c.Sample("%s", desc())
}

// c15nested: freezing an inner model freezes its layers and no others.
func c15nested(c *C) {
	nest := chain("nested", in(2), dense(2, "tanh"), dense(3, "linear"), dense(2, "sin"), dense(1, "linear"))
	pl := plans(5, 2)
	for pi, p := range pl {
		if c.Out() || !c.Mine() {
			continue
		}
		if !c.Thorough && pi%3 != 0 {
			continue
		}
		p := p
		var inner []Seg
		var walk func(s Seg)
		walk = func(s Seg) {
			for _, k := range s.kids {
				if k.kids != nil {
					inner = append(inner, k)
					walk(k)
				}
			}
		}
		walk(p.root)
		for mask := 0; mask < 1<<len(inner) && mask < 64; mask++ {
			for late := 0; late < 2; late++ {
				mask, late := mask, late
				c.Do(func() string {
					return fmt.Sprintf("%v: inner models %b of %v frozen (after compiling: %d)", p, mask, inner, late)
				}, func() {
					n := composed[f64](nest, p)
					if late == 1 {
						noErr("Compile", n.m.Compile())
					}
					frozen := map[int]bool{}
					for i, s := range inner {
						if mask>>i&1 == 1 {
							n.parts[i].SetTrainable(false)
							for k := s.lo; k < s.hi; k++ {
								frozen[k] = true
							}
						}
					}
					c15step(c, n, frozen, "first step")
					n.m.SetTrainable(true)
					c15step(c, n, nil, "after unfreezing the model")
					n.m.SetTrainable(false)
					frozen = map[int]bool{}
					for k := range n.layers {
						frozen[k] = true
					}
					c15step(c, n, frozen, "after freezing the model")
					for i, s := range inner {
						if mask>>i&1 == 1 {
							n.parts[i].SetTrainable(true)
							for k := s.lo; k < s.hi; k++ {
								frozen[k] = false
							}
						}
					}
					c15step(c, n, frozen, "after unfreezing the inner models")
				})
			}
		}
		c.State(p.String())
	}
}

func c15step(c *C, n *Net[f64], frozen map[int]bool, what string) {
	noErr("Compile", n.m.Compile())
	n.setParams(1)
	before := n.bitsOf()
	x, y := sampleX(n.ref.inS, 0), sampleY(n.ref.last().shape, 0)
	_, err := n.m.TrainOne(ten[f64](n.ref.inS, x), ten[f64](n.ref.last().shape, y), 0.25, 0)
	noErr("TrainOne", err)
	n.ref.step(x, y, 0.25, 0)
	after := n.bitsOf()
	for j, p := range n.ref.paramLayers() {
		if frozen[p] {
			if !sameBits(before[j:j+1], after[j:j+1]) {
				Fail("%s: frozen layer %d changed", what, p)
			}
			continue
		}
		nd := n.ref.nodes[p]
		for q, v := range append(append([]float64{}, nd.W...), nd.B...) {
			if a := fromBits[f64](after[j][q]); !nearNet[f64](a, v) {
				Fail("%s: trainable layer %d: parameter %d is %v instead of %v", what, p, q, a, v)
			}
		}
	}
	c.Step(1)
}

// c15gan: the documented use of chained models. The generator is trained
// through the chain while the discriminator is frozen.
func c15gan(c *C) {
	for _, gk := range []int{0, 1, 2} {
		for dk := 0; dk < 3; dk++ {
			for k := 0; k < 4; k++ {
				if c.Out() || !c.Mine() {
					continue
				}
				gk, dk, k := gk, dk, k
				gl := []LSpec{in(2), dense(3, "tanh"), dense(2, "sin"), dense(2, "tanh")}[:gk+2]
				dl := []LSpec{dense(2, "sin"), dense(3, "tanh"), dense(1, "linear")}[:dk+1]
				a := chain("gan", append(append([]LSpec{}, gl...), dl...)...)
				c.Do(func() string {
					return fmt.Sprintf("generator %d and discriminator %d layers, mode %d: %v", gk+2, dk+1, k, a)
				}, func() {
					n := chained[f64](a, []int{len(gl)}, k%2 == 1, k/2)
					n.setParams(1)
					c15chain(c, n, len(gl))
				})
				c.Do(func() string {
					return fmt.Sprintf("training the second of two chained models, %d and %d layers, mode %d: %v", gk+2, dk+1, k, a)
				}, func() {
					n := chained[f64](a, []int{len(gl)}, k%2 == 1, k/2)
					n.setParams(1)
					c15second(c, n, len(gl))
				})
				c.State("gan", gk, dk, k)
			}
		}
	}
}

// c15second trains the second model on its own.
func c15second(c *C, n *Net[f64], cut int) {
	g, d := n.parts[0], n.parts[1]
	var dl []LSpec
	inS := n.ref.nodes[cut-1].shape
	dl = append(dl, in(inS...))
	for _, l := range n.arch.nodes[cut:] {
		dl = append(dl, l)
	}
	// the second model alone, as a reference network
	r := newRNet(chain("second", dl...))
	copyParams := func() {
		for k := cut; k < len(n.ref.nodes); k++ {
			copy(r.nodes[k-cut+1].W, n.ref.nodes[k].W)
			copy(r.nodes[k-cut+1].B, n.ref.nodes[k].B)
		}
	}
	step := func(what string, k int) (gSame bool) {
		n.read()
		copyParams()
		x, y := sampleX(inS, k), sampleY(n.ref.last().shape, k)
		before := n.bitsOf()
		wl := r.step(x, y, 0.25, 0)
		loss, err := d.TrainOne(ten[f64](inS, x), ten[f64](n.ref.last().shape, y), 0.25, 0)
		noErr("TrainOne", err)
		if !nearNet[f64](loss, wl) {
			Fail("%s: loss %v instead of %v", what, loss, wl)
		}
		after := n.bitsOf()
		gSame = true
		for j, p := range n.ref.paramLayers() {
			if p < cut {
				gSame = gSame && sameBits(before[j:j+1], after[j:j+1])
				continue
			}
			nd := r.nodes[p-cut+1]
			for q, v := range append(append([]float64{}, nd.W...), nd.B...) {
				if a := fromBits[f64](after[j][q]); !nearNet[f64](a, v) {
					Fail("%s: layer %d: parameter %d is %v instead of %v", what, p, q, a, v)
				}
			}
		}
		c.Step(1)
		return gSame
	}
	g.SetTrainable(false)
	if !step("first model frozen", 0) || !step("first model frozen", 1) {
		Fail("the first model is frozen but changed")
	}
	g.SetTrainable(true)
	a, b := step("first model not frozen", 0), step("first model not frozen", 1)
	if !a || !b {
		FailKey("chained-part-trains-front", "training the second model changed the parameters of the first one")
	}
}

func c15chain(c *C, n *Net[f64], cut int) {
	g, d := n.parts[0], n.parts[1]
	x, y := ten[f64](n.ref.inS, sampleX(n.ref.inS, 0)), ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, 0))
	check := func(what string, frozen func(k int) bool, m *model.Model[f64]) {
		before := n.bitsOf()
		_, err := m.TrainOne(x, y, 0.25, 0)
		noErr("TrainOne", err)
		after := n.bitsOf()
		for j, p := range n.ref.paramLayers() {
			same := sameBits(before[j:j+1], after[j:j+1])
			if frozen(p) && !same {
				Fail("%s: frozen layer %d changed", what, p)
			}
			if !frozen(p) && same {
				Fail("%s: layer %d is not frozen but did not change", what, p)
			}
		}
		c.Step(1)
	}
	for i := 0; i < 2; i++ {
		d.SetTrainable(false)
		check("discriminator frozen, chain trained", func(k int) bool { return k >= cut }, n.m)
		d.SetTrainable(true)
		g.SetTrainable(false)
		check("generator frozen, chain trained", func(k int) bool { return k < cut }, n.m)
		n.m.SetTrainable(true)
		check("nothing frozen, chain trained", func(k int) bool { return false }, n.m)
		n.m.SetTrainable(false)
		check("everything frozen, chain trained", func(k int) bool { return true }, n.m)
		g.SetTrainable(true)
		check("generator unfrozen, chain trained", func(k int) bool { return k >= cut }, n.m)
		d.SetTrainable(true)
	}
}
