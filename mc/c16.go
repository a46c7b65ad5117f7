package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C16", &Check{
		Run:   runC16,
		Level: "model_checking",
		Rule: "13 chains of 2 to 6 layers of every type x all ways of grouping the layers into models of models (two levels inside; thorough three) x {pushed, connected, mixed} x inner models with and without an input layer of their own; all cuts of the chains into models chained by FromModels x the same, with every call history of length 3 over {chain predicts a or b, part i predicts, chain trains, parameters are set}; " +
			"chains of up to 33 models; every cut of the shorter chains after a chain with a model that cannot be compiled in it was refused, chained again or used on their own; all these cuts again with every set of the models compiled, used or trained on their own before FromModels, which refuses (never the first model alone) or gives the composition; all 4 ways of nesting the two branches of a concatenation, also inside each other; models with branches nested once, twice or three times. Every prediction is compared with the reference composition. state = (chain, grouping), transition = one prediction compared",
		Assumptions: []string{"with Push, Connect and FromInOut the parts are not compiled before they are put together"},
	})
}

func c16chains() []Arch {
	return []Arch{
		chain("a", in(2), dense(3, "tanh")),
		chain("b", indense(2, 3, "tanh"), dense(2, "linear")),
		chain("c", in(2), dense(2, "tanh"), dense(3, "linear"), dense(1, "sin")),
		chain("d", indense(2, 2, "sin"), dense(2, "tanh"), norm(), dense(2, "linear")),
		chain("e", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), pool(2, 1), dense(2, "linear")),
		chain("f", in(1, 2, 2), deconvL(2, 2, 1, 1, 2, "tanh"), up(1, 2), convL(1, 2, 2, 1, 1, "sin"), flat()),
		chain("g", in(2, 2, 3), convL(1, 1, 2, 1, 1, "linear"), flat(), dense(3, "tanh"), softmax()),
		chain("h", in(4), dense(4, "sigmoid"), sub(0, 1, 3), dense(2, "linear"), enorm()),
		chain("i", in(3), norm(), softmax(), dense(2, "tanh")),
		chain("j", in(2, 2), flat(), dense(2, "tanh"), flat(), dense(1, "swish")),
		chain("l", in(2, 4, 5), convL(3, 2, 3, 2, 1, "tanh"), up(2, 1), pool(3, 2), enorm(), dense(9, "linear")),
		chain("m", indense(17, 12, "tanh"), dense(10, "sin"), sub(0, 2, 9), dense(3, "linear")),
		chain("k", in(2), dense(2, "tanh"), dense(2, "sin"), dense(2, "sigmoid"), dense(2, "gelu"), dense(1, "linear")),
	}
}

func runC16(c *C) {
	for _, a := range c16chains() {
		depth := 2
		if len(a.nodes) > 5 && !c.Thorough {
			depth = 1
		}
		if c.Thorough && len(a.nodes) <= 4 {
			depth = 3
		}
		for _, p := range plans(len(a.nodes), depth) {
			if c.Out() || !c.Mine() {
				continue
			}
			a, p := a, p
			c16one[float64](c, a, p.String(), func() *Net[float64] { return composed[float64](a, p) })
			c16one[float32](c, a, p.String(), func() *Net[float32] { return composed[float32](a, p) })
		}
		for _, cuts := range cutSets(len(a.nodes)) {
			for k := 0; k < 4; k++ {
				c16chained(c, a, cuts, k%2 == 1, k/2)
			}
			c16compiled(c, a, cuts)
		}
	}
	c16branches(c)
	c16inner(c)
	c16long(c)
	c16again(c)
}

// c16long: long chains of models, of one or two layers each.
func c16long(c *C) {
	acts := []string{"tanh", "sin", "linear", "sigmoid"}
	for _, total := range []int{7, 8, 9, 12, 17, 33} {
		ls := []LSpec{in(2)}
		for i := 1; i < total; i++ {
			ls = append(ls, dense(uint(2+i%2), acts[i%4]))
		}
		a := chain(fmt.Sprintf("%d layers", total), ls...)
		for every := 1; every <= 3; every++ {
			var cuts []int
			for i := every; i < total; i += every {
				cuts = append(cuts, i)
			}
			for k := 0; k < 4; k++ {
				if c.Out() || !c.Mine() {
					continue
				}
				k, every := k, every
				c.Do(func() string {
					return fmt.Sprintf("%v cut at %v (inputs %v, mode %d)", a, cuts, k%2 == 1, k/2)
				}, func() {
					n, parts := cutUp[f64](a, cuts, k%2 == 1, k/2)
					if every == 2 {
						// connected to something else before
						for j := 1; j < len(parts); j += 1 + k%2 {
							parts[j].Connect(layer.NewInput[f64](n.ref.nodes[cuts[j-1]-1].shape...))
						}
					}
					m, err := model.FromModels[f64](parts...)
					noErr("FromModels", err)
					n.m, n.parts = m, parts
					n.setParams(1)
					n.agree(c, "chained")
					// the last model and one in the middle on their own, then the chain
					for _, j := range []int{len(cuts), len(cuts) / 2} {
						inS := n.ref.inS
						if j > 0 {
							inS = n.ref.nodes[cuts[j-1]-1].shape
						}
						_, err := n.parts[j].Predict(ten[f64](inS, sampleX(inS, 3)))
						noErr("Predict", err)
						n.agree(c, "chained, after a part predicted")
					}
					_, err = n.m.TrainOne(ten[f64](n.ref.inS, sampleX(n.ref.inS, 2)), ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, 2)), 0.125, 0.5)
					noErr("TrainOne", err)
					n.read()
					n.agree(c, "chained, after training")
					c.State("long", total, every, k)
				})
			}
		}
	}
}

// c16again: models that were part of a chain which could not be made are
// chained again, with others.
func c16again(c *C) {
	for _, a := range c16chains() {
		if len(a.nodes) > 5 {
			continue
		}
		for _, cuts := range cutSets(len(a.nodes)) {
			if len(cuts) == 0 {
				continue
			}
			for k := 0; k < 8; k++ {
				for at := 0; at <= len(cuts); at++ {
					if c.Out() || !c.Mine() {
						continue
					}
					k, at, alone := k%4, at, k >= 4
					c.Do(func() string {
						return fmt.Sprintf("%v cut at %v (inputs %v, mode %d): chained with a model that can not be compiled in the place of, or before, model %d, then %s", a, cuts, k%2 == 1, k/2, at, map[bool]string{true: "used alone", false: "without it"}[alone])
					}, func() {
						n, parts := cutUp[f64](a, cuts, true, k/2)
						bad := model.NewModel[f64]()
						if k%2 == 1 {
							bad.Push(layer.NewInput[f64](3))
						}
						bad.Push(layer.NewSubTensor[f64](7, 0, 9))
						tries := append([]*model.Model[f64]{}, parts[:at]...)
						tries = append(append(tries, bad), parts[min(at+k/2, len(parts)):]...)
						if m, err := model.FromModels[f64](tries...); err == nil || m != nil {
							Fail("a chain with a model that can not be compiled is accepted: %v", err)
						}
						if alone {
							// those that come after the bad one, on their own
							bounds := append(append([]int{0}, cuts...), len(a.nodes))
							for j := at; j < len(parts); j++ {
								inS := n.ref.inS
								if j > 0 {
									inS = n.ref.nodes[bounds[j]-1].shape
								}
								x := sampleX(inS, j)
								p, err := parts[j].Predict(ten[f64](inS, x))
								noErr(fmt.Sprintf("prediction of model %d after a refused chain", j), err)
								n.readPart(bounds, j)
								part := n.partRef(bounds, j)
								w := part.forward(x)
								if part.margin < 1e-6 {
									c.Skip()
									continue
								}
								n.cmp(fmt.Sprintf("model %d after a refused chain", j), p.GetData(), w)
								c.Step(1)
							}
							c.State("again", a.name, cuts, k, at, "alone")
							return
						}
						m, err := model.FromModels[f64](parts...)
						if err != nil {
							if at == 0 {
								Fail("FromModels, after a chain that was refused: %v", err)
							}
							c.State("again", a.name, cuts, k, at, "refused")
							return
						}
						n.m, n.parts = m, parts
						n.setParams(1)
						n.agree(c, "chained after a refused chain")
						c.State("again", a.name, cuts, k, at)
					})
				}
			}
		}
	}
}

// c16inner: a model with branches, nested between layers, once or twice, with
// or without an input layer of its own.
func c16inner(c *C) {
	block := func(from int) []LSpec { // 5 layers, the first one is fed by from
		return []LSpec{dense(3, "tanh").from(from), dense(2, "sin").from(from + 1), dense(2, "sigmoid").from(from + 1), cat(from+2, from+3, 0), dense(2, "linear").from(from + 4)}
	}
	img := func(from int) []LSpec {
		return []LSpec{convL(1, 2, 2, 1, 1, "tanh").from(from), convL(2, 1, 2, 1, 1, "sin").from(from + 1), convL(1, 1, 2, 1, 1, "sigmoid").from(from + 1), cat(from+2, from+3, 0), up(2, 3).from(from + 4)}
	}
	type cs struct {
		name  string
		pre   []LSpec
		block func(int) []LSpec
		post  []LSpec
	}
	for _, k := range []cs{
		{"dense", []LSpec{in(2)}, block, []LSpec{dense(1, "linear")}},
		{"dense", []LSpec{in(2), dense(3, "sin")}, block, nil},
		{"dense", []LSpec{indense(3, 2, "sin"), norm()}, block, []LSpec{softmax(), dense(2, "linear")}},
		{"image", []LSpec{in(1, 3, 3)}, img, []LSpec{dense(2, "linear")}},
		{"image", []LSpec{in(2, 4, 4), convL(1, 2, 1, 1, 1, "tanh")}, img, []LSpec{flat()}},
	} {
		for times := 1; times <= 3; times++ {
			if k.name == "image" && times > 2 {
				continue
			}
			a := Arch{k.name, nil}
			add := func(ls []LSpec) {
				for _, l := range ls {
					if l.src == nil && len(a.nodes) > 0 {
						l = l.from(len(a.nodes) - 1)
					}
					a.nodes = append(a.nodes, l)
				}
			}
			add(k.pre)
			var at []int
			for i := 0; i < times; i++ {
				at = append(at, len(a.nodes))
				add(k.block(len(a.nodes) - 1))
			}
			add(k.post)
			for opt := 0; opt < 8; opt++ {
				if c.Out() || !c.Mine() {
					continue
				}
				k, opt, times := k, opt, times
				name := fmt.Sprintf("branched model nested %d times, input layers %v, pushed %v, wrapped again %v", times, opt&1 > 0, opt&2 > 0, opt&4 > 0)
				mk := func() *Net[float64] {
					n := &Net[float64]{arch: a, ref: newRNet(a)}
					outer := model.NewModel[float64]()
					var first, last layer.Layer[float64]
					put := func(l layer.Layer[float64]) {
						if opt&2 > 0 {
							outer.Push(l)
						} else if last != nil {
							l.Connect(last)
						}
						if first == nil {
							first = l
						}
						last = l
					}
					mk := func(j int, src ...layer.Layer[float64]) layer.Layer[float64] {
						l := makeLayer[float64](a.nodes[j], src)
						n.layers = append(n.layers, l)
						return l
					}
					for j := 0; j < len(a.nodes); {
						inner := false
						for _, x := range at {
							inner = inner || x == j
						}
						if !inner {
							put(mk(j))
							j++
							continue
						}
						var entry, head layer.Layer[float64]
						if opt&1 > 0 {
							entry = layer.NewInput[float64](n.ref.nodes[j-1].shape...)
							head = mk(j, entry)
						} else {
							head = mk(j)
							entry = head
						}
						l, r := mk(j+1, head), mk(j+2, head)
						out := mk(j+4, mk(j+3, l, r))
						m, err := model.FromInOut[float64](entry, out)
						noErr("FromInOut", err)
						if opt&4 > 0 {
							m = model.NewModel[float64]().Push(m)
						}
						put(m)
						j += 5
					}
					if opt&2 == 0 {
						m, err := model.FromInOut[float64](first, last)
						noErr("FromInOut", err)
						outer = m
					}
					n.m = outer
					return n
				}
				_ = k
				c16one[float64](c, a, name, mk)
			}
		}
	}
}

func c16one[T types.Number](c *C, a Arch, name string, mk func() *Net[T]) {
	c.Do(func() string { return fmt.Sprintf("%s %v put together as %s", typeName[T](), a, name) }, func() {
		n := mk()
		noErr("Compile", n.m.Compile())
		n.setParams(1)
		n.agree(c, "first")
		// with other parameters
		n.setParams(2)
		n.agree(c, "with other parameters")
		quarter := 0.25
		// after training
		if _, err := n.m.TrainOne(ten[T](n.ref.inS, sampleX(n.ref.inS, 1)), ten[T](n.ref.last().shape, sampleY(n.ref.last().shape, 1)), T(quarter), 0); err != nil {
			Fail("TrainOne: %v", err)
		}
		n.read()
		n.agree(c, "after training")
		// without compiling: the model's own random parameters
		n = mk()
		x := toF(toT[T](sampleX(n.ref.inS, 0)))
		p, err := n.m.Predict(ten[T](n.ref.inS, x))
		noErr("Predict", err)
		n.read()
		if w := n.ref.forward(x); n.ok(w) {
			n.cmpOut("own parameters", p, w)
		}
		c.State(a.name, name)
	})
	c.Sample("%s as %s", a, name)
}

func (n *Net[T]) agree(c *C, what string) {
	for k := 0; k < 3; k++ {
		x := toF(toT[T](sampleX(n.ref.inS, k)))
		w := n.ref.forward(x)
		p, err := n.m.Predict(ten[T](n.ref.inS, x))
		noErr("Predict", err)
		if !n.ok(w) {
			c.Skip()
			continue
		}
		n.cmpOut(fmt.Sprintf("%s: prediction of %v", what, x), p, w)
		c.Step(1)
	}
}

func c16chained(c *C, a Arch, cuts []int, inputs bool, mode int) {
	np := len(cuts) + 1
	depth := 3
	if np > 4 {
		depth = 2
	}
	bounds := append(append([]int{0}, cuts...), len(a.nodes))
	seqs(np+4, depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append([]int{}, s...)
		c.Do(func() string {
			return fmt.Sprintf("%v cut at %v (inputs %v, mode %d): calls %v (0, 1: chain predicts sample; 2+i: part i predicts; %d: chain trains; %d: parameters set)", a, cuts, inputs, mode, h, np+2, np+3)
		}, func() {
			n := chained[f64](a, cuts, inputs, mode)
			n.setParams(1)
			for i, op := range h {
				if op < 2 {
					x := sampleX(n.ref.inS, op)
					w := n.ref.forward(x)
					p, err := n.m.Predict(ten[f64](n.ref.inS, x))
					noErr("Predict", err)
					if n.ok(w) {
						n.cmpOut(fmt.Sprintf("call %d: chain", i), p, w)
					}
					c.Step(1)
					continue
				}
				if op == np+2 {
					_, err := n.m.TrainOne(ten[f64](n.ref.inS, sampleX(n.ref.inS, 2)), ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, 2)), 0.125, 0.5)
					noErr("TrainOne", err)
					n.read()
					continue
				}
				if op == np+3 {
					n.setParams(2 + i)
					continue
				}
				// part op-2: the layers bounds[j]..bounds[j+1]-1
				j := op - 2
				lo := bounds[j]
				inS := n.ref.inS
				if j > 0 {
					inS = n.ref.nodes[lo-1].shape
				}
				x := sampleX(inS, 2+i)
				p, err := n.parts[j].Predict(ten[f64](inS, x))
				noErr("Predict", err)
				part := n.partRef(bounds, j)
				w := part.forward(x)
				if part.margin < 1e-6 {
					c.Skip()
					continue
				}
				if !sameShape(p.GetShape(), part.last().shape) {
					Fail("call %d: part %d: shape %v instead of %v", i, j, p.GetShape(), part.last().shape)
				}
				n.cmp(fmt.Sprintf("call %d: part %d", i, j), p.GetData(), w)
				c.Step(1)
			}
			c.State(a.name, cuts, inputs, mode, h)
		})
	})
}

// readPart takes the parameters of model j.
func (n *Net[T]) readPart(bounds []int, j int) {
	for k := bounds[j]; k < bounds[j+1]; k++ {
		nd := n.ref.nodes[k]
		if nd.wS == nil {
			continue
		}
		W, B := field(n.layers[k], "Weights"), field(n.layers[k], "Bias")
		if W == nil || B == nil {
			Fail("layer %d has no parameters after a prediction", k)
		}
		copy(nd.W, toF(W.GetData()))
		copy(nd.B, toF(B.GetData()))
	}
}

// partRef is the reference of model j on its own.
func (n *Net[T]) partRef(bounds []int, j int) *RNet {
	lo, hi := bounds[j], bounds[j+1]
	var specs []LSpec
	off := 0
	if j > 0 {
		specs = append(specs, in(n.ref.nodes[lo-1].shape...))
		off = 1
	}
	specs = append(specs, append([]LSpec{}, n.arch.nodes[lo:hi]...)...)
	part := newRNet(chain("part", specs...))
	for k := lo; k < hi; k++ {
		copy(part.nodes[k-lo+off].W, n.ref.nodes[k].W)
		copy(part.nodes[k-lo+off].B, n.ref.nodes[k].B)
	}
	return part
}

// c16compiled: some of the models were compiled (and used) before they are
// chained. Either FromModels refuses or the chain computes the composition.
func c16compiled(c *C, a Arch, cuts []int) {
	np := len(cuts) + 1
	for mask := 1; mask < 1<<np; mask++ {
		for k := 0; k < 6; k++ {
			if c.Out() || !c.Mine() {
				continue
			}
			mask, mode, use := mask, k%2, k/2
			c.Do(func() string {
				return fmt.Sprintf("%v cut at %v (mode %d), the models with a bit in %b are compiled%s, then all are chained", a, cuts, mode, mask, []string{"", " and have predicted", " and were trained"}[use])
			}, func() {
				n, parts := cutUp[f64](a, cuts, true, mode)
				lo := 0
				for i, m := range parts {
					if mask>>i&1 == 1 {
						inS, outS := n.ref.inS, n.ref.last().shape
						if i > 0 {
							inS = n.ref.nodes[lo-1].shape
						}
						if i < np-1 {
							outS = n.ref.nodes[cuts[i]-1].shape
						}
						noErr("Compile", m.Compile())
						if use > 0 {
							_, err := m.Predict(ten[f64](inS, sampleX(inS, 1)))
							noErr("Predict", err)
						}
						if use > 1 {
							_, err := m.TrainOne(ten[f64](inS, sampleX(inS, 1)), ten[f64](outS, sampleY(outS, 1)), 0.125, 0.5)
							noErr("TrainOne", err)
						}
					}
					if i < np-1 {
						lo = cuts[i]
					}
				}
				m, err := model.FromModels[f64](parts...)
				if err != nil {
					if mask == 1 {
						Fail("FromModels refuses a first model that is compiled: %v", err)
					}
					c.State(a.name, cuts, mode, mask, use, "refused")
					return
				}
				n.m, n.parts = m, parts
				noErr("Compile", m.Compile())
				n.setParams(1)
				n.agree(c, "chained after compiling")
				_, err = m.TrainOne(ten[f64](n.ref.inS, sampleX(n.ref.inS, 2)), ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, 2)), 0.125, 0.5)
				noErr("TrainOne", err)
				n.read()
				n.agree(c, "chained after compiling, after training")
				c.State(a.name, cuts, mode, mask, use, "accepted")
			})
		}
	}
}

// c16branches: models as the operands of a concatenation.
func c16branches(c *C) {
	a := Arch{"branches", []LSpec{in(3), dense(2, "tanh").from(0), dense(2, "linear").from(1), dense(2, "sin").from(0), cat(2, 3, 0), dense(2, "linear").from(4)}}
	for wrap := 0; wrap < 32; wrap++ {
		if c.Out() || !c.Mine() {
			continue
		}
		wrap := wrap
		c16one[float64](c, a, fmt.Sprintf("branches wrapped %05b", wrap), func() *Net[float64] {
			n := &Net[float64]{arch: a, ref: newRNet(a)}
			mk := func(k int, src ...layer.Layer[float64]) layer.Layer[float64] {
				l := makeLayer[float64](a.nodes[k], src)
				n.layers = append(n.layers, l)
				return l
			}
			model2 := func(first, last layer.Layer[float64], bit int) layer.Layer[float64] {
				if wrap>>bit&1 == 0 {
					return last
				}
				m, err := model.FromInOut[float64](first, last)
				noErr("FromInOut", err)
				return m
			}
			i := mk(0)
			l1 := mk(1, model2(i, i, 0))
			l2 := mk(2, model2(l1, l1, 1))
			l3 := mk(3, i)
			cc := mk(4, model2(i, l2, 2), model2(i, l3, 3))
			l5 := mk(5, model2(i, cc, 4))
			m, err := model.FromInOut[float64](i, l5)
			noErr("FromInOut", err)
			n.m = m
			return n
		})
	}
}
