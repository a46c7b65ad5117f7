package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C13", &Check{
		Run:   runC13,
		Level: "model_checking",
		Rule: "every layer type with every configuration up to the bound (convolution and transposed convolution: channels 1-2, filters 1-2, kernels and strides 1-3 separately for width and height, inputs up to 5; pooling and up-sampling blocks 1-4; every sub-range and concatenation dimension of small shapes; every activation) compiled, given known parameters and compared on several generic inputs, in float64 and float32, with the layer's definition in the reference network; and every architecture of the alphabet, layer by layer. Also on every network of up to 4 layers (9048: dense, normalisation, flatten, sub-range, soft-max, concatenation of any two earlier layers) and every chain of up to 3 image layers (2868 over 15 layers): every output. And pooling, normalisation and soft-max with the extreme element in every position (up to 306 elements). " +
			"state = (layer configuration, input), transition = one prediction compared element by element",
		Assumptions: []string{"rounding tolerance 1e-8 (float64), 3e-4 (float32)", "normalisation of an all-zero input and soft-max of a constant input are recorded findings"},
	})
}

var allActs = []string{"linear", "sigmoid", "tanh", "sin", "swish", "gelu", "relu:0", "relu:0.1", "relu:-0.5", "elu:1", "elu:0.5", "elu:-0.25", "selu:1.67326:1.0507", "selu:0.5:2"}

func runC13(c *C) {
	for _, a := range singleLayers(c.Thorough) {
		if c.Out() || !c.Mine() {
			continue
		}
		c13one[float64](c, a)
		c13one[float32](c, a)
	}
	all := append(archAll(), archLarge()...)
	all = append(append(append(all, archDags(4)...), archNested()...), archImages(3)...)
	if c.Thorough {
		all = append(all, archImages(4)...)
	}
	for _, a := range all {
		if c.Out() || !c.Mine() {
			continue
		}
		c13one[float64](c, a)
		c13one[float32](c, a)
	}
	c13peaks(c)
	if c.shard == 0 {
		c13degenerate(c)
	}
}

func singleLayers(thorough bool) []Arch {
	var out []Arch
	add := func(i LSpec, l LSpec) { out = append(out, chain("single", i, l)) }
	hi := uint(4)
	if thorough {
		hi = 5
	}
	n := 0
	acts := func() string { n++; return allActs[n%len(allActs)] }
	for w := uint(1); w <= hi+1; w++ {
		for h := uint(1); h <= hi; h++ {
			for kw := uint(1); kw <= 3 && kw <= w; kw++ {
				for kh := uint(1); kh <= 3 && kh <= h; kh++ {
					for sx := uint(1); sx <= 3; sx++ {
						for sy := uint(1); sy <= 3; sy++ {
							ch, fl := uint(1+(w+h)%2), uint(1+(kw+sy)%2)
							add(in(ch, w, h), convL(fl, kw, kh, sx, sy, acts()))
							if w <= 3 && h <= 3 {
								add(in(ch, w, h), deconvL(fl, kw, kh, sx, sy, acts()))
							}
						}
					}
				}
			}
			// kernels larger than the input exist for transposed convolutions
			if w <= 2 && h <= 2 {
				for kw := uint(1); kw <= 4; kw++ {
					for kh := uint(1); kh <= 4; kh++ {
						add(in(2, w, h), deconvL(2, kw, kh, 2, 1, acts()))
						add(in(1, w, h), deconvL(1, kw, kh, 1, 3, acts()))
					}
				}
			}
			for sx := uint(1); sx <= 6; sx++ {
				for sy := uint(1); sy <= 6; sy++ {
					add(in(1+w%2, w, h), pool(sx, sy))
					if w <= 3 && h <= 3 {
						add(in(1+h%2, w, h), up(sx, sy))
					}
				}
			}
		}
	}
	add(in(3, 3, 3), convL(3, 2, 2, 1, 1, "tanh"))
	add(in(3, 3, 2), deconvL(3, 2, 2, 1, 2, "tanh"))
	add(in(1, 9, 8), convL(1, 3, 3, 2, 2, "linear"))
	add(in(1, 12, 1), convL(1, 5, 1, 4, 1, "linear"))
	for _, act := range allActs {
		out = append(out, chain("single", indense(3, 2, act)))
		add(in(1, 2, 2), convL(1, 2, 1, 1, 1, act))
		add(in(1, 2, 2), deconvL(1, 2, 1, 1, 1, act))
		add(in(4), dense(3, act))
	}
	for i := uint(1); i <= 5; i++ {
		for o := uint(1); o <= 5; o++ {
			out = append(out, chain("single", indense(i, o, acts())))
			add(in(i, 2), dense(o, acts()))
		}
	}
	for ch := uint(1); ch <= 5; ch++ {
		for fl := uint(1); fl <= 5; fl++ {
			add(in(ch, 3, 2), convL(fl, 2, 2, 1, 1, acts()))
			add(in(ch, 4, 3), convL(fl, 2, 1, 2, 1, acts()))
			add(in(ch, 2, 2), deconvL(fl, 2, 1, 1, 2, acts()))
			add(in(ch, 1, 2), deconvL(fl, 2, 3, 2, 1, acts()))
		}
		add(in(ch, 3, 4), pool(2, 3))
		add(in(ch, 2, 1), up(2, 3))
	}
	out = append(out, chain("single", indense(70, 33, "linear")))
	out = append(out, chain("single", in(7, 3, 2), dense(5, "tanh")))
	for _, s := range shapes(1, 3, 1, 3) {
		add(in(s...), flat())
		add(in(s...), norm())
		add(in(s...), enorm())
		if size(s) > 1 {
			add(in(s...), softmax())
		}
		for d := uint(0); d < uint(len(s)); d++ {
			for f := uint(0); f < s[d]; f++ {
				for t := f + 1; t <= s[d]; t++ {
					add(in(s...), sub(d, f, t))
				}
			}
			out = append(out, Arch{"single", []LSpec{in(s...), cat(0, 0, d)}})
			if s[d] > 1 {
				out = append(out, Arch{"single", []LSpec{in(s...), sub(d, 1, s[d]).from(0), cat(0, 1, d)}})
				out = append(out, Arch{"single", []LSpec{in(s...), sub(d, 1, s[d]).from(0), cat(1, 0, d)}})
			}
		}
	}
	out = append(out, chain("single", in(2, 2)))
	return out
}

func c13one[T types.Number](c *C, a Arch) {
	inputs := 4
	if c.Thorough {
		inputs = 8
	}
	c.Do(func() string { return typeName[T]() + " " + a.String() }, func() {
		n := compiled[T](a, 1)
		for k := 0; k < inputs; k++ {
			x := toF(toT[T](sampleX(n.ref.inS, k)))
			if k == 3 { // positive inputs
				for i := range x {
					if x[i] < 0 {
						x[i] = -x[i]
					}
				}
			}
			want := n.ref.forward(x)
			if n.ref.margin < 1e-7 {
				c.Skip()
				continue
			}
			p, err := n.m.Predict(ten[T](n.ref.inS, x))
			noErr("Predict", err)
			n.cmpOut(fmt.Sprintf("prediction of input %d", k), p, want)
			// every layer on the way
			for i, l := range n.layers {
				nd := n.ref.nodes[i]
				o := l.GetOutputs()
				if !sameShape(o.GetShape(), nd.shape) {
					Fail("layer %d: output shape %v instead of %v", i, o.GetShape(), nd.shape)
				}
				n.cmp(fmt.Sprintf("output of layer %d", i), o.GetData(), nd.out)
			}
			c.Step(1)
			c.State(typeName[T](), a.String(), k)
		}
	})
	c.Sample("%s", a)
}

// c13peaks: the layers that look for an extreme element, with that element in
// every position.
func c13peaks(c *C) {
	var all []Arch
	add := func(l LSpec, s ...uint) { all = append(all, chain("peaks", in(s...), l)) }
	for n := uint(2); n <= 70; n++ {
		add(norm(), n)
		add(enorm(), n)
		add(softmax(), n)
		add(pool(n, 1), 1, n, 1)
		add(pool(1, n), 1, 1, n)
	}
	for _, s := range [][]uint{{3, 4, 5}, {7, 9}, {2, 3, 11}, {130}, {270}} {
		add(norm(), s...)
		add(enorm(), s...)
		add(softmax(), s...)
	}
	for sx := uint(1); sx <= 9; sx++ {
		for sy := uint(1); sy <= 9; sy++ {
			add(pool(sx, sy), 1, 7, 9)
			add(pool(sx, sy), 2, 10, 5)
		}
	}
	add(pool(16, 17), 1, 17, 18)
	for _, a := range all {
		if c.Out() || !c.Mine() {
			continue
		}
		a := a
		c.Do(func() string { return "every position of the extreme element: " + a.String() }, func() {
			n := compiled[float64](a, 1)
			for k := range sampleX(n.ref.inS, 0) {
				for _, v := range []float64{20, -20} {
					x := sampleX(n.ref.inS, k%5)
					x[k] = v
					want := n.ref.forward(x)
					if n.ref.margin < 1e-7 {
						c.Skip()
						continue
					}
					p, err := n.m.Predict(ten[float64](n.ref.inS, x))
					noErr("Predict", err)
					n.cmpOut(fmt.Sprintf("prediction with %v in position %d", v, k), p, want)
					c.Step(1)
				}
			}
			c.State("peaks", a.String())
		})
	}
}

// c13degenerate: the inputs on which the code's definition has no value.
func c13degenerate(c *C) {
	for _, l := range []LSpec{norm(), enorm(), softmax()} {
		l := l
		for _, v := range []float64{0, 1} {
			v := v
			if v == 1 && l.kind != "softmax" {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("%s of an input whose elements are all %v", l.kind, v) }, func() {
				n := compiled[float64](chain("single", in(3), l), 1)
				p, err := n.m.Predict(ten[float64]([]uint{3}, []float64{v, v, v}))
				noErr("Predict", err)
				for _, d := range p.GetData() {
					if d != d {
						key := "norm-zero"
						if l.kind == "softmax" {
							key = "softmax-constant"
						}
						FailKey(key, "the output is NaN")
					}
				}
				c.Step(1)
			})
		}
	}
}
