package main

import (
	"bytes"
	"fmt"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C09", &Check{
		Run:   runC09,
		Level: "model_checking",
		Rule: "every operation with a shape rule on every (pair of) shape(s) of rank 0 to 3 (thorough: 4) with dimensions 1 to 3, every dimension argument from 0 to rank+1 and every range up to length+2, eager and graph form, plain and derived operands; every layer on every input shape of rank 0 to 4 and every configuration up to the bound; loaders with every length; models with every wrong input, target and list length; all chains of up to 3 valid and impossible models. " +
			"The real code must answer with an error exactly when the rule of the reference model is not met, must not crash and must leave the operands unchanged. state = (operation, arguments), transition = one call judged",
		Assumptions: []string{"dimensions are at least 1; kernels and filter counts are at least 1"},
	})
}

func runC09(c *C) {
	c09binary[float64](c, 3, 3)
	c09args[float64](c)
	c09binary[int](c, 2, 3)
	c09args[int](c)
	c09binary[float32](c, 2, 2)
	c09nested[float64](c)
	c09layers(c)
	c09models(c)
	c09chain(c)
	c09unconnected(c)
	if c.Thorough {
		c09binary[float64](c, 4, 3)
		c09binary[int16](c, 3, 3)
		c09binary[int32](c, 3, 3)
		c09binary[int64](c, 3, 3)
		c09args[int16](c)
	}
	for _, n := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {1, 2}, {3, 3}, {4, 3}} {
		c.Do(func() string { return fmt.Sprintf("Distant of lengths %v", n) }, func() {
			_, err := tools.Distant(make([]float64, n[0]), make([]float64, n[1]))
			judge(c, "Distant", n[0] == n[1], err)
		})
	}
}

// judge compares the answer of the real code with the rule.
func judge(c *C, what string, valid bool, err error) {
	c.Step(1)
	if valid && err != nil {
		Fail("%s: rejected although the rule is met: %v", what, err)
	}
	if !valid && err == nil {
		Fail("%s: accepted although the rule is not met", what)
	}
}

func judgeEager[T types.Number](c *C, what string, valid bool, m *tensor.TensorMat[T], err error) {
	judge(c, what+" (eager)", valid, err)
	if err != nil && m != nil {
		Fail("%s: an error together with a result", what)
	}
	if err == nil && m == nil {
		Fail("%s: neither an error nor a result", what)
	}
}

// judgeGraph builds the graph of an expression, twice when it is rejected.
func judgeGraph[T types.Number](c *C, what string, valid bool, x tensor.Tensor[T]) {
	g, err := graph.NewGraph(x)
	judge(c, what+" (graph)", valid, err)
	if err != nil {
		if g != nil {
			Fail("%s: an error together with a graph", what)
		}
		_, err := graph.NewGraph(x)
		if err == nil {
			c.Violation("rebuild-rejected", "%s: building the rejected expression a second time is accepted", what)
		}
		return
	}
	g.Exec()
}

// derived wraps a tensor into an expression of the same value.
func derived[T types.Number](t tensor.Tensor[T]) tensor.Tensor[T] {
	return tensor.AddScalar(t, &number.Scalar[T]{})
}

func c09binary[T types.Number](c *C, rank int, hi uint) {
	all := shapes(0, rank, 1, hi)
	for _, s1 := range all {
		if !c.Mine() {
			continue
		}
		for _, s2 := range all {
			s1, s2 := s1, s2
			c09pair[T](c, s1, s2)
		}
	}
	// shapes that differ by a multiple of what a byte or two hold
	for _, p := range [][2][]uint{{{2}, {258}}, {{2, 3}, {258, 3}}, {{2, 3}, {2, 259}}, {{1}, {257}}, {{3}, {65539}}, {{1, 2}, {65537, 2}}, {{258}, {514}}, {{2, 257}, {2, 1}}} {
		if !c.Mine() {
			continue
		}
		c09pair[T](c, p[0], p[1])
		c09pair[T](c, p[1], p[0])
	}
}

func c09pair[T types.Number](c *C, s1, s2 []uint) {
	{
		{
			a, b := leafA[T](s1, 0), leafB[T](s2, 1)
			c.State(typeName[T](), s1, s2)
			c.Do(func() string { return fmt.Sprintf("%s, shapes %v and %v", typeName[T](), s1, s2) }, func() {
				type X = tensor.Tensor[T]
				type M = *tensor.TensorMat[T]
				try := func(name string, valid bool, eager func(a, b M) (M, error), g func(a, b X) X) {
					ma, mb := a.mat(), b.mat()
					if eager != nil {
						m, err := eager(ma, mb)
						judgeEager(c, name, valid, m, err)
						want(name+": first operand", ma, a)
						want(name+": second operand", mb, b)
					}
					judgeGraph(c, name, valid, g(ma, mb))
					want(name+": first operand", ma, a)
					if name != "CopyTo" {
						want(name+": second operand", mb, b)
					}
					judgeGraph(c, name+" of expressions", valid, g(derived[T](ma), derived[T](mb)))
					want(name+": first operand", ma, a)
				}
				for _, op := range binOps[T]() {
					try(op.name, sameShape(s1, s2), op.eager, op.graph)
				}
				try("CopyTo", size(s1) == size(s2), nil, func(a, b X) X { return tensor.CopyTo(a, b) })
				for d := 0; d <= max(len(s1), len(s2))+1; d++ {
					d := d
					try(fmt.Sprintf("Concat %d", d), concatOK(s1, s2, d),
						func(a, b M) (M, error) { return a.Concat(b, uint(d)) },
						func(a, b X) X { return tensor.Concat(a, b, uint(d)) })
				}
				for d1 := 0; d1 <= len(s1)+1; d1++ {
					for d2 := 0; d2 <= len(s2)+1; d2++ {
						d1, d2 := d1, d2
						ok := d1 < len(s1) && d2 < len(s2) && s1[d1] == s2[d2]
						try(fmt.Sprintf("DotAt %d %d", d1, d2), ok,
							func(a, b M) (M, error) { return a.DotAt(b, uint(d1), uint(d2)) },
							func(a, b X) X { return tensor.DotAt(a, b, uint(d1), uint(d2)) })
					}
				}
				ok := len(s1) > 0 && len(s2) > 0
				if ok {
					da, db := a.defaultDims(b)
					ok = s1[da] == s2[db]
				}
				try("Dot", ok,
					func(a, b M) (M, error) { return a.Dot(b) },
					func(a, b X) X { return tensor.Dot(a, b) })
				// loading from a tensor
				ma, mb := a.mat(), b.mat()
				err := ma.LoadFromTensor(mb)
				judge(c, "LoadFromTensor", sameShape(s1, s2), err)
				want("LoadFromTensor: source", mb, b)
				if err != nil {
					want("rejected LoadFromTensor: target", ma, a)
				}
				ctx := &context.Context{}
				ma, mb = a.mat(), b.mat()
				judge(c, "Transfer", size(s1) == size(s2), tensor.Transfer[T](ctx, ma, mb))
			})
		}
	}
}

func c09args[T types.Number](c *C) {
	for _, s := range append(shapes(0, 3, 1, 3), []uint{2, 1, 3, 2}, []uint{5, 4}) {
		if !c.Mine() {
			continue
		}
		s := s
		a := leafA[T](s, 0)
		c.State("args", typeName[T](), s)
		c.Do(func() string { return fmt.Sprintf("%s, shape %v", typeName[T](), s) }, func() {
			type X = tensor.Tensor[T]
			m := a.mat()
			var fresh func() X
			both := func(name string, valid bool, e *tensor.TensorMat[T], err error, g func(x X) X) {
				judgeEager(c, name, valid, e, err)
				want(name+": operand", m, a)
				fresh = func() X { return a.mat() }
				judgeGraph(c, name, valid, g(fresh()))
				judgeGraph(c, name+" of an expression", valid, g(derived(fresh())))
				want(name+": operand", m, a)
			}
			for _, big := range []uint{0, 1, 2, 3, 4, 5, 6, 1 << 31, 1<<32 - 1, 1 << 63, 1<<64 - 1} {
				d := big
				ok := d < uint(len(s))
				for _, op := range redOps[T]() {
					op := op
					e, err := op.deager(m, d)
					both(fmt.Sprintf("D%s %d", op.name, d), ok, e, err, func(x X) X { return op.dgraph(x, d) })
				}
				limit := uint(3)
				if ok {
					limit = s[d]
				}
				for f := uint(0); f <= limit+2; f++ {
					for t := uint(0); t <= limit+2; t++ {
						f, t := f, t
						e, err := m.SubTensor(d, f, t)
						both(fmt.Sprintf("SubTensor %d %d %d", d, f, t), ok && f < t && t <= limit, e, err,
							func(x X) X { return tensor.SubTensor(x, d, f, t) })
						e, err = m.FOSubTensor(d, f, t, 3)
						both(fmt.Sprintf("extended SubTensor %d %d %d", d, f, t), ok && f < t, e, err,
							func(x X) X { return tensor.SubExtendedTensor(x, d, f, t) })
					}
				}
				if ok {
					for _, r := range [][2]uint{{1<<64 - 1, 1<<64 - 1}, {1<<64 - 1, 1}, {0, 1<<64 - 1}, {1 << 63, 1}, {1, 1 << 63}} {
						r := r
						e, err := m.SubTensor(d, r[0], r[1])
						both(fmt.Sprintf("SubTensor %d %d %d", d, r[0], r[1]), false, e, err,
							func(x X) X { return tensor.SubTensor(x, d, r[0], r[1]) })
					}
				}
			}
			var lens []int
			for n := 0; n <= size(s)+3; n++ {
				lens = append(lens, n)
			}
			for _, n := range append(lens, size(s)+256, size(s)+65536) {
				err := m.LoadData(make([]T, n))
				judge(c, fmt.Sprintf("LoadData of %d values", n), n == size(s), err)
				if err != nil {
					want("rejected LoadData", m, a)
				} else {
					noErr("LoadData", m.LoadData(a.D))
				}
			}
		})
	}
}

// c09nested: an invalid part anywhere inside of an expression is reported.
func c09nested[T types.Number](c *C) {
	type X = tensor.Tensor[T]
	ops := exprOps[T]()
	s := []uint{2, 3}
	a, b := leafA[T](s, 0), leafB[T]([]uint{4}, 1)
	bad := map[string]func() X{
		"Add":       func() X { return tensor.Add[T](a.mat(), b.mat()) },
		"Concat":    func() X { return tensor.Concat[T](a.mat(), b.mat(), 0) },
		"SubTensor": func() X { return tensor.SubTensor[T](a.mat(), 0, 1, 3) },
		"Dot":       func() X { return tensor.Dot[T](a.mat(), b.mat()) },
		"DSum":      func() X { return tensor.DSum[T](a.mat(), 2) },
	}
	for name, f := range bad {
		for i := range ops {
			if !c.Mine() {
				continue
			}
			name, f, op := name, f, ops[i]
			for side := 0; side < op.arity; side++ {
				for depth := 0; depth < 2; depth++ {
					side, depth := side, depth
					c.Do(func() string {
						return fmt.Sprintf("invalid %s below %s (operand %d, depth %d)", name, op.name, side, depth)
					}, func() {
						args := make([]X, op.arity)
						for j := range args {
							args[j] = a.mat()
						}
						args[side] = f()
						x := op.graph(args)
						if depth == 1 {
							x = tensor.Neg[T](x)
						}
						_, err := graph.NewGraph(x)
						judge(c, "NewGraph", false, err)
						ctx := &context.Context{}
						judge(c, "Transfer", false, tensor.Transfer[T](ctx, f(), a.mat()))
						ctx = &context.Context{}
						judge(c, "Fill", false, tensor.Fill[T](ctx, f(), &number.Scalar[T]{}))
						c.State("nested", name, op.name, side, depth)
					})
				}
			}
		}
	}
}

// ---- layers and models

type f64 = float64

var lin = activation.Linear[f64]{}

// tryModel compiles and uses a model that must or must not be acceptable.
func tryModel(c *C, valid bool, in []uint, mk func() *model.Model[f64]) {
	m := mk()
	judge(c, "Compile", valid, m.Compile())
	x := leafA[f64](in, 0)
	p, err := mk().Predict(x.mat())
	judge(c, "Predict", valid, err)
	if !valid && p != nil {
		Fail("Predict: an error together with a result")
	}
	judge(c, "CompileBackPropagation", valid, mk().CompileBackPropagation())
	if valid {
		p2, err := m.Predict(x.mat())
		noErr("Predict", err)
		t := leafB[f64](p2.GetShape(), 0)
		_, err = m.TrainOne(x.mat(), t.mat(), 0.1, 0)
		judge(c, "TrainOne", true, err)
		return
	}
	t := leafB[f64]([]uint{1}, 0)
	_, err = mk().TrainOne(x.mat(), t.mat(), 0.1, 0)
	judge(c, "TrainOne", false, err)
	err = mk().Train([]tensor.Tensor[f64]{x.mat()}, []tensor.Tensor[f64]{t.mat()}, 1, 1, 0.1, 0)
	judge(c, "Train", false, err)
	// after a rejection the model goes on answering with an error
	for i := 0; i < 2; i++ {
		judge(c, "Compile again", false, m.Compile())
		_, err = m.Predict(x.mat())
		judge(c, "Predict after a rejection", false, err)
		_, err = m.TrainOne(x.mat(), t.mat(), 0.1, 0)
		judge(c, "TrainOne after a rejection", false, err)
		judge(c, "CompileBackPropagation after a rejection", false, m.CompileBackPropagation())
		judge(c, "ResetIS after a rejection", false, m.ResetIS())
		judge(c, "Save after a rejection", false, m.Save(&bytes.Buffer{}))
		judge(c, "Load after a rejection", false, m.Load(&bytes.Buffer{}))
		_ = m.String()
	}
}

func c09layers(c *C) {
	ins := append(shapes(0, 2, 1, 3), shapes(3, 3, 1, 4)...)
	ins = append(ins, []uint{1, 2, 2, 2}, []uint{2, 1, 3, 1})
	try := func(name string, in []uint, valid bool, l func() layer.Layer[f64]) {
		if c.Out() || !c.Mine() {
			return
		}
		c.State(name, in)
		c.Do(func() string { return fmt.Sprintf("layer %s on an input of shape %v", name, in) }, func() {
			tryModel(c, valid, in, func() *model.Model[f64] {
				return model.NewModel[f64]().Push(layer.NewInput[f64](in...)).Push(l())
			})
		})
	}
	for _, in := range ins {
		in := in
		r3 := len(in) == 3
		for _, k := range shapes(2, 2, 1, 5) {
			for _, s := range shapes(2, 2, 0, 2) {
				k, s := k, s
				if (k[0] > 3 || k[1] > 3) && s[0]+s[1] != 2 && s[0]+s[1] != 0 {
					continue
				}
				if !r3 && (k[0] > 2 || k[1] > 2) {
					continue
				}
				ok := r3 && s[0] > 0 && s[1] > 0 && k[0] <= in[1] && k[1] <= in[2]
				name := fmt.Sprintf("Conv2Dwh kernel %v stride %v", k, s)
				try(name, in, ok, func() layer.Layer[f64] { return layer.NewConv2Dwh[f64](1, k[0], k[1], s[0], s[1], lin) })
				if k[0] == k[1] && s[0] == s[1] {
					try("square "+name, in, ok, func() layer.Layer[f64] { return layer.NewConv2D[f64](2, k[0], s[0], lin) })
				}
				if k[0] <= 2 && k[1] <= 2 && s[0] > 0 && s[1] > 0 && size(in) <= 12 {
					try(fmt.Sprintf("Deconv2Dwh kernel %v stride %v", k, s), in, r3,
						func() layer.Layer[f64] { return layer.NewDeconv2Dwh[f64](1, k[0], k[1], s[0], s[1], lin) })
				}
			}
		}
		for _, s := range shapes(2, 2, 0, 5) {
			s := s
			ok := r3 && s[0] > 0 && s[1] > 0
			try(fmt.Sprintf("MaxPool2Dxy %v", s), in, ok, func() layer.Layer[f64] { return layer.NewMaxPool2Dxy[f64](s[0], s[1]) })
			if s[0] == s[1] {
				try(fmt.Sprintf("MaxPool2D %v", s), in, ok, func() layer.Layer[f64] { return layer.NewMaxPool2D[f64](s[0]) })
			}
			if s[0] > 0 && s[1] > 0 && s[0] < 4 && s[1] < 4 {
				try(fmt.Sprintf("UpSampling2Dxy %v", s), in, r3, func() layer.Layer[f64] { return layer.NewUpSampling2Dxy[f64](s[0], s[1]) })
			}
		}
		for d := uint(0); d <= uint(len(in))+1; d++ {
			limit := uint(3)
			if d < uint(len(in)) {
				limit = in[d]
			}
			for f := uint(0); f <= limit+1; f++ {
				for t := uint(0); t <= limit+1; t++ {
					d, f, t := d, f, t
					try(fmt.Sprintf("SubTensor %d %d %d", d, f, t), in, d < uint(len(in)) && f < t && t <= limit,
						func() layer.Layer[f64] { return layer.NewSubTensor[f64](d, f, t) })
				}
			}
		}
		for _, n := range []uint{1, 3} {
			n := n
			try(fmt.Sprintf("Dense %d", n), in, true, func() layer.Layer[f64] { return layer.NewDense[f64](n, lin) })
		}
		try("Flatten", in, true, func() layer.Layer[f64] { return layer.NewFlatten[f64]() })
		try("Norm", in, true, func() layer.Layer[f64] { return layer.NewNorm[f64]() })
		try("ENorm", in, true, func() layer.Layer[f64] { return layer.NewENorm[f64]() })
		if size(in) > 1 {
			try("SoftMax", in, true, func() layer.Layer[f64] { return layer.NewSoftMax[f64]() })
		}
		// concatenation of two ranges of the input
		if len(in) >= 1 && len(in) <= 3 {
			type rng struct{ d, f, t uint }
			var rs []rng
			for d := uint(0); d < uint(len(in)); d++ {
				rs = append(rs, rng{d, 0, in[d]})
				if in[d] > 1 {
					rs = append(rs, rng{d, 1, in[d]})
				}
			}
			for _, r1 := range rs {
				for _, r2 := range rs {
					for d := 0; d <= len(in)+1; d++ {
						if c.Out() || !c.Mine() {
							continue
						}
						r1, r2, d := r1, r2, d
						s1 := append([]uint{}, in...)
						s1[r1.d] = r1.t - r1.f
						s2 := append([]uint{}, in...)
						s2[r2.d] = r2.t - r2.f
						c.State("concat", in, r1, r2, d)
						c.Do(func() string {
							return fmt.Sprintf("layer Concat along %d of shapes %v and %v", d, s1, s2)
						}, func() {
							tryModel(c, concatOK(s1, s2, d), in, func() *model.Model[f64] {
								i := layer.NewInput[f64](in...)
								a := layer.NewSubTensor[f64](r1.d, r1.f, r1.t)
								a.Connect(i)
								b := layer.NewSubTensor[f64](r2.d, r2.f, r2.t)
								b.Connect(i)
								m, err := model.FromInOut[f64](i, layer.NewConcat[f64](a, b, uint(d)))
								noErr("FromInOut", err)
								return m
							})
						})
					}
				}
			}
		}
	}
}

// c09models: wrong inputs, targets and data sets are rejected and change nothing.
func c09models(c *C) {
	type arch struct {
		name string
		in   []uint
		mk   func() *model.Model[f64]
	}
	archs := []arch{
		{"dense", []uint{3}, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewInDense[f64](3, 2, lin)).Push(layer.NewDense[f64](2, lin))
		}},
		{"conv", []uint{1, 3, 2}, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewInput[f64](1, 3, 2)).Push(layer.NewConv2D[f64](2, 2, 1, lin))
		}},
		{"input", []uint{2, 2}, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewInput[f64](2, 2)).Push(layer.NewDense[f64](4, lin))
		}},
	}
	var all [][]uint
	all = append(all, shapes(0, 2, 1, 4)...)
	all = append(all, shapes(3, 3, 1, 3)...)
	all = append(all, []uint{6}, []uint{1, 1, 3, 2}, []uint{2, 2, 1, 1})
	for _, a := range archs {
		for _, s := range all {
			if c.Out() || !c.Mine() {
				continue
			}
			a, s := a, s
			c.State("model", a.name, s)
			c.Do(func() string { return fmt.Sprintf("model %s with tensors of shape %v", a.name, s) }, func() {
				m := a.mk()
				good := leafA[f64](a.in, 0)
				p, err := m.Predict(good.mat())
				noErr("Predict", err)
				out := RT[f64]{p.GetShape(), p.GetData()}
				tgt := leafB[f64](out.S, 3)
				x := leafA[f64](s, 1)
				intact := func(what string) {
					q, err := m.Predict(good.mat())
					noErr("Predict", err)
					want(what+": prediction of the untrained model", q, out)
				}
				q, err := m.Predict(x.mat())
				judge(c, "Predict", sameShape(s, a.in), err)
				if err != nil && q != nil {
					Fail("Predict: an error together with a result")
				}
				if !sameShape(s, a.in) {
					intact("after a rejected Predict")
					_, err = m.TrainOne(x.mat(), tgt.mat(), 0.5, 0.5)
					judge(c, "TrainOne with that input", false, err)
					intact("after a rejected TrainOne")
					err = m.Train([]tensor.Tensor[f64]{x.mat()}, []tensor.Tensor[f64]{tgt.mat()}, 2, 2, 0.5, 0.5)
					judge(c, "Train with that input", false, err)
					intact("after a rejected Train")
				}
				if !sameShape(s, out.S) {
					_, err = m.TrainOne(good.mat(), x.mat(), 0.5, 0.5)
					judge(c, "TrainOne with that target", false, err)
					intact("after a rejected TrainOne")
					err = m.Train([]tensor.Tensor[f64]{good.mat()}, []tensor.Tensor[f64]{x.mat()}, 2, 2, 0.5, 0.5)
					judge(c, "Train with that target", false, err)
					intact("after a rejected Train")
				}
				for _, ni := range []int{0, 1, 2, 3, 257} {
					for _, nt := range []int{0, 1, 2, 3, 257} {
						if ni == nt {
							continue
						}
						err = m.Train(rep(good, ni), rep(tgt, nt), 1, 0, 0.5, 0)
						judge(c, fmt.Sprintf("Train with %d inputs and %d targets", ni, nt), false, err)
						intact("after a rejected Train")
					}
				}
				_, err = m.TrainOne(good.mat(), tgt.mat(), 0.01, 0)
				judge(c, "TrainOne", true, err)
			})
		}
	}
}

func rep(r RT[f64], n int) []tensor.Tensor[f64] {
	var out []tensor.Tensor[f64]
	for i := 0; i < n; i++ {
		out = append(out, r.mat())
	}
	return out
}

// c09unconnected: layers without a source, models without layers.
func c09unconnected(c *C) {
	if c.shard != 0 {
		return
	}
	first := map[string]func() layer.Layer[f64]{
		"Dense":      func() layer.Layer[f64] { return layer.NewDense[f64](2, lin) },
		"Conv2D":     func() layer.Layer[f64] { return layer.NewConv2D[f64](1, 1, 1, lin) },
		"Deconv2D":   func() layer.Layer[f64] { return layer.NewDeconv2D[f64](1, 1, 1, lin) },
		"MaxPool":    func() layer.Layer[f64] { return layer.NewMaxPool2D[f64](1) },
		"UpSampling": func() layer.Layer[f64] { return layer.NewUpSampling2D[f64](1) },
		"Flatten":    func() layer.Layer[f64] { return layer.NewFlatten[f64]() },
		"Norm":       func() layer.Layer[f64] { return layer.NewNorm[f64]() },
		"ENorm":      func() layer.Layer[f64] { return layer.NewENorm[f64]() },
		"SoftMax":    func() layer.Layer[f64] { return layer.NewSoftMax[f64]() },
		"SubTensor":  func() layer.Layer[f64] { return layer.NewSubTensor[f64](0, 0, 1) },
	}
	for name, f := range first {
		name, f := name, f
		c.State("first", name)
		c.Do(func() string { return "model that begins with an unconnected " + name }, func() {
			tryModel(c, false, []uint{1, 1, 1}, func() *model.Model[f64] { return model.NewModel[f64]().Push(f()) })
			tryModel(c, false, []uint{1, 1, 1}, func() *model.Model[f64] {
				return model.NewModel[f64]().Push(f()).Push(layer.NewDense[f64](1, lin))
			})
			tryModel(c, false, []uint{1, 1, 1}, func() *model.Model[f64] {
				return model.NewModel[f64]().Push(model.NewModel[f64]().Push(f())).Push(layer.NewFlatten[f64]())
			})
		})
	}
	c.Do(func() string { return "models without layers" }, func() {
		m := model.NewModel[f64]()
		for i := 0; i < 2; i++ {
			judge(c, "Compile of an empty model", false, m.Compile())
			judge(c, "CompileBackPropagation of an empty model", false, m.CompileBackPropagation())
			_, err := m.Predict(tensor.NewZeros[f64](1))
			judge(c, "Predict of an empty model", false, err)
			_, err = m.TrainOne(tensor.NewZeros[f64](1), tensor.NewZeros[f64](1), 1, 0)
			judge(c, "TrainOne of an empty model", false, err)
			judge(c, "ResetIS of an empty model", false, m.ResetIS())
			_ = m.String()
		}
		_, err := model.FromModels[f64]()
		judge(c, "FromModels without models", false, err)
	})
}

// c09chain: chaining every sequence of up to three models, among them models
// that have no layers, that cannot follow or begin, or that were compiled.
func c09chain(c *C) {
	type part struct {
		name         string
		first, later bool // acceptable at the beginning, after a vector of two
		mk           func() *model.Model[f64]
	}
	a := func() *model.Model[f64] {
		return model.NewModel[f64]().Push(layer.NewInput[f64](2)).Push(layer.NewDense[f64](2, lin))
	}
	parts := []part{
		{"input, dense", true, true, a},
		{"dense", false, true, func() *model.Model[f64] { return model.NewModel[f64]().Push(layer.NewDense[f64](2, lin)) }},
		{"flatten, dense", false, true, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewFlatten[f64]()).Push(layer.NewDense[f64](2, lin))
		}},
		{"convolution", false, false, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewConv2D[f64](1, 1, 1, lin)).Push(layer.NewDense[f64](2, lin))
		}},
		{"range past the end", false, false, func() *model.Model[f64] {
			return model.NewModel[f64]().Push(layer.NewSubTensor[f64](0, 1, 3))
		}},
		{"no layers", false, false, func() *model.Model[f64] { return model.NewModel[f64]() }},
		{"compiled", true, false, func() *model.Model[f64] {
			m := a()
			noErr("Compile", m.Compile())
			return m
		}},
		{"used", true, false, func() *model.Model[f64] {
			m := a()
			_, err := m.Predict(tensor.NewOnes[f64](2))
			noErr("Predict", err)
			return m
		}},
	}
	for n := 1; n <= 3; n++ {
		seqs(len(parts), n, func(s []int) {
			if c.Out() || !c.Mine() {
				return
			}
			valid, name := true, ""
			for i, k := range s {
				name += parts[k].name + "; "
				if i == 0 && !parts[k].first || i > 0 && !parts[k].later {
					valid = false
				}
			}
			h := append([]int{}, s...)
			c.State("chain", name)
			c.Do(func() string { return "models chained by FromModels: " + name }, func() {
				var ms []*model.Model[f64]
				for _, k := range h {
					ms = append(ms, parts[k].mk())
				}
				m, err := model.FromModels(ms...)
				judge(c, "FromModels", valid, err)
				if err != nil {
					if m != nil {
						Fail("FromModels: an error together with a model")
					}
					return
				}
				p, err := m.Predict(tensor.NewOnes[f64](2))
				judge(c, "Predict", true, err)
				if !sameShape(p.GetShape(), []uint{2}) {
					Fail("the prediction has shape %v", p.GetShape())
				}
			})
		})
	}
}
