package main

import (
	"bytes"
	"fmt"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C08", &Check{
		Run:   runC08,
		Level: "model_checking",
		Rule: "nine predictions of every architecture whose inputs and results are all kept and written; heap machine: two leaf tensors (several shape pairs and element types), every sequence of eager operation, write, eager operation (thorough: 3 operations) over the whole eager operation alphabet, all operands and every way of writing an element (Set, GetOperand, GetOperands, LoadData, Fill, FillData, LoadFromTensor, Load, LoadFull); " +
			"at the end every tensor is written through every way and at every position; after every transition all tensors are compared with the reference heap. " +
			"Every caller slice given to or obtained from a tensor is changed afterwards. state = (operation sequence, write), transition = one call followed by the comparison of the whole heap",
		Assumptions: []string{"GetOperands and GetOperand hand out the elements themselves by design and are used as ways of writing"},
	})
}

func heapOps[T types.Number]() []Op[T] {
	type R = RT[T]
	type M = *tensor.TensorMat[T]
	ops := exprOps[T]()
	ops = append(ops,
		Op[T]{name: "Copy", arity: 1,
			ref:   func(a []R) (R, bool) { return a[0].clone(), true },
			eager: func(a []M) (M, error) { return a[0].Copy().GetMatrix(), nil }},
		Op[T]{name: "Reshape(same)", arity: 1,
			ref:   func(a []R) (R, bool) { return a[0].clone(), true },
			eager: func(a []M) (M, error) { return a[0].Reshape(a[0].GetShape()...), nil }},
		Op[T]{name: "Activate(identity)", arity: 1,
			ref:   func(a []R) (R, bool) { return a[0].clone(), true },
			eager: func(a []M) (M, error) { return a[0].Activate(func(x T) T { return x }), nil }},
		Op[T]{name: "AddScalar(own element)", arity: 1,
			ref: func(a []R) (R, bool) {
				if len(a[0].D) == 0 {
					return R{}, false
				}
				return a[0].map1(func(x T) T { return x + a[0].D[0] }), true
			},
			eager: func(a []M) (M, error) { return a[0].AddScalar(a[0].GetOperands()[0]), nil }},
		Op[T]{name: "SubTensor(all)", arity: 1,
			ref: func(a []R) (R, bool) { return a[0].clone(), len(a[0].S) > 0 },
			eager: func(a []M) (M, error) {
				return a[0].SubTensor(0, 0, a[0].GetShape()[0])
			}},
		Op[T]{name: "FOSubTensor(all,fill 9)", arity: 1,
			ref: func(a []R) (R, bool) {
				if len(a[0].S) == 0 {
					return R{}, false
				}
				d := len(a[0].S) - 1
				return a[0].sub(d, 0, a[0].S[d]+1, 9), true
			},
			eager: func(a []M) (M, error) {
				s := a[0].GetShape()
				return a[0].FOSubTensor(uint(len(s)-1), 0, s[len(s)-1]+1, 9)
			}},
	)
	return ops
}

// heapWrites are the ways of changing a tensor; v distinguishes writes.
type heapWrite[T types.Number] struct {
	name string
	all  bool // writes all positions at once
	do   func(m *tensor.TensorMat[T], r RT[T], pos int, v T) (RT[T], error)
}

func unpos(s []uint, p int) []uint {
	idx := make([]uint, len(s))
	for i := len(s) - 1; i >= 0; i-- {
		idx[i] = uint(p) % s[i]
		p /= int(s[i])
	}
	return idx
}

func heapWrites[T types.Number]() []heapWrite[T] {
	type M = *tensor.TensorMat[T]
	type R = RT[T]
	one := func(r R, p int, v T) R {
		r = r.clone()
		r.D[p] = v
		return r
	}
	ramp := func(s []uint, v T) R { return mkRT(s, func(i int) T { return v + T(i%3) }) }
	return []heapWrite[T]{
		{"Set", false, func(m M, r R, p int, v T) (R, error) { return one(r, p, v), m.Set(v, unpos(r.S, p)...) }},
		{"GetOperand", false, func(m M, r R, p int, v T) (R, error) {
			o, err := m.GetOperand(unpos(r.S, p)...)
			if err == nil {
				o.Value = v
			}
			return one(r, p, v), err
		}},
		{"GetOperands", false, func(m M, r R, p int, v T) (R, error) {
			m.GetOperands()[p].Value = v
			return one(r, p, v), nil
		}},
		{"LoadData", true, func(m M, r R, p int, v T) (R, error) {
			w := ramp(r.S, v)
			d := append([]T{}, w.D...)
			err := m.LoadData(d)
			for i := range d {
				d[i] = 99
			}
			return w, err
		}},
		{"LoadFromTensor", true, func(m M, r R, p int, v T) (R, error) {
			w := ramp(r.S, v)
			src := w.mat()
			err := m.LoadFromTensor(src)
			src.FillData(98)
			return w, err
		}},
		{"Load", true, func(m M, r R, p int, v T) (R, error) {
			w := ramp(r.S, v)
			var b bytes.Buffer
			if err := w.mat().Save(&b); err != nil {
				return w, err
			}
			return w, m.Load(&b)
		}},
		{"Fill", true, func(m M, r R, p int, v T) (R, error) {
			n := &number.Scalar[T]{Value: v}
			m.Fill(n)
			n.Value = 97
			return r.map1(func(T) T { return v }), nil
		}},
		{"FillData", true, func(m M, r R, p int, v T) (R, error) {
			m.FillData(v)
			return r.map1(func(T) T { return v }), nil
		}},
		{"LoadFull", true, func(m M, r R, p int, v T) (R, error) {
			w := ramp(append([]uint{2}, r.S...), v)
			var b bytes.Buffer
			if err := w.mat().SaveFull(&b); err != nil {
				return w, err
			}
			return w, m.LoadFull(&b)
		}},
	}
}

func runC08(c *C) {
	c08heap[float64](c, []uint{2, 3}, []uint{2, 3}, 2)
	c08heap[float64](c, []uint{2, 2}, []uint{2, 2}, 2)
	c08heap[float32](c, []uint{3}, []uint{3}, 2)
	c08heap[float64](c, []uint{1}, []uint{1}, 2)
	c08heap[int](c, []uint{2, 3}, []uint{3, 2}, 2)
	c08heap[int16](c, []uint{2, 1, 2}, []uint{2, 2}, 2)
	c08heap[float64](c, []uint{}, []uint{1}, 1)
	c08heap[float64](c, []uint{20, 5}, []uint{20, 5}, 1)
	c08heap[float64](c, []uint{300}, []uint{300}, 1)
	c08heap[float32](c, []uint{34, 33}, []uint{34, 33}, 1)
	c08heap[float64](c, []uint{4100}, []uint{4100}, 1)
	c08heap[float64](c, []uint{2, 1, 2, 3}, []uint{2, 1, 2, 3}, 1)
	c08heap[int](c, []uint{2, 2, 1, 2, 2}, []uint{2, 2, 1, 2, 2}, 1)
	c08heap[float64](c, []uint{1, 3}, []uint{3, 1}, 1)
	c08heap[int32](c, []uint{2, 2}, []uint{2, 2}, 1)
	c08heap[int64](c, []uint{2, 2}, []uint{2, 2}, 1)
	if c.Thorough {
		c08heap[float64](c, []uint{2, 3}, []uint{2, 3}, 3)
		c08heap[float64](c, []uint{3}, []uint{3}, 3)
		c08heap[int](c, []uint{2, 2}, []uint{2, 2}, 3)
	}
	c08slices[float64](c)
	c08slices[int](c)
	c08slices[float32](c)
	c08predict(c)
	c08predictions[float64](c)
	c08predictions[float32](c)
}

func c08heap[T types.Number](c *C, s1, s2 []uint, n int) {
	ops := heapOps[T]()
	ws := heapWrites[T]()
	A := []RT[T]{leafA[T](s1, 0), leafA[T](s2, 2)}
	for k := 1; k <= n; k++ {
		heapSeqs(ops, A, k, c, func(nodes []Node, vals []RT[T]) {
			nodes = append([]Node{}, nodes...)
			c.State(typeName[T](), s1, s2, nodes)
			if k == 1 {
				c08one(c, ops, ws, A, nodes, -1, -1)
				return
			}
			if k >= 3 {
				c08one(c, ops, ws, A, nodes, -1, -1)
			}
			// a write after the first operation: any tensor, any way
			for t := 0; t < len(A)+1; t++ {
				for w := range ws {
					if k >= 3 && w%3 != 0 {
						continue
					}
					c.State(typeName[T](), s1, s2, nodes, t, w)
					c08one(c, ops, ws, A, nodes, t, w)
				}
			}
			if k < 3 {
				c08one(c, ops, ws, A, nodes, -1, -1)
			}
		})
	}
	c.Bound("eager_operations", uint64(n))
}

// heapSeqs enumerates all sequences of n eager operations, used or not.
func heapSeqs[T types.Number](ops []Op[T], leaves []RT[T], n int, c *C, f func(nodes []Node, vals []RT[T])) {
	vals := append([]RT[T]{}, leaves...)
	var nodes []Node
	var rec func()
	rec = func() {
		if c.Out() {
			return
		}
		k := len(nodes)
		if k == n {
			f(nodes, vals)
			return
		}
		try := func(op int, args ...int) {
			if k == min(1, n-1) && !c.Mine() {
				return
			}
			av := make([]RT[T], len(args))
			for i, a := range args {
				av[i] = vals[a]
			}
			v, ok := ops[op].ref(av)
			if !ok || !finite(v) {
				return
			}
			nodes = append(nodes, Node{op, append([]int{}, args...)})
			vals = append(vals, v)
			rec()
			nodes = nodes[:k]
			vals = vals[:len(leaves)+k]
		}
		for op := range ops {
			for i := range vals {
				if ops[op].arity == 1 {
					try(op, i)
					continue
				}
				for j := range vals {
					try(op, i, j)
				}
			}
		}
	}
	rec()
}

func c08one[T types.Number](c *C, ops []Op[T], ws []heapWrite[T], A []RT[T], nodes []Node, wt, wk int) {
	var trail []string
	c.Do(func() string {
		return fmt.Sprintf("%s %v %v: %s", typeName[T](), A[0].S, A[1].S, trail)
	}, func() {
		var ms []*tensor.TensorMat[T]
		var rs []RT[T]
		for _, a := range A {
			ms = append(ms, a.mat())
			rs = append(rs, a.clone())
		}
		compare := func() {
			for i := range ms {
				if s := diff[T](ms[i], rs[i], near[T]); s != "" {
					Fail("after %s: tensor %d: %s", trail[len(trail)-1], i, s)
				}
			}
			c.Step(1)
		}
		v := T(20)
		write := func(t, k, p int) bool {
			if len(rs[t].D) == 0 {
				return true
			}
			v++
			if v > 90 {
				v = 20
			}
			trail = append(trail, fmt.Sprintf("t%d.%s at %d", t, ws[k].name, p))
			w, err := ws[k].do(ms[t], rs[t], p%len(rs[t].D), v)
			noErr(trail[len(trail)-1], err)
			rs[t] = w
			compare()
			return true
		}
		for i, n := range nodes {
			trail = append(trail, fmt.Sprintf("t%d = %s%v", len(ms), ops[n.op].name, n.args))
			ra := make([]RT[T], len(n.args))
			ma := make([]*tensor.TensorMat[T], len(n.args))
			for j, a := range n.args {
				ra[j], ma[j] = rs[a], ms[a]
			}
			r, ok := ops[n.op].ref(ra)
			if !ok || !finite(r) {
				return
			}
			m, err := ops[n.op].eager(ma)
			noErr(trail[len(trail)-1], err)
			ms = append(ms, m)
			rs = append(rs, r.clone())
			compare()
			if i == 0 && wt >= 0 {
				write(wt, wk, 0)
			}
		}
		for t := range ms {
			for k := range ws {
				if ws[k].all {
					write(t, k, 0)
					continue
				}
				size := len(rs[t].D)
				for p := 0; p < size; p++ {
					if size > 8 && p > 2 && p < size-2 {
						continue
					}
					write(t, k, p)
				}
			}
		}
	})
	c.Sample("%v", trail)
}

// c08slices changes every slice that the caller gave to or got from a tensor.
func c08slices[T types.Number](c *C) {
	for _, s := range append(shapes(0, 3, 1, 3), []uint{7, 5}, []uint{2, 1, 2, 2}, []uint{300}, []uint{2, 1, 2, 1, 2}, []uint{33, 40}, []uint{5000}) {
		if !c.Mine() {
			continue
		}
		s := s
		c.Do(func() string { return fmt.Sprintf("%s: caller slices of a tensor of shape %v", typeName[T](), s) }, func() {
			type M = *tensor.TensorMat[T]
			scribble := func(x []uint) {
				for i := range x {
					x[i] = 7
				}
			}
			check := func(what string, m tensor.Tensor[T], w RT[T]) {
				want(what, m, w)
				p := 0
				indices(w.S, func(idx []uint) {
					g, err := m.Get(idx...)
					noErr(what, err)
					if g != w.D[p] {
						Fail("%s: element %v is %v instead of %v", what, idx, g, w.D[p])
					}
					p++
				})
				c.Step(1)
			}
			content := mkRT(s, func(i int) T { return T(i + 1) })
			zeros, ones := newRT[T](s), mkRT(s, func(int) T { return 1 })
			arg := append([]uint{}, s...)
			m := tensor.NewZeros[T](arg...)
			scribble(arg)
			check("NewZeros after changing the shape slice", m, zeros)
			arg = append([]uint{}, s...)
			m = tensor.NewOnes[T](arg...)
			scribble(arg)
			check("NewOnes after changing the shape slice", m, ones)
			arg = append([]uint{}, s...)
			vals := append([]T{}, content.D...)
			m = tensor.NewFromValues(vals, arg...)
			scribble(arg)
			for i := range vals {
				vals[i] = 99
			}
			check("NewFromValues after changing both slices", m, content)
			for _, f := range []func(...uint) M{
				func(x ...uint) M { return tensor.NewRand[T](0, 3, x...) },
				func(x ...uint) M { return tensor.NewNormRand[T](x...) },
			} {
				arg = append([]uint{}, s...)
				m = f(arg...)
				w := RT[T]{append([]uint{}, s...), m.GetData()}
				scribble(arg)
				check("random tensor after changing the shape slice", m, w)
			}
			arg = append([]uint{}, s...)
			m = content.mat().Reshape(arg...)
			scribble(arg)
			check("Reshape after changing the shape slice", m, content)
			arg = append([]uint{}, s...)
			x := tensor.Reshape[T](content.mat(), arg...)
			scribble(arg)
			runGraph("graph Reshape", x)
			check("graph Reshape after changing the shape slice", x, content)

			// accessors of plain tensors, eager results and graph results
			mk := map[string]func() tensor.Tensor[T]{
				"tensor":    func() tensor.Tensor[T] { return content.mat() },
				"copy":      func() tensor.Tensor[T] { return content.mat().Copy() },
				"AddScalar": func() tensor.Tensor[T] { return content.mat().AddScalar(&number.Scalar[T]{}) },
				"graph": func() tensor.Tensor[T] {
					x := tensor.AddScalar[T](content.mat(), &number.Scalar[T]{})
					runGraph("AddScalar", x)
					return x
				},
			}
			for name, f := range mk {
				m := f()
				cp := m.Copy()
				scribble(m.GetShape())
				check(name+" after changing GetShape()", m, content)
				scribble(m.GetMulIndex())
				check(name+" after changing GetMulIndex()", m, content)
				d := m.GetData()
				for i := range d {
					d[i] = 99
				}
				check(name+" after changing GetData()", m, content)
				d1, s1, m1 := m.GetData(), m.GetShape(), m.GetMulIndex()
				d2, s2, m2 := m.GetData(), m.GetShape(), m.GetMulIndex()
				for i := range d2 {
					d2[i] = 98
				}
				scribble(s2)
				w2 := append([]uint{}, m1...)
				scribble(m2)
				for i := range d1 {
					if d1[i] != content.D[i] {
						Fail("%s: changing one result of GetData changes another", name)
					}
				}
				if !sameShape(s1, content.S) || !sameShape(m1, w2) {
					Fail("%s: changing one result of GetShape or GetMulIndex changes another", name)
				}
				noErr("LoadData", m.LoadData(zeros.D))
				for i := range d1 {
					if d1[i] != content.D[i] {
						Fail("%s: writing the tensor changes the result of GetData", name)
					}
				}
				m.GetData()
				for i := range d1 {
					if d1[i] != content.D[i] {
						Fail("%s: a second GetData changes the result of the first", name)
					}
				}
				noErr("LoadData", m.LoadData(content.D))
				check("copy of "+name, cp, content)
				noErr("LoadData", m.LoadData(zeros.D))
				check("copy of overwritten "+name, cp, content)
				noErr("LoadData", cp.LoadData(ones.D))
				check(name+" whose copy was overwritten", m, zeros)
			}
			// two tensors of the same origin share nothing, and neither do
			// the elements of one
			n := len(content.D)
			two := map[string]func() tensor.Tensor[T]{
				"NewZeros":        func() tensor.Tensor[T] { return tensor.NewZeros[T](s...) },
				"NewOnes":         func() tensor.Tensor[T] { return tensor.NewOnes[T](s...) },
				"NewRand":         func() tensor.Tensor[T] { return tensor.NewRand[T](0, 3, s...) },
				"NewNormRand":     func() tensor.Tensor[T] { return tensor.NewNormRand[T](s...) },
				"no values":       func() tensor.Tensor[T] { return tensor.NewFromValues[T](nil, s...) },
				"few values":      func() tensor.Tensor[T] { return tensor.NewFromValues(content.D[:n/2], s...) },
				"all values":      func() tensor.Tensor[T] { return tensor.NewFromValues(content.D, s...) },
				"excess values":   func() tensor.Tensor[T] { return tensor.NewFromValues(append(content.D[:n:n], 1, 2), s...) },
				"equal values":    func() tensor.Tensor[T] { return tensor.NewFromValues(ones.D, s...) },
				"growing Reshape": func() tensor.Tensor[T] { return tensor.NewOnes[T](1).Reshape(s...) },
				"graph Reshape": func() tensor.Tensor[T] {
					x := tensor.Reshape[T](tensor.NewOnes[T](1), s...)
					runGraph("Reshape", x)
					return x
				},
			}
			for name, f := range two {
				a, b := f(), f()
				was := b.GetData()
				cur := a.GetData()
				for i, o := range a.GetOperands() {
					if i >= 40 && i < n-40 {
						continue
					}
					cur[i] = T(50 + i%50)
					o.Value = cur[i]
					if i < 20 || i+20 >= n {
						check(name+" while its elements are written", a, RT[T]{content.S, cur})
					}
				}
				check(name+" after its elements were written", a, RT[T]{content.S, cur})
				check(name+" built next to one that was written", b, RT[T]{content.S, was})
				if name != "NewRand" && name != "NewNormRand" {
					check("another "+name, f(), RT[T]{content.S, was})
				}
			}
			// an index slice is only read
			if len(s) > 0 {
				m := content.mat()
				idx := make([]uint, len(s))
				m.Get(idx...)
				m.Set(5, idx...)
				m.GetOperand(idx...)
				for _, i := range idx {
					if i != 0 {
						Fail("the caller's index was changed to %v", idx)
					}
				}
			}
			c.State("slices", typeName[T](), s)
		})
	}
}

// c08predict: predictions are the caller's, inputs stay the caller's.
func c08predict(c *C) {
	mk := map[string]func() (*model.Model[float64], []uint){
		"dense": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInDense[float64](3, 2, activation.Linear[float64]{})), []uint{3}
		},
		"dense wide": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInDense[float64](300, 280, activation.Linear[float64]{})), []uint{300}
		},
		"identity wide": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](5, 40, 41)), []uint{5, 40, 41}
		},
		"branches": func() (*model.Model[float64], []uint) {
			in := layer.NewInput[float64](3)
			a, b := layer.NewDense[float64](2, activation.Linear[float64]{}), layer.NewDense[float64](4, activation.Linear[float64]{})
			a.Connect(in)
			b.Connect(in)
			m, _ := model.FromInOut[float64](in, layer.NewConcat[float64](a, b, 0))
			return m, []uint{3}
		},
		"range": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](3, 2)).Push(layer.NewSubTensor[float64](0, 0, 3)), []uint{3, 2}
		},
		"identity": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](2, 2)), []uint{2, 2}
		},
		"flatten": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](2, 2)).Push(layer.NewFlatten[float64]()), []uint{2, 2}
		},
		"pool": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](1, 3, 3)).Push(layer.NewMaxPool2D[float64](2)), []uint{1, 3, 3}
		},
		"upsampling": func() (*model.Model[float64], []uint) {
			return model.NewModel[float64]().Push(layer.NewInput[float64](1, 2, 2)).Push(layer.NewUpSampling2D[float64](2)), []uint{1, 2, 2}
		},
	}
	for name, f := range mk {
		if c.shard != 0 {
			continue
		}
		for depth := 1; depth <= 3; depth++ {
			name, f := name, f
			c.Do(func() string { return "predictions of model " + name }, func() {
				m, s := f()
				A, B := leafA[float64](s, 0), leafB[float64](s, 1)
				ia, ib := A.mat(), B.mat()
				pa, err := m.Predict(ia)
				noErr("Predict", err)
				wa := RT[float64]{pa.GetShape(), pa.GetData()}
				pb, err := m.Predict(ib)
				noErr("Predict", err)
				wb := RT[float64]{pb.GetShape(), pb.GetData()}
				for i := 0; i < depth; i++ {
					want("first prediction after another", pa, wa)
					noErr("LoadData", pb.LoadData(make([]float64, len(wb.D))))
					want("first prediction after writing the second", pa, wa)
					want("input", ia, A)
					want("input", ib, B)
					ia.FillData(3)
					want("first prediction after writing its input", pa, wa)
					pb, err = m.Predict(ib)
					noErr("Predict", err)
					want("second prediction repeated", pb, wb)
					noErr("LoadData", ia.LoadData(A.D))
					p2, err := m.Predict(ia)
					noErr("Predict", err)
					want("first prediction repeated", p2, wa)
					c.Step(6)
				}
			})
		}
	}
}

// c08predictions: the results of many predictions are kept apart.
func c08predictions[T types.Number](c *C) {
	for _, a := range append(archAll(), archNested()...) {
		if c.Out() || !c.Mine() {
			continue
		}
		a := a
		c.State("predictions", typeName[T](), a.String())
		c.Do(func() string { return fmt.Sprintf("%s: results of 9 predictions of %v", typeName[T](), a) }, func() {
			n := compiled[T](a, 1)
			inS := n.ref.inS
			var ins, outs []tensor.Tensor[T]
			var all []RT[T]
			for i := 0; i < 9; i++ {
				in := ten[T](inS, sampleX(inS, i%4))
				p, err := n.m.Predict(in)
				noErr("Predict", err)
				ins, outs = append(ins, in), append(outs, p)
				all = append(all, RT[T]{in.GetShape(), in.GetData()}, RT[T]{p.GetShape(), p.GetData()})
			}
			same := func(what string) {
				for i := range outs {
					for k, t := range []tensor.Tensor[T]{ins[i], outs[i]} {
						if s := diff(t, all[2*i+k], bitEq[T]); s != "" {
							Fail("%s, %s %d: %s", what, []string{"input", "result"}[k], i, s)
						}
					}
				}
			}
			same("after all predictions")
			for i := range outs {
				for k, t := range []tensor.Tensor[T]{ins[i], outs[i]} {
					r := &all[2*i+k]
					for q := range r.D {
						r.D[q] = T(100 + 10*i + q%7)
					}
					noErr("LoadData", t.LoadData(r.D))
					same(fmt.Sprintf("after writing %s %d", []string{"input", "result"}[k], i))
				}
			}
			c.Step(27)
		})
	}
}
