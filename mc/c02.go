package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C02", &Check{
		Run:   runC02,
		Level: "model_checking",
		Rule: "every element-wise operation, eager and graph, for 6 element types x every shape of rank 0-3 with dimensions 1-3, rank 4 with 1-2, and larger shapes " +
			"x every ordered pair of the value alphabet at every position (the alphabet slides over the tensor); a dense alphabet (special values, powers of two and neighbours) " +
			"in one tensor of all pairs; loading a tensor from every rotation, transposition and repetition of its own elements; thorough: all pairs of int16. state = (type, operation, mode, shape, values), transition = operation whose every element is compared",
		Assumptions: []string{"integer division by zero is outside of the domain (it panics, as in Go)"},
	})
}

func runC02(c *C) {
	c02[float64](c)
	c02[float32](c)
	c02[int](c)
	c02[int16](c)
	c02[int32](c)
	c02[int64](c)
	c02alias[float64](c)
	c02alias[int16](c)
	if c.Thorough {
		c02int16(c)
	}
}

type binOp[T types.Number] struct {
	name  string
	f     func(a, b T) T
	eager func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
	graph func(a, b tensor.Tensor[T]) tensor.Tensor[T]
	div   bool
}

func binOps[T types.Number]() []binOp[T] {
	type M = *tensor.TensorMat[T]
	return []binOp[T]{
		{"Add", func(a, b T) T { return a + b }, func(a, b M) (M, error) { return a.Add(b) }, tensor.Add[T], false},
		{"Sub", func(a, b T) T { return a - b }, func(a, b M) (M, error) { return a.Sub(b) }, tensor.Sub[T], false},
		{"Mul", func(a, b T) T { return a * b }, func(a, b M) (M, error) { return a.Mul(b) }, tensor.Mul[T], false},
		{"Div", func(a, b T) T { return a / b }, func(a, b M) (M, error) { return a.Div(b) }, tensor.Div[T], true},
	}
}

type scalarOp[T types.Number] struct {
	name  string
	f     func(a, b T) T
	eager func(a *tensor.TensorMat[T], s *number.Scalar[T]) *tensor.TensorMat[T]
	graph func(a tensor.Tensor[T], s *number.Scalar[T]) tensor.Tensor[T]
	div   bool
}

func scalarOps[T types.Number]() []scalarOp[T] {
	type M = *tensor.TensorMat[T]
	type S = *number.Scalar[T]
	return []scalarOp[T]{
		{"AddScalar", func(a, b T) T { return a + b }, func(a M, s S) M { return a.AddScalar(s) }, tensor.AddScalar[T], false},
		{"SubScalar", func(a, b T) T { return a - b }, func(a M, s S) M { return a.SubScalar(s) }, tensor.SubScalar[T], false},
		{"MulScalar", func(a, b T) T { return a * b }, func(a M, s S) M { return a.MulScalar(s) }, tensor.MulScalar[T], false},
		{"DivScalar", func(a, b T) T { return a / b }, func(a M, s S) M { return a.DivScalar(s) }, tensor.DivScalar[T], true},
	}
}

type unOp[T types.Number] struct {
	name  string
	f     func(a T) T
	eager func(a *tensor.TensorMat[T]) *tensor.TensorMat[T]
	graph func(a tensor.Tensor[T]) tensor.Tensor[T]
}

func unOps[T types.Number]() []unOp[T] {
	type M = *tensor.TensorMat[T]
	type X = tensor.Tensor[T]
	fs := []struct {
		n string
		f func(T) T
	}{
		{"3x+1", func(x T) T { return 3*x + 1 }},
		{"step", func(x T) T {
			if x > 1 {
				return 7
			}
			return -x
		}},
	}
	out := []unOp[T]{
		{"Abs", func(a T) T {
			if a < 0 {
				return -a
			}
			return a
		}, func(a M) M { return a.Abs() }, tensor.Abs[T]},
		{"Neg", func(a T) T { return -a }, func(a M) M { return a.Neg() }, tensor.Neg[T]},
	}
	for _, f := range fs {
		f := f
		out = append(out, unOp[T]{"Activate " + f.n, f.f,
			func(a M) M { return a.Activate(f.f) },
			func(a X) X { return tensor.Activate(a, f.f) }})
	}
	return out
}

func smallAlphabet[T types.Number]() []T {
	var z T
	switch any(z).(type) {
	case float32:
		return conv[T](-2.5, -1, 0, 0.1, 1, 3, 65504, 1e30, math.Inf(1), math.NaN())
	case float64:
		return conv[T](-2.5, -1, 0, 0.1, 1, 3, 65504, 1e300, math.Inf(-1), math.NaN())
	}
	lo, hi := intRange[T]()
	return []T{lo, -7, -1, 0, 1, 2, 100, hi}
}

func conv[T types.Number](v ...float64) []T {
	out := make([]T, len(v))
	for i := range v {
		out[i] = T(v[i])
	}
	return out
}

func intRange[T types.Number]() (lo, hi T) {
	var z T
	switch any(z).(type) {
	case int16:
		a, b := int16(math.MinInt16), int16(math.MaxInt16)
		return T(a), T(b)
	case int32:
		a, b := int32(math.MinInt32), int32(math.MaxInt32)
		return T(a), T(b)
	case int, int64:
		a, b := int64(math.MinInt64), int64(math.MaxInt64)
		return T(a), T(b)
	}
	return -1000, 1000
}

func denseAlphabet[T types.Number]() []T {
	var out []T
	if isFloat[T]() {
		var z T
		emin, emax := -149, 127
		if _, ok := any(z).(float64); ok {
			emin, emax = -1074, 1023
		}
		step := (emax - emin) / 20
		for e := emin; e <= emax; e += step {
			v := math.Ldexp(1, e)
			out = append(out, T(v), T(-v), T(v*1.3))
		}
		out = append(out, conv[T](0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1, -1, 2, 3, 5, 7, 0.1, 0.3, 1e-3, 16777216, 16777217, 255, 0.5)...)
		if _, ok := any(z).(float32); ok {
			big := float32(math.MaxFloat32)
			out = append(out, T(big))
		} else {
			big := math.MaxFloat64
			out = append(out, T(big))
		}
		return out
	}
	lo, hi := intRange[T]()
	out = append(out, lo, lo+1, hi, hi-1, 0)
	for v := hi; v > 1; v /= 4 {
		out = append(out, v, -v, v+1)
	}
	for i := -6; i <= 6; i++ {
		out = append(out, T(i))
	}
	return out
}

func c02[T types.Number](c *C) {
	ty := typeName[T]()
	all := append(shapes(0, 3, 1, 3), shapes(4, 4, 1, 2)...)
	if c.Thorough {
		all = append(shapes(0, 3, 1, 4), shapes(4, 4, 1, 3)...)
	}
	al := smallAlphabet[T]()
	for _, s := range all {
		for k := range al {
			for l := range al {
				if !c.Mine() {
					continue
				}
				a := mkRT(s, func(i int) T { return al[(i+k)%len(al)] })
				b := mkRT(s, func(i int) T { return al[(i*3+l)%len(al)] })
				c02case(c, fmt.Sprintf("%s %v a=%v b=%v", ty, s, short(a.D), short(b.D)), a, b, l == 0)
			}
			if c.Out() {
				return
			}
		}
	}
	for _, s := range append(append([][]uint{}, bigShapes...), hugeShapes...) {
		for k := range al {
			if !c.Mine() || size(s) > 60000 && k > 0 {
				continue
			}
			a := mkRT(s, func(i int) T { return al[(i+k)%len(al)] })
			b := mkRT(s, func(i int) T { return al[(i/len(al)+i+2*k+1)%len(al)] })
			c02case(c, fmt.Sprintf("%s %v k=%d", ty, s, k), a, b, true)
		}
	}
	// all pairs of the dense alphabet
	d := denseAlphabet[T]()
	if c.Mine() {
		n := uint(len(d))
		a := mkRT([]uint{n, n}, func(i int) T { return d[i/len(d)] })
		b := mkRT([]uint{n, n}, func(i int) T { return d[i%len(d)] })
		c02case(c, ty+" dense alphabet", a, b, true)
		c.Bound("dense_alphabet", uint64(n))
	}
	for _, v := range d {
		if !c.Mine() {
			continue
		}
		a := RT[T]{[]uint{uint(len(d))}, d}
		c02scalar(c, fmt.Sprintf("%s dense alphabet, scalar %v", ty, v), a, v)
	}
	c.Bound("small_alphabet", uint64(len(al)))
}

func nz[T types.Number](b RT[T]) RT[T] {
	if isFloat[T]() {
		return b
	}
	return b.map1(func(x T) T {
		if x == 0 {
			return 5
		}
		return x
	})
}

func c02case[T types.Number](c *C, name string, a, b RT[T], unary bool) {
	c.Sample("%s", name)
	for _, op := range binOps[T]() {
		bb := b
		if op.div {
			bb = nz(b)
		}
		exp := a.map2(bb, op.f)
		c.Do(func() string { return op.name + " eager " + name }, func() {
			A, B := a.mat(), bb.mat()
			r, err := op.eager(A, B)
			noErr("", err)
			want("result", r, exp)
			want("first operand", A, a)
			want("second operand", B, bb)
		})
		c.Do(func() string { return op.name + " graph " + name }, func() {
			A, B := a.mat(), bb.mat()
			r := op.graph(A, B)
			runGraph("", r)
			want("result", r, exp)
			want("first operand", A, a)
			want("second operand", B, bb)
		})
		if unary {
			aa := a
			if op.div {
				aa = nz(a)
			}
			expS := aa.map2(aa, op.f)
			c.Do(func() string { return op.name + " with itself " + name }, func() {
				A := aa.mat()
				r, err := op.eager(A, A)
				noErr("", err)
				want("eager result", r, expS)
				g := op.graph(A, A)
				runGraph("", g)
				want("graph result", g, expS)
				want("operand", A, aa)
			})
		}
		c.Step(2)
		c.State(op.name, name)
	}
	if len(b.D) > 0 {
		c02scalar(c, name, a, b.D[0])
	}
	if !unary {
		return
	}
	for _, op := range unOps[T]() {
		exp := a.map1(op.f)
		c.Do(func() string { return op.name + " " + name }, func() {
			A := a.mat()
			r := op.eager(A)
			want("eager result", r, exp)
			want("operand", A, a)
			g := op.graph(A)
			runGraph("", g)
			want("graph result", g, exp)
			want("operand", A, a)
		})
		c.Step(2)
		c.State(op.name, name)
	}
	c02copy(c, name, a, b)
}

func c02scalar[T types.Number](c *C, name string, a RT[T], v T) {
	for _, op := range scalarOps[T]() {
		v := v
		if op.div && v == 0 && !isFloat[T]() {
			v = 3
		}
		exp := a.map1(func(x T) T { return op.f(x, v) })
		c.Do(func() string { return fmt.Sprintf("%s(%v) %s", op.name, v, name) }, func() {
			A := a.mat()
			s := scalarOf(v)
			r := op.eager(A, s)
			want("eager result", r, exp)
			g := op.graph(A, s)
			runGraph("", g)
			want("graph result", g, exp)
			want("operand", A, a)
			if !eqv(s.Value, v) {
				Fail("the scalar became %v", s.Value)
			}
		})
		c.Step(2)
		c.State(op.name, v, name)
	}
}

// c02alias: loading from a tensor that shares elements with the target.
func c02alias[T types.Number](c *C) {
	for _, s := range shapes(0, 4, 1, 3) {
		if c.Out() || !c.Mine() {
			continue
		}
		s := s
		n := uint(size(s))
		v := mkRT(s, func(i int) T { return T(i + 1) })
		try := func(what string, src func(x *tensor.TensorMat[T]) tensor.Tensor[T]) {
			c.State("shared elements", typeName[T](), s, what)
			c.Do(func() string { return fmt.Sprintf("%s %v: LoadFromTensor of its own %s", typeName[T](), s, what) }, func() {
				x := v.mat()
				y := src(x)
				runGraph("", y)
				exp := y.GetData()
				noErr("LoadFromTensor", x.LoadFromTensor(y))
				want("target", x, RT[T]{S: s, D: exp})
				c.Step(1)
			})
		}
		try("self", func(x *tensor.TensorMat[T]) tensor.Tensor[T] { return x })
		try("transposition, reshaped", func(x *tensor.TensorMat[T]) tensor.Tensor[T] {
			return tensor.Reshape[T](tensor.Transpose[T](x), s...)
		})
		for k := uint(1); k < n && n <= 27; k++ {
			k := k
			try(fmt.Sprintf("rotation by %d", k), func(x *tensor.TensorMat[T]) tensor.Tensor[T] {
				f := tensor.Reshape[T](x, n)
				return tensor.Reshape(tensor.Concat(tensor.SubTensor(f, 0, k, n), tensor.SubTensor(f, 0, 0, k), 0), s...)
			})
			try(fmt.Sprintf("row %d repeated", k), func(x *tensor.TensorMat[T]) tensor.Tensor[T] {
				f := tensor.SubTensor(tensor.Reshape[T](x, n), 0, k, k+1)
				r := f
				for i := uint(1); i < n; i++ {
					r = tensor.Concat(r, f, 0)
				}
				return tensor.Reshape(r, s...)
			})
		}
	}
}

func c02copy[T types.Number](c *C, name string, a, b RT[T]) {
	c.Do(func() string { return "copy and fill " + name }, func() {
		A, B := a.mat(), b.mat()
		want("Copy", A.Copy(), a)
		noErr("LoadFromTensor", B.LoadFromTensor(A))
		want("LoadFromTensor", B, a)
		want("source of LoadFromTensor", A, a)
		B = b.mat()
		noErr("LoadData", B.LoadData(a.D))
		want("LoadData", B, a)

		// graph copies: from a leaf and from an expression
		B = b.mat()
		cp := tensor.CopyTo[T](A, B)
		runGraph("CopyTo", cp)
		want("CopyTo", B, a)
		want("result of CopyTo", cp, a)
		want("source of CopyTo", A, a)
		B = b.mat()
		ctx := context.NewCTX()
		noErr("Transfer", tensor.Transfer[T](ctx, tensor.Neg[T](A), B))
		g, err := graph.NewGraphFrom[T](ctx)
		noErr("NewGraphFrom", err)
		want("target before execution", B, b)
		g.Exec()
		want("Transfer", B, a.map1(func(x T) T { return -x }))
		want("source of Transfer", A, a)

		v := T(3)
		if len(a.D) > 0 {
			v = a.D[0]
		}
		exp := a.map1(func(T) T { return v })
		B = b.mat()
		B.FillData(v)
		want("FillData", B, exp)
		s := scalarOf(v)
		B = b.mat()
		B.Fill(s)
		want("Fill", B, exp)
		B = b.mat()
		f := tensor.FillWith[T](B, s)
		runGraph("FillWith", f)
		want("FillWith", B, exp)
		want("result of FillWith", f, exp)
		B = b.mat()
		ctx = context.NewCTX()
		noErr("Fill", tensor.Fill[T](ctx, B, s))
		g, err = graph.NewGraphFrom[T](ctx)
		noErr("NewGraphFrom", err)
		g.Exec()
		want("graph Fill", B, exp)
		if !eqv(s.Value, v) {
			Fail("the scalar became %v", s.Value)
		}
	})
	c.Step(8)
}

// c02int16 compares all pairs of 16-bit integers.
func c02int16(c *C) {
	const n = 1 << 12
	for hi := 0; hi < 1<<16; hi++ {
		if !c.Mine() {
			continue
		}
		x := int16(hi - 1<<15)
		for lo := 0; lo < 1<<16; lo += n {
			a := mkRT([]uint{n}, func(int) int16 { return x })
			b := mkRT([]uint{n}, func(i int) int16 { return int16(lo + i - 1<<15) })
			for _, op := range binOps[int16]() {
				bb := b
				if op.div {
					bb = nz(b)
				}
				exp := a.map2(bb, op.f)
				c.Do(func() string { return fmt.Sprintf("%s int16 %d with %d..", op.name, x, lo-1<<15) }, func() {
					r, err := op.eager(a.mat(), bb.mat())
					noErr("", err)
					want("result", r, exp)
				})
				c.Step(n)
			}
		}
		if c.Out() {
			return
		}
	}
	c.Bound("int16_pairs", 1<<32)
}

// scalarOf makes a scalar operand in the ways there are.
func scalarOf[T types.Number](v T) *number.Scalar[T] {
	switch v {
	case 0:
		if bits(v) == 0 {
			return number.ScalarZero[T]()
		}
	case 1:
		return number.ScalarOne[T]()
	}
	return number.NewScalar(v)
}
