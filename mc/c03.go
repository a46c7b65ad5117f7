package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C03", &Check{
		Run:   runC03,
		Level: "model_checking",
		Rule: "sum, average, maximum, minimum (whole and per dimension) and soft-max, eager and graph, 6 element types, every shape of rank 1-4 with dimensions 1-3 (thorough 1-4) and larger ones; " +
			"values: every position carrying a distinct weight, every position as the only non-zero element, the extreme at every position among all-negative, all-positive and infinite values, " +
			"and all assignments of a 4-value alphabet to up to 6 elements. state = (type, shape, values), transition = one reduction compared",
		Assumptions: []string{"empty tensors, NaN and integer overflow in averages are outside of the domain"},
	})
}

func runC03(c *C) {
	c03[float64](c)
	c03[float32](c)
	c03[int](c)
	c03[int16](c)
	c03[int32](c)
	c03[int64](c)
}

type redOp[T types.Number] struct {
	name   string
	f      func([]T) T
	eager  func(a *tensor.TensorMat[T]) *tensor.TensorMat[T]
	graph  func(a tensor.Tensor[T]) tensor.Tensor[T]
	deager func(a *tensor.TensorMat[T], d uint) (*tensor.TensorMat[T], error)
	dgraph func(a tensor.Tensor[T], d uint) tensor.Tensor[T]
}

// ok tells whether the reduction of the values is claimed (the order of
// not-a-numbers is not).
func (r redOp[T]) ok(a RT[T]) bool {
	if r.name != "Max" && r.name != "Min" {
		return true
	}
	for _, v := range a.D {
		if v != v {
			return false
		}
	}
	return true
}

func redOps[T types.Number]() []redOp[T] {
	type M = *tensor.TensorMat[T]
	return []redOp[T]{
		{"Sum", rsum[T], func(a M) M { return a.Sum() }, tensor.Sum[T], func(a M, d uint) (M, error) { return a.DSum(d) }, tensor.DSum[T]},
		{"Avg", ravg[T], func(a M) M { return a.Avg() }, tensor.Avg[T], func(a M, d uint) (M, error) { return a.DAvg(d) }, tensor.DAvg[T]},
		{"Max", rmax[T], func(a M) M { return a.Max() }, tensor.Max[T], func(a M, d uint) (M, error) { return a.DMax(d) }, tensor.DMax[T]},
		{"Min", rmin[T], func(a M) M { return a.Min() }, tensor.Min[T], func(a M, d uint) (M, error) { return a.DMin(d) }, tensor.DMin[T]},
	}
}

func c03[T types.Number](c *C) {
	ty := typeName[T]()
	hi := uint(3)
	if c.Thorough {
		hi = 4
	}
	all := append(append(shapes(1, 4, 1, hi), bigShapes...), hugeShapes[:2]...)
	for _, s := range all {
		n := size(s)
		if c.Mine() {
			// distinct weights: a sum identifies its elements
			w := mkRT(s, func(i int) T {
				if isFloat[T]() {
					return T((i*i*7+i*3)%1009) - 400
				}
				return T((i*i*7+i*3)%9) - 4
			})
			c03case(c, ty, w)
			if n <= 30 && isFloat[T]() || n <= 14 {
				c03case(c, ty, mkRT(s, func(i int) T { return T(int64(1) << (i % 23)) }))
			}
			if isFloat[T]() {
				// values that need all bits of the fraction
				c03case(c, ty, mkRT(s, func(i int) T { return T(i%13-5) / 3 }))
				c03minmax(c, ty, mkRT(s, func(i int) T { return T(1) + T((i*5+2)%7)*T(3*ulp[T]()) }))
				c03case(c, ty, mkRT(s, func(i int) T { return T(-1000) - T(i)/7 }))
			} else {
				// values that need all bits of the integer, sums within range
				_, hi := intRange[T]()
				base := hi / T(n%20000+1)
				if base > 1 {
					c03case(c, ty, mkRT(s, func(i int) T { return base - T(i%2) }))
					c03case(c, ty, mkRT(s, func(i int) T { return -base + T(i%2) }))
				}
				c03minmax(c, ty, mkRT(s, func(i int) T { return hi - T((i*5+2)%7) }))
				c03minmax(c, ty, mkRT(s, func(i int) T { return -hi + T((i*5+2)%7) }))
			}
		}
		pos := positions(n)
		if n > 60000 {
			pos = []int{65536, n - 1}
		}
		for _, p := range pos {
			if !c.Mine() {
				continue
			}
			c03case(c, ty, mkRT(s, func(i int) T {
				if i == p {
					return 3
				}
				return 0
			}))
			// the extreme at p, everything else of one sign
			c03case(c, ty, mkRT(s, func(i int) T {
				if i == p {
					return -1
				}
				return T(-2 - i%50)
			}))
			c03case(c, ty, mkRT(s, func(i int) T {
				if i == p {
					return 1
				}
				return T(2 + i%50)
			}))
			lo, hi := intRange[T]()
			if isFloat[T]() {
				inf := math.Inf(-1)
				lo = T(inf)
				hi = T(-inf)
			}
			c03minmax(c, ty, mkRT(s, func(i int) T {
				if i == p {
					return lo
				}
				return hi
			}))
			c03minmax(c, ty, mkRT(s, func(i int) T {
				if i == p {
					return hi
				}
				return lo
			}))
			c03minmax(c, ty, mkRT(s, func(i int) T { return lo }))
			c03minmax(c, ty, mkRT(s, func(i int) T { return hi }))
			if c.Out() {
				return
			}
		}
	}
	// all assignments of an alphabet
	al := []T{-3, -1, 0, 2}
	for _, s := range [][]uint{{1}, {2}, {3}, {4}, {5}, {6}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 2, 2}, {2, 1, 3}} {
		n := size(s)
		total := 1
		for i := 0; i < n; i++ {
			total *= len(al)
		}
		for code := 0; code < total; code++ {
			if !c.Mine() {
				continue
			}
			k := code
			c03case(c, ty, mkRT(s, func(i int) T {
				v := al[k%len(al)]
				k /= len(al)
				return v
			}))
			if c.Out() {
				return
			}
		}
	}
	c.Bound("max_dim_exhaustive", uint64(hi))
	c.Bound("alphabet", uint64(len(al)))
}

// positions lists all positions, or those around the ends and size thresholds.
func positions(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= 81 || i < 3 || i >= n-3 || i%16 == 0 && i <= 64 || i == n/2 {
			out = append(out, i)
		}
	}
	return out
}

func c03case[T types.Number](c *C, ty string, a RT[T]) {
	c.State(ty, a.S, short(a.D))
	c.Sample("%s %v %s", ty, a.S, short(a.D))
	for _, op := range redOps[T]() {
		c03op(c, ty, op, a)
	}
	c03soft(c, ty, a)
	c.Do(func() string { return fmt.Sprintf("tools on %s %v", ty, short(a.D)) }, func() {
		ops := a.mat().GetOperands()
		if !near(tools.Sum(ops), rsum(a.D)) || !near(tools.Avg(ops), ravg(a.D)) || tools.Max(ops) != rmax(a.D) || tools.Min(ops) != rmin(a.D) {
			Fail("tools: %v %v %v %v", tools.Sum(ops), tools.Avg(ops), tools.Max(ops), tools.Min(ops))
		}
	})
}

func c03minmax[T types.Number](c *C, ty string, a RT[T]) {
	c.State(ty, a.S, short(a.D))
	for _, op := range redOps[T]()[2:] {
		c03op(c, ty, op, a)
	}
}

func c03op[T types.Number](c *C, ty string, op redOp[T], a RT[T]) {
	c.Do(func() string { return fmt.Sprintf("%s %s %v %v", op.name, ty, a.S, short(a.D)) }, func() {
		A := a.mat()
		wantNear := wantNear[T]
		if op.name == "Max" || op.name == "Min" {
			wantNear = want[T]
		}
		exp := a.reduce(op.f)
		wantNear("eager result", op.eager(A), exp)
		g := op.graph(A)
		runGraph("", g)
		wantNear("graph result", g, exp)
		for d := range a.S {
			exp := a.dreduce(d, op.f)
			r, err := op.deager(A, uint(d))
			noErr(fmt.Sprintf("D%s(%d)", op.name, d), err)
			wantNear(fmt.Sprintf("eager D%s(%d)", op.name, d), r, exp)
			g := op.dgraph(A, uint(d))
			runGraph("", g)
			wantNear(fmt.Sprintf("graph D%s(%d)", op.name, d), g, exp)
		}
		want("operand", A, a)
	})
	c.Step(2 + 2*len(a.S))
}

func c03soft[T types.Number](c *C, ty string, a RT[T]) {
	c.Do(func() string { return fmt.Sprintf("SoftMax %s %v %v", ty, a.S, short(a.D)) }, func() {
		if a.constant() {
			c03const(c, a)
			return
		}
		A := a.mat()
		exp := a.softmax()
		r := A.SoftMax()
		wantNear("eager result", r, exp)
		g := tensor.SoftMax[T](A)
		gr, err := graph.NewGraph(g)
		noErr("NewGraph", err)
		gr.Exec()
		wantNear("graph result", g, exp)
		want("operand", A, a)
		if isFloat[T]() {
			for _, t := range []tensor.Tensor[T]{r, g} {
				sum := 0.0
				for _, v := range t.GetData() {
					if v < 0 {
						Fail("negative share %v", v)
					}
					sum += float64(v)
				}
				if math.Abs(sum-1) > 1e-4 {
					Fail("shares sum to %v", sum)
				}
			}
		}
	})
	c.Step(2)
}

// c03const records what soft-max does with a constant tensor: the shares are
// 0/0. Known finding; well-defined shares would be accepted.
func c03const[T types.Number](c *C, a RT[T]) {
	ok := func(f func() tensor.Tensor[T]) (good bool) {
		defer func() {
			if recover() != nil {
				good = false
			}
		}()
		t := f()
		if !isFloat[T]() {
			return true
		}
		sum := 0.0
		for _, v := range t.GetData() {
			if !(v >= 0) {
				return false
			}
			sum += float64(v)
		}
		return math.Abs(sum-1) < 1e-4
	}
	if !ok(func() tensor.Tensor[T] { return a.mat().SoftMax() }) ||
		!ok(func() tensor.Tensor[T] {
			g := tensor.SoftMax[T](a.mat())
			runGraph("", g)
			return g
		}) {
		FailKey("softmax-constant", "soft-max of a constant tensor has no shares")
	}
}
