package main

// The reference model of tensors: a shape and a flat list of values, and for
// every operation its definition, written index by index.

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

type RT[T types.Number] struct {
	S []uint
	D []T
}

func size(s []uint) int {
	n := 1
	for _, d := range s {
		n *= int(d)
	}
	return n
}

func newRT[T types.Number](s []uint) RT[T] {
	return RT[T]{append([]uint{}, s...), make([]T, size(s))}
}

func mkRT[T types.Number](s []uint, f func(i int) T) RT[T] {
	r := newRT[T](s)
	for i := range r.D {
		r.D[i] = f(i)
	}
	return r
}

func (r RT[T]) clone() RT[T] {
	return RT[T]{append([]uint{}, r.S...), append([]T{}, r.D...)}
}

// mat makes the real tensor with this content.
func (r RT[T]) mat() *tensor.TensorMat[T] {
	t := tensor.NewZeros[T](append([]uint{}, r.S...)...)
	for i, o := range t.GetOperands() {
		o.Value = r.D[i]
	}
	return t
}

// indices calls f with every index of the shape in row-major order.
func indices(s []uint, f func(idx []uint)) {
	if size(s) == 0 {
		return
	}
	idx := make([]uint, len(s))
	for {
		f(idx)
		k := len(s) - 1
		for ; k >= 0; k-- {
			idx[k]++
			if idx[k] < s[k] {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

func (r RT[T]) pos(idx []uint) int {
	p := 0
	for i, d := range r.S {
		p = p*int(d) + int(idx[i])
	}
	return p
}

func (r RT[T]) at(idx []uint) T { return r.D[r.pos(idx)] }

func (r RT[T]) map1(f func(T) T) RT[T] {
	return mkRT(r.S, func(i int) T { return f(r.D[i]) })
}

func (r RT[T]) map2(o RT[T], f func(a, b T) T) RT[T] {
	return mkRT(r.S, func(i int) T { return f(r.D[i], o.D[i]) })
}

func (r RT[T]) reshape(s []uint) RT[T] {
	return mkRT(s, func(i int) T {
		if i < len(r.D) {
			return r.D[i]
		}
		return 0
	})
}

func (r RT[T]) transpose() RT[T] {
	s := make([]uint, len(r.S))
	for i := range s {
		s[i] = r.S[len(s)-1-i]
	}
	out := newRT[T](s)
	indices(r.S, func(idx []uint) {
		rev := make([]uint, len(idx))
		for i := range idx {
			rev[len(idx)-1-i] = idx[i]
		}
		out.D[out.pos(rev)] = r.at(idx)
	})
	return out
}

func (r RT[T]) concat(o RT[T], d int) RT[T] {
	s := append([]uint{}, r.S...)
	s[d] += o.S[d]
	out := newRT[T](s)
	indices(r.S, func(idx []uint) { out.D[out.pos(idx)] = r.at(idx) })
	indices(o.S, func(idx []uint) {
		to := append([]uint{}, idx...)
		to[d] += r.S[d]
		out.D[out.pos(to)] = o.at(idx)
	})
	return out
}

func (r RT[T]) sub(d int, from, to uint, fill T) RT[T] {
	s := append([]uint{}, r.S...)
	s[d] = to - from
	out := newRT[T](s)
	indices(s, func(idx []uint) {
		src := append([]uint{}, idx...)
		src[d] += from
		v := fill
		if src[d] < r.S[d] {
			v = r.at(src)
		}
		out.D[out.pos(idx)] = v
	})
	return out
}

func remove(s []uint, d int) []uint {
	out := append([]uint{}, s[:d]...)
	return append(out, s[d+1:]...)
}

func insert(s []uint, d int, v uint) []uint {
	out := append([]uint{}, s[:d]...)
	out = append(out, v)
	return append(out, s[d:]...)
}

func (r RT[T]) dot(o RT[T], da, db int) RT[T] {
	sa, sb := remove(r.S, da), remove(o.S, db)
	s := append(append([]uint{}, sa...), sb...)
	if len(s) == 0 {
		s = []uint{1}
	}
	out := newRT[T](s)
	k := 0
	indices(sa, func(ia []uint) {
		indices(sb, func(ib []uint) {
			var sum T
			for c := uint(0); c < r.S[da]; c++ {
				sum += r.at(insert(ia, da, c)) * o.at(insert(ib, db, c))
			}
			out.D[k] = sum
			k++
		})
	})
	return out
}

func (r RT[T]) defaultDims(o RT[T]) (int, int) {
	db := len(o.S) - 1
	if db > 0 {
		db--
	}
	return len(r.S) - 1, db
}

// below lists, for every index of the first d+1 dimensions, the elements
// below it.
func (r RT[T]) below(d int) (shape []uint, groups [][]T) {
	shape = append([]uint{}, r.S[:d+1]...)
	g := map[string]int{}
	indices(shape, func(idx []uint) {
		g[fmt.Sprint(idx)] = len(groups)
		groups = append(groups, nil)
	})
	indices(r.S, func(idx []uint) {
		k := g[fmt.Sprint(idx[:d+1])]
		groups[k] = append(groups[k], r.at(idx))
	})
	return
}

func rsum[T types.Number](v []T) T {
	var s T
	for _, x := range v {
		s += x
	}
	return s
}

func ravg[T types.Number](v []T) T { return rsum(v) / T(len(v)) }

func rmax[T types.Number](v []T) T {
	m := v[0]
	for _, x := range v {
		if x > m {
			m = x
		}
	}
	return m
}

func rmin[T types.Number](v []T) T {
	m := v[0]
	for _, x := range v {
		if x < m {
			m = x
		}
	}
	return m
}

func (r RT[T]) reduce(f func([]T) T) RT[T] {
	return RT[T]{[]uint{1}, []T{f(r.D)}}
}

func (r RT[T]) dreduce(d int, f func([]T) T) RT[T] {
	s, g := r.below(d)
	return mkRT(s, func(i int) T { return f(g[i]) })
}

func (r RT[T]) constant() bool { return rmax(r.D) == rmin(r.D) }

func (r RT[T]) softmax() RT[T] {
	m := rmin(r.D)
	sh := r.map1(func(x T) T { return x - m })
	s := rsum(sh.D)
	return sh.map1(func(x T) T { return x / s })
}

// ---- comparison

func eqv[T types.Number](a, b T) bool { return a == b || (a != a && b != b) }

func isFloat[T types.Number]() bool {
	var z T
	switch any(z).(type) {
	case float32, float64:
		return true
	}
	return false
}

func eps[T types.Number]() float64 {
	var z T
	switch any(z).(type) {
	case float32:
		return 2e-5
	case float64:
		return 1e-10
	}
	return 0
}

// near compares up to rounding; integers exactly.
func near[T types.Number](a, b T) bool {
	if eqv(a, b) {
		return true
	}
	if !isFloat[T]() {
		return false
	}
	x, y := float64(a), float64(b)
	if math.IsInf(x, 0) || math.IsInf(y, 0) || x != x || y != y {
		return false
	}
	return math.Abs(x-y) <= eps[T]()*(1+math.Abs(x)+math.Abs(y))
}

func sameShape(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diff[T types.Number](got tensor.Tensor[T], want RT[T], eq func(a, b T) bool) string {
	if !sameShape(got.GetShape(), want.S) {
		return fmt.Sprintf("shape %v instead of %v", got.GetShape(), want.S)
	}
	if int(got.GetSize()) != len(want.D) {
		return fmt.Sprintf("size %d instead of %d", got.GetSize(), len(want.D))
	}
	d := got.GetData()
	if len(d) != len(want.D) {
		return fmt.Sprintf("%d values instead of %d", len(d), len(want.D))
	}
	for i := range d {
		if !eq(d[i], want.D[i]) {
			return fmt.Sprintf("element %d is %v instead of %v (got %v, want %v)", i, d[i], want.D[i], short(d), short(want.D))
		}
	}
	return ""
}

func short[T any](d []T) string {
	if len(d) > 40 {
		return fmt.Sprint(d[:40]) + "..."
	}
	return fmt.Sprint(d)
}

// want ends the case unless the tensor has the given content.
func want[T types.Number](what string, got tensor.Tensor[T], w RT[T]) {
	if s := diff(got, w, eqv[T]); s != "" {
		Fail("%s: %s", what, s)
	}
}

func wantNear[T types.Number](what string, got tensor.Tensor[T], w RT[T]) {
	if s := diff(got, w, near[T]); s != "" {
		Fail("%s: %s", what, s)
	}
}

// runGraph builds the graph of an expression and executes it.
func runGraph[T types.Number](what string, t tensor.Tensor[T]) {
	g, err := graph.NewGraph(t)
	if err != nil {
		Fail("%s: graph rejected: %v", what, err)
	}
	g.Exec()
}

func noErr(what string, err error) {
	if err != nil {
		Fail("%s: unexpected error: %v", what, err)
	}
}

// ---- shapes

// shapes lists all shapes of the given ranks with dimensions from lo to hi.
func shapes(minRank, maxRank int, lo, hi uint) [][]uint {
	var out [][]uint
	var rec func(s []uint, rank int)
	rec = func(s []uint, rank int) {
		if len(s) == rank {
			out = append(out, append([]uint{}, s...))
			return
		}
		for d := lo; d <= hi; d++ {
			rec(append(s, d), rank)
		}
	}
	for r := minRank; r <= maxRank; r++ {
		rec(nil, r)
	}
	return out
}

// bigShapes are beyond the exhaustive bound, for paths that depend on size.
var bigShapes = [][]uint{
	{16}, {17}, {33}, {64}, {65}, {100}, {128}, {257}, {1000}, {1025}, {4097},
	{8, 9}, {32, 33}, {2, 129}, {129, 2}, {5, 7, 11}, {1, 40, 1}, {2, 2, 2, 2, 2}, {2, 1, 2, 1, 2, 1},
	{3, 1, 2, 2, 3}, {10, 10, 10}, {1, 1, 1, 1, 7},
}

// hugeShapes have more elements, or larger dimensions, than 16 bits count.
var hugeShapes = [][]uint{{70000}, {300, 301}, {7, 101, 103}, {1, 65537}}

func typeName[T types.Number]() string {
	var z T
	return fmt.Sprintf("%T", z)
}

// ulp is the spacing of the element type's values at 1.
func ulp[T types.Number]() float64 {
	var z T
	switch any(z).(type) {
	case float32:
		return 1.0 / (1 << 23)
	case float64:
		return 1.0 / (1 << 52)
	}
	return 0
}
