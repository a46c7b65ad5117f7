package main

// The operations from which expressions are composed, each as its definition
// on the reference model, as a graph node and as an eager call.

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

type Op[T types.Number] struct {
	name  string
	arity int
	view  bool // the result shares elements with its operands in a graph
	ref   func(a []RT[T]) (RT[T], bool)
	graph func(a []tensor.Tensor[T]) tensor.Tensor[T]
	eager func(a []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
	sc    *number.Scalar[T] // the scalar operand, if there is one
}

func exprOps[T types.Number]() []Op[T] {
	type R = RT[T]
	type M = *tensor.TensorMat[T]
	type X = tensor.Tensor[T]
	var ops []Op[T]
	for _, b := range binOps[T]() {
		b := b
		ops = append(ops, Op[T]{b.name, 2, false,
			func(a []R) (R, bool) {
				if !sameShape(a[0].S, a[1].S) {
					return R{}, false
				}
				if b.div {
					for _, v := range a[1].D {
						if math.Abs(float64(v)) < 1e-6 {
							return R{}, false
						}
					}
				}
				return a[0].map2(a[1], b.f), true
			},
			func(a []X) X { return b.graph(a[0], a[1]) },
			func(a []M) (M, error) { return b.eager(a[0], a[1]) }, nil})
	}
	for _, u := range unOps[T]()[:3] {
		u := u
		ops = append(ops, Op[T]{u.name, 1, false,
			func(a []R) (R, bool) { return a[0].map1(u.f), true },
			func(a []X) X { return u.graph(a[0]) },
			func(a []M) (M, error) { return u.eager(a[0]), nil }, nil})
	}
	for i, s := range scalarOps[T]() {
		s := s
		v := &number.Scalar[T]{Value: T(i + 2)}
		ops = append(ops, Op[T]{s.name, 1, false,
			func(a []R) (R, bool) {
				if s.div && v.Value == 0 {
					return R{}, false
				}
				return a[0].map1(func(x T) T { return s.f(x, v.Value) }), true
			},
			func(a []X) X { return s.graph(a[0], v) },
			func(a []M) (M, error) { return s.eager(a[0], v), nil }, v})
	}
	for i, r := range redOps[T]() {
		r := r
		ops = append(ops, Op[T]{r.name, 1, false,
			func(a []R) (R, bool) { return a[0].reduce(r.f), r.ok(a[0]) },
			func(a []X) X { return r.graph(a[0]) },
			func(a []M) (M, error) { return r.eager(a[0]), nil }, nil})
		d := i % 2
		ops = append(ops, Op[T]{fmt.Sprintf("D%s(%d)", r.name, d), 1, false,
			func(a []R) (R, bool) {
				if len(a[0].S) <= d || !r.ok(a[0]) {
					return R{}, false
				}
				return a[0].dreduce(d, r.f), true
			},
			func(a []X) X { return r.dgraph(a[0], uint(d)) },
			func(a []M) (M, error) { return r.deager(a[0], uint(d)) }, nil})
	}
	ops = append(ops, Op[T]{"SoftMax", 1, false,
		func(a []R) (R, bool) {
			if a[0].special() || a[0].constant() {
				return R{}, false
			}
			return a[0].softmax(), true
		},
		func(a []X) X { return tensor.SoftMax(a[0]) },
		func(a []M) (M, error) { return a[0].SoftMax(), nil }, nil})
	ops = append(ops, Op[T]{"Transpose", 1, true,
		func(a []R) (R, bool) { return a[0].transpose(), true },
		func(a []X) X { return tensor.Transpose(a[0]) },
		func(a []M) (M, error) { return a[0].Transpose() }, nil})
	ops = append(ops, Op[T]{"Flatten", 1, true,
		func(a []R) (R, bool) { return a[0].reshape([]uint{uint(len(a[0].D))}), true },
		func(a []X) X { return tensor.Flatten(a[0]) },
		func(a []M) (M, error) { return a[0].Reshape(a[0].GetSize()), nil }, nil})
	for _, s := range [][]uint{{3, 2}, {2, 2, 2}, {4}} {
		s := s
		ops = append(ops, Op[T]{fmt.Sprintf("Reshape(%v)", s), 1, true,
			func(a []R) (R, bool) { return a[0].reshape(s), true },
			func(a []X) X { return tensor.Reshape(a[0], s...) },
			func(a []M) (M, error) { return a[0].Reshape(s...), nil }, nil})
	}
	for d := 0; d < 2; d++ {
		d := d
		ops = append(ops, Op[T]{fmt.Sprintf("Concat(%d)", d), 2, true,
			func(a []R) (R, bool) {
				if !concatOK(a[0].S, a[1].S, d) {
					return R{}, false
				}
				return a[0].concat(a[1], d), true
			},
			func(a []X) X { return tensor.Concat(a[0], a[1], uint(d)) },
			func(a []M) (M, error) { return a[0].Concat(a[1], uint(d)) }, nil})
	}
	ops = append(ops, Op[T]{"SubTensor(1,1,3)", 1, true,
		func(a []R) (R, bool) {
			if len(a[0].S) < 2 || a[0].S[1] < 3 {
				return R{}, false
			}
			return a[0].sub(1, 1, 3, 0), true
		},
		func(a []X) X { return tensor.SubTensor(a[0], 1, 1, 3) },
		func(a []M) (M, error) { return a[0].SubTensor(1, 1, 3) }, nil})
	ops = append(ops, Op[T]{"SubExtended(0,1,4)", 1, true,
		func(a []R) (R, bool) {
			if len(a[0].S) < 1 {
				return R{}, false
			}
			return a[0].sub(0, 1, 4, 0), true
		},
		func(a []X) X { return tensor.SubExtendedTensor(a[0], 0, 1, 4) },
		func(a []M) (M, error) { return a[0].FOSubTensor(0, 1, 4, 0) }, nil})
	ops = append(ops, Op[T]{"Dot", 2, false,
		func(a []R) (R, bool) {
			if len(a[0].S) == 0 || len(a[1].S) == 0 {
				return R{}, false
			}
			da, db := a[0].defaultDims(a[1])
			if a[0].S[da] != a[1].S[db] || dotWork(a[0], a[1], da) {
				return R{}, false
			}
			return a[0].dot(a[1], da, db), true
		},
		func(a []X) X { return tensor.Dot(a[0], a[1]) },
		func(a []M) (M, error) { return a[0].Dot(a[1]) }, nil})
	ops = append(ops, Op[T]{"DotAt(0,0)", 2, false,
		func(a []R) (R, bool) {
			if len(a[0].S) == 0 || len(a[1].S) == 0 || a[0].S[0] != a[1].S[0] || dotWork(a[0], a[1], 0) {
				return R{}, false
			}
			return a[0].dot(a[1], 0, 0), true
		},
		func(a []X) X { return tensor.DotAt(a[0], a[1], 0, 0) },
		func(a []M) (M, error) { return a[0].DotAt(a[1], 0, 0) }, nil})
	return ops
}

// dotWork tells whether a product is too large to enumerate.
func dotWork[T types.Number](a, b RT[T], da int) bool {
	return len(a.D)/int(a.S[da])*len(b.D) > 1000000
}

func concatOK(a, b []uint, d int) bool {
	if len(a) != len(b) || d >= len(a) {
		return false
	}
	for i := range a {
		if i != d && a[i] != b[i] {
			return false
		}
	}
	return true
}

// Node is one operation of an expression; operands are indices of leaves and
// earlier nodes.
type Node struct {
	op   int
	args []int
}

// maxElems bounds the tensors of expressions; allowSpecial admits infinities
// and not-a-numbers in them.
var (
	maxElems     = 200
	allowSpecial = false
)

func finite[T types.Number](r RT[T]) bool {
	if len(r.D) > maxElems {
		return false
	}
	for _, v := range r.D {
		f := float64(v)
		if allowSpecial && (math.IsNaN(f) || math.IsInf(f, 0)) {
			continue
		}
		if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 1e9 {
			return false
		}
	}
	return true
}

// dags enumerates all expressions with n operations over the given leaves in
// which every operation is used, with the value of every node.
func dags[T types.Number](ops []Op[T], leaves []RT[T], n int, mine func() bool, out func() bool, f func(nodes []Node, vals []RT[T])) {
	vals := append([]RT[T]{}, leaves...)
	var nodes []Node
	var rec func()
	rec = func() {
		if out() {
			return
		}
		k := len(nodes)
		if k == n {
			used := make([]bool, len(vals))
			for _, nd := range nodes {
				for _, a := range nd.args {
					used[a] = true
				}
			}
			for i := len(leaves); i < len(vals)-1; i++ {
				if !used[i] {
					return
				}
			}
			f(nodes, vals)
			return
		}
		try := func(op int, args ...int) {
			if k == n-1 && n > 1 {
				// the last operation must use the one before
				ok := false
				for _, a := range args {
					if a == len(vals)-1 {
						ok = true
					}
				}
				if !ok {
					return
				}
			}
			if k == min(1, n-1) && !mine() {
				return
			}
			av := make([]RT[T], len(args))
			for i, a := range args {
				av[i] = vals[a]
			}
			v, ok := ops[op].ref(av)
			if !ok || !finite(v) {
				return
			}
			nodes = append(nodes, Node{op, append([]int{}, args...)})
			vals = append(vals, v)
			rec()
			nodes = nodes[:k]
			vals = vals[:len(leaves)+k]
		}
		for op := range ops {
			if ops[op].arity == 1 {
				for i := range vals {
					try(op, i)
				}
			} else {
				for i := range vals {
					for j := range vals {
						try(op, i, j)
					}
				}
			}
		}
	}
	rec()
}

func dagString[T types.Number](ops []Op[T], leaves int, nodes []Node) string {
	s := ""
	for i, n := range nodes {
		s += fmt.Sprintf("t%d=%s%v; ", leaves+i, ops[n.op].name, n.args)
	}
	return s
}

// evalRef evaluates an expression on the reference model.
func evalRef[T types.Number](ops []Op[T], leaves []RT[T], nodes []Node) ([]RT[T], bool) {
	vals := append([]RT[T]{}, leaves...)
	for _, n := range nodes {
		av := make([]RT[T], len(n.args))
		for i, a := range n.args {
			av[i] = vals[a]
		}
		v, ok := ops[n.op].ref(av)
		if !ok || !finite(v) {
			return nil, false
		}
		vals = append(vals, v)
	}
	return vals, true
}

// buildDag makes the graph expression; the first tensors are the leaves.
func buildDag[T types.Number](ops []Op[T], leaves []RT[T], nodes []Node) []tensor.Tensor[T] {
	var ts []tensor.Tensor[T]
	for _, l := range leaves {
		ts = append(ts, l.mat())
	}
	for _, n := range nodes {
		av := make([]tensor.Tensor[T], len(n.args))
		for i, a := range n.args {
			av[i] = ts[a]
		}
		ts = append(ts, ops[n.op].graph(av))
	}
	return ts
}

// largeDags lists expressions beyond the exhaustive bound: long chains of one
// or two alternating operations, ladders in which every result is used twice,
// and every operation on large tensors.
func largeDags[T types.Number](c *C, f func(name string, ops []Op[T], A, B []RT[T], nodes []Node)) {
	defer func(n int) { maxElems = n }(maxElems)
	ops := exprOps[T]()
	leaves := func(s1, s2 []uint) ([]RT[T], []RT[T]) {
		return []RT[T]{leafA[T](s1, 0), leafA[T](s2, 2)}, []RT[T]{leafB[T](s1, 1), leafB[T](s2, 4)}
	}
	// longest gives the longest prefix of the sequence that is in the domain
	longest := func(A, B []RT[T], next func(k int) Node, n int) []Node {
		// a slightly different A shows where rounding would be amplified
		var P []RT[T]
		for _, r := range A {
			P = append(P, r.clone())
			for i, v := range r.D {
				P[len(P)-1].D[i] = T(float64(v) * (1 + eps[T]()*1e-3*float64(i%3-1)))
			}
		}
		va, vb, vp := append([]RT[T]{}, A...), append([]RT[T]{}, B...), P
		var nodes []Node
		for k := 0; k < n; k++ {
			nd := next(k)
			ok := true
			for _, v := range []*[]RT[T]{&va, &vb, &vp} {
				av := make([]RT[T], len(nd.args))
				for i, a := range nd.args {
					av[i] = (*v)[a]
				}
				r, o := ops[nd.op].ref(av)
				if !o || !finite(r) {
					ok = false
					break
				}
				*v = append(*v, r)
			}
			if ok {
				x, y := va[len(va)-1], vp[len(vp)-1]
				for i := range x.D {
					d := math.Abs(float64(x.D[i]) - float64(y.D[i]))
					ok = ok && d <= eps[T]()*0.1*(1+math.Abs(float64(x.D[i])))
				}
			}
			if !ok {
				break
			}
			nodes = append(nodes, nd)
		}
		return nodes
	}
	step := func(op, last, other int) Node {
		if ops[op].arity == 1 {
			return Node{op, []int{last}}
		}
		return Node{op, []int{last, other}}
	}
	lens := []int{4, 5, 6, 9, 17, 33, 65, 129, 300, 1000}
	if c.Thorough {
		lens = append(lens, 3000)
	}
	for _, sh := range [][]uint{{2, 3}, {2, 2}, {1}} {
		A, B := leaves(sh, sh)
		for x := range ops {
			for y := range ops {
				if !c.Mine() {
					continue
				}
				if c.Out() {
					return
				}
				prev := 0
				for _, n := range lens {
					maxElems = 300
					if n > 200 && x%3 != y%3 && !c.Thorough {
						continue
					}
					nodes := longest(A, B, func(k int) Node {
						op := x
						if k%2 == 1 {
							op = y
						}
						last := 1 + k
						if k == 0 {
							last = 0
						}
						return step(op, last, 1)
					}, n)
					if len(nodes) > prev && len(nodes) > 3 {
						f(fmt.Sprintf("chain of %d", len(nodes)), ops, A, B, nodes)
					}
					prev = len(nodes)
				}
				// every result is used by the next two
				maxElems = 300
				nodes := longest(A, B, func(k int) Node {
					op := x
					if k%2 == 1 {
						op = y
					}
					return step(op, k+1, k)
				}, 60)
				if len(nodes) > 3 {
					f(fmt.Sprintf("ladder of %d", len(nodes)), ops, A, B, nodes)
				}
			}
		}
	}
	maxElems = 400000
	sh := append(append([][]uint{}, bigShapes...), hugeShapes...)
	for _, s := range sh {
		for _, t := range [][]uint{s, RT[T]{s, nil}.rev()} {
			for x := range ops {
				if !c.Mine() {
					continue
				}
				if c.Out() {
					return
				}
				A, B := leaves(s, t)
				if nodes := longest(A, B, func(k int) Node { return step(x, 0, 1) }, 1); len(nodes) == 1 {
					f("large", ops, A, B, nodes)
				}
			}
		}
	}
	// many elements and many operations together
	for _, k := range []struct {
		s []uint
		n int
	}{{[]uint{70, 10}, 100}, {[]uint{10, 30}, 300}, {[]uint{2000}, 40}} {
		A, B := leaves(k.s, k.s)
		for x := range ops {
			if !c.Mine() {
				continue
			}
			if nodes := longest(A, B, func(i int) Node {
				if i%2 == 1 {
					return Node{0 + i/2%2, []int{1 + i, 1}} // + and - keep the shape
				}
				if i == 0 {
					return step(x, 0, 1)
				}
				return step(x, 1+i, 1)
			}, k.n); len(nodes) > 1 {
				f("many", ops, A, B, nodes)
			}
		}
	}
}

// rev is the reversed shape.
func (r RT[T]) rev() []uint {
	s := make([]uint, len(r.S))
	for i := range s {
		s[i] = r.S[len(s)-1-i]
	}
	return s
}

func (r RT[T]) special() bool {
	for _, v := range r.D {
		if f := float64(v); math.IsNaN(f) || math.IsInf(f, 0) {
			return true
		}
	}
	return false
}
