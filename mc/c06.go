package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C06", &Check{
		Run:   runC06,
		Level: "model_checking",
		Rule: "every expression (directed acyclic graph, intermediate results shared in every way) of up to 3 operations out of 31 over 2 leaves, every operation used; " +
			"each is built, executed and compared, node by node, with the reference evaluation and with step-by-step eager evaluation. " +
			"state = expression, transition = one node compared; thorough: more leaves shapes at depth 3 and other element types",
		Assumptions: []string{"expressions whose value is not finite, that divide by zero or apply soft-max to a constant are outside of the domain"},
	})
	register("C07", &Check{
		Run:   runC07,
		Level: "model_checking",
		Rule: "every history of length up to 5 over {load leaves A, load leaves B, write one element, change the scalar operands, scribble on the result, execute} on every expression of up to 2 operations (every history of length 4 for shared ones); " +
			"the same up to length 3 for graphs built while all values are 0 or 1; staged graphs over shared sub-expressions; every program of up to 2 assignments (copy of an expression, fill with a scalar) under every history of up to 4 events; every history of length up to 6 of graph construction calls (empty, copy, append, push, execute) over up to 3 graphs against a list model. " +
			"state = (expression, leaf values) or list-machine state, transition = one call compared",
		Assumptions: []string{"graphs over shared sub-expressions are executed in the order in which they were built"},
	})
}

func leafA[T types.Number](s []uint, k int) RT[T] {
	return mkRT(s, func(i int) T {
		v := (i*7+k*5)%9 - 3
		if v == 0 {
			v = 6
		}
		return T(v)
	})
}

func leafB[T types.Number](s []uint, k int) RT[T] {
	return mkRT(s, func(i int) T {
		v := (i*5+k*3)%11 - 4
		if v == 0 {
			v = 8
		}
		return T(v)
	})
}

func runC06(c *C) {
	c06[float64](c, []uint{2, 3}, []uint{2, 3}, 3)
	c06[float64](c, []uint{2, 2}, []uint{2, 2}, 2)
	c06[float64](c, []uint{3}, []uint{3}, 2)
	c06[float64](c, []uint{1}, []uint{1}, 2)
	c06[float64](c, []uint{2, 3, 2}, []uint{2, 3}, 2)
	c06[float64](c, []uint{3, 2}, []uint{2, 3}, 2)
	c06[float64](c, []uint{}, []uint{1}, 2)
	c06[float64](c, []uint{5, 13}, []uint{13, 5}, 1)
	c06[float64](c, []uint{40, 3}, []uint{40, 3}, 1)
	c06[int](c, []uint{2, 3}, []uint{2, 3}, 2)
	c06[float32](c, []uint{2, 3}, []uint{2, 3}, 2)
	c06[int16](c, []uint{2, 3}, []uint{2, 3}, 2)
	c06[int32](c, []uint{2, 3}, []uint{2, 3}, 2)
	c06[int64](c, []uint{2, 3}, []uint{2, 3}, 2)
	c06special[float64](c)
	c06special[float32](c)
	c06large[float64](c)
	c06large[int](c)
	if c.Thorough {
		c06[float64](c, []uint{2, 2}, []uint{2, 2}, 3)
		c06[float64](c, []uint{3}, []uint{3}, 3)
		c06[float64](c, []uint{2, 3, 2}, []uint{2, 3}, 3)
		c06[int](c, []uint{2, 3}, []uint{2, 3}, 3)
		c06[float32](c, []uint{2, 3}, []uint{2, 3}, 3)
	}
}

func c06[T types.Number](c *C, s1, s2 []uint, depth int) {
	ops := exprOps[T]()
	leaves := []RT[T]{leafA[T](s1, 0), leafB[T](s2, 1)}
	for n := 1; n <= depth; n++ {
		dags(ops, leaves, n, c.Mine, c.Out, func(nodes []Node, vals []RT[T]) {
			c06one(c, ops, leaves, nodes, vals)
		})
	}
	c.Bound("max_operations", uint64(depth))
	c.Bound("operations", uint64(len(ops)))
}

// c06special explores expressions over fractions, zeros, infinities and
// not-a-numbers.
func c06special[T types.Number](c *C) {
	defer func() { allowSpecial = false }()
	allowSpecial = true
	inf, nan := math.Inf(1), math.NaN()
	pools := [][2][]float64{
		{{0, 1, -2, 0.5, 3, 0.25}, {inf, -inf, 0, 2, nan, 1}},
		{{inf, 0, 2, -inf, 0, 1}, {0, 4, 0.75, inf, -1, -3}},
		{{nan, 1.5, 0, 2, inf, 7}, {0.5, 0, 0, nan, -inf, -8}},
		{{0, 0, 0, 0, 0, 0}, {1, inf, -inf, nan, 0, -0.5}},
		{{0.1, -0.2, 0.3, 1e-3, 100, -7.5}, {0.7, 3, -0.9, 0.01, 12.5, 2}},
	}
	ops := exprOps[T]()
	for _, s := range [][]uint{{2, 3}, {6}, {2, 1, 3}} {
		for _, p := range pools {
			leaves := []RT[T]{mkRT(s, func(i int) T { return T(p[0][i]) }), mkRT(s, func(i int) T { return T(p[1][i]) })}
			for n := 1; n <= 2; n++ {
				dags(ops, leaves, n, c.Mine, c.Out, func(nodes []Node, vals []RT[T]) {
					c06one(c, ops, leaves, nodes, vals)
				})
			}
		}
	}
}

// c06large explores long and large expressions.
func c06large[T types.Number](c *C) {
	largeDags(c, func(name string, ops []Op[T], A, B []RT[T], nodes []Node) {
		vals, ok := evalRef(ops, A, nodes)
		if ok {
			c06one(c, ops, A, nodes, vals)
		}
		c.Bound("max_chain", uint64(len(nodes)))
	})
}

func c06one[T types.Number](c *C, ops []Op[T], leaves []RT[T], nodes []Node, vals []RT[T]) {
	desc := func() string {
		return fmt.Sprintf("%s leaves %v %v: %s", typeName[T](), leaves[0].S, leaves[1].S, dagString(ops, len(leaves), nodes))
	}
	c.Do(desc, func() {
		ts := buildDag(ops, leaves, nodes)
		// an expression that is never built must not matter
		_ = tensor.Add(ts[len(ts)-1], tensor.Reshape(ts[0], 1, 7))
		last := len(ts) - 1
		g, err := graph.NewGraph(ts[last])
		noErr("NewGraph", err)
		g.Exec()
		used := make([]bool, len(ts))
		used[last] = true
		for i := len(nodes) - 1; i >= 0; i-- {
			if used[len(leaves)+i] {
				for _, a := range nodes[i].args {
					used[a] = true
				}
			}
		}
		for i := last; i >= 0; i-- {
			if used[i] {
				wantNear(fmt.Sprintf("graph: t%d", i), ts[i], vals[i])
				c.Step(1)
			}
		}
		for i := range leaves {
			want(fmt.Sprintf("leaf %d", i), ts[i], leaves[i])
		}
		// step by step
		var es []*tensor.TensorMat[T]
		for _, l := range leaves {
			es = append(es, l.mat())
		}
		for i, n := range nodes {
			av := make([]*tensor.TensorMat[T], len(n.args))
			for j, a := range n.args {
				av[j] = es[a]
			}
			r, err := ops[n.op].eager(av)
			noErr(fmt.Sprintf("eager t%d", len(leaves)+i), err)
			es = append(es, r)
		}
		for i := range es {
			wantNear(fmt.Sprintf("eager: t%d", i), es[i], vals[i])
		}
		c.Step(len(nodes))
	})
	c.State(leaves[0].S, leaves[1].S, typeName[T](), nodes)
	c.Sample("%s", desc())
}
