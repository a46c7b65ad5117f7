package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func runC07(c *C) {
	c07[float64](c, []uint{2, 3}, []uint{2, 3}, 2, 4)
	c07[float64](c, []uint{2, 2}, []uint{2, 2}, 1, 6)
	c07[float64](c, []uint{3}, []uint{3}, 1, 6)
	c07[float64](c, []uint{2, 3, 2}, []uint{2, 3}, 1, 5)
	c07[int](c, []uint{2, 3}, []uint{2, 3}, 1, 5)
	c07[float32](c, []uint{2, 3}, []uint{2, 3}, 1, 5)
	c07[int16](c, []uint{2, 3}, []uint{2, 3}, 1, 4)
	c07large[float64](c)
	c07large[int](c)
	c07staged[float64](c)
	c07assign[float64](c, 4)
	c07assign[int](c, 3)
	d := 6
	if c.Thorough {
		d = 7
		c07[float64](c, []uint{2, 3}, []uint{2, 3}, 2, 5)
		c07[float64](c, []uint{2, 2}, []uint{2, 2}, 2, 5)
	}
	c07graphs(c, d)
	c07long[float64](c)
	c07long[int](c)
	c07longGraphs(c)
}

// c07long: every expression of one operation, with every pair of calls and an
// execution repeated over and over.
func c07long[T types.Number](c *C) {
	ops := exprOps[T]()
	for i := range ops {
		if ops[i].sc != nil {
			ops[i].sc.Value = T(i%3 + 2)
		}
	}
	const times = 60
	s := []uint{2, 3}
	A := []RT[T]{leafA[T](s, 0), leafA[T](s, 2)}
	B := []RT[T]{leafB[T](s, 1), leafB[T](s, 4)}
	dags(ops, A, 1, c.Mine, c.Out, func(nodes []Node, _ []RT[T]) {
		nodes = append([]Node{}, nodes...)
		for _, p := range [][]int{{hLoadA, hExec, hLoadB, hExec}, {hExec, hLoadB, hExec, hExec, hLoadA}, {hLoadB, hExec, hScribble, hExec, hLoadA, hExec}, {hLoadA, hExec, hExec, hExec, hScalar, hExec, hLoadB, hExec}} {
			var h []int
			for i := 0; i < times; i++ {
				h = append(h, p...)
			}
			c07one(c, ops, A, B, nodes, append(h, hExec), 0)
			c.State("long", typeName[T](), nodes, p)
		}
	})
	c.Bound("executions of one graph", 4*times+1)
}

// c07longGraphs: long lists, and many executions of them.
func c07longGraphs(c *C) {
	if c.shard != 0 {
		return
	}
	for _, n := range []int{0, 1, 7, 63, 64, 65, 255, 256, 257, 1000, 1024, 5000, 20000, 70000} {
		c.Do(func() string { return fmt.Sprintf("a graph of %d operations executed over and over", n) }, func() {
			var log []int
			g := graph.NewEmptyGraph[float64]()
			for i := 0; i < n; i++ {
				g.PushOperations(&logOp{i, &log})
			}
			cp, joined := graph.NewFromGraph[float64](g), graph.NewEmptyGraph[float64]()
			joined.AddFromGraph(g)
			joined.AddFromGraph(g)
			runs := 3
			if n <= 1024 {
				runs = 300
			}
			for r := 0; r < runs; r++ {
				for k, g := range []*graph.Graph{g, cp, joined} {
					log = log[:0]
					g.Exec()
					want := n
					if k == 2 {
						want = 2 * n
					}
					if len(log) != want {
						Fail("execution %d of graph %d performed %d operations instead of %d", r+1, k, len(log), want)
					}
					for i, v := range log {
						if v != i%n {
							Fail("execution %d of graph %d: operation %d instead of %d", r+1, k, v, i%n)
						}
					}
				}
			}
			c.Step(3 * runs)
			c.State("long list", n)
		})
	}
}

const (
	hLoadA = iota
	hLoadB
	hWrite
	hScribble
	hExec
	hScalar
	hKinds
)

// histories enumerates all histories up to the length that end in execution.
func histories(kinds, maxLen, last int, f func(h []int)) {
	var h []int
	var rec func()
	rec = func() {
		if len(h) > 0 && h[len(h)-1] == last {
			f(h)
		}
		if len(h) == maxLen {
			return
		}
		for k := 0; k < kinds; k++ {
			h = append(h, k)
			rec()
			h = h[:len(h)-1]
		}
	}
	rec()
}

func c07[T types.Number](c *C, s1, s2 []uint, nops, length int) {
	ops := exprOps[T]()
	for i := range ops {
		if ops[i].sc != nil {
			ops[i].sc.Value = T(i%3 + 2)
		}
	}
	A := []RT[T]{leafA[T](s1, 0), leafA[T](s2, 2)}
	B := []RT[T]{leafB[T](s1, 1), leafB[T](s2, 4)}
	for n := 1; n <= nops; n++ {
		dags(ops, A, n, c.Mine, c.Out, func(nodes []Node, _ []RT[T]) {
			nodes = append([]Node{}, nodes...)
			c.State("expr", typeName[T](), s1, s2, nodes)
			maxLen := length
			if n == 1 && nops > 1 {
				maxLen = length + 1
			}
			scalar := false
			for _, nd := range nodes {
				if ops[nd.op].sc != nil {
					scalar = true
				}
			}
			for mode := 0; mode < 3; mode++ {
				l := maxLen
				if mode > 0 {
					l = 3
				}
				histories(hKinds, l, hExec, func(h []int) {
					if !scalar {
						for _, k := range h {
							if k == hScalar {
								return
							}
						}
					}
					c07one(c, ops, A, B, nodes, h, mode)
				})
			}
		})
	}
	c.Bound("max_history", uint64(length))
}

func c07one[T types.Number](c *C, ops []Op[T], A, B []RT[T], nodes []Node, h []int, mode int) {
	last := len(A) + len(nodes) - 1
	view := ops[nodes[len(nodes)-1].op].view
	for i := range h {
		if h[i] == hScribble && (view || i+1 < len(h) && h[i+1] == hScribble) {
			return
		}
	}
	c.Do(func() string {
		return fmt.Sprintf("%s %v %v: %s history %v (0 load A, 1 load B, 2 write an element, 3 scribble on the result, 4 execute, 5 change the scalar operands), built with %s",
			typeName[T](), A[0].S, A[1].S, dagString(ops, len(A), nodes), h, []string{"A", "zeros", "ones"}[mode])
	}, func() {
		scalars := func(f func(i int) T) {
			for i := range ops {
				if ops[i].sc != nil {
					ops[i].sc.Value = f(i)
				}
			}
		}
		normal := func(i int) T { return T(i%3 + 2) }
		defer scalars(normal) // the enumeration uses them, too
		cur := []RT[T]{A[0].clone(), A[1].clone()}
		scalars(normal)
		if mode > 0 {
			scalars(func(i int) T { return T(mode - 1) })
			for i := range cur {
				cur[i] = mkRT(cur[i].S, func(int) T { return T(mode - 1) })
			}
		}
		ts := buildDag(ops, cur, nodes)
		g, err := graph.NewGraph(ts[last])
		noErr("NewGraph", err)
		load := func(v []RT[T]) {
			noErr("LoadData", ts[0].LoadData(v[0].D))
			noErr("LoadFromTensor", ts[1].LoadFromTensor(v[1].mat()))
			cur = []RT[T]{v[0].clone(), v[1].clone()}
		}
		for i, k := range h {
			switch k {
			case hLoadA:
				load(A)
			case hLoadB:
				load(B)
			case hWrite:
				p := (i * 2) % len(cur[0].D)
				cur[0].D[p] += 3
				ts[0].GetOperands()[p].Value += 3
				l := make([]uint, len(cur[1].S))
				for d := range l {
					l[d] = cur[1].S[d] - 1
				}
				cur[1].D[len(cur[1].D)-1] -= 5
				noErr("Set", ts[1].Set(cur[1].D[len(cur[1].D)-1], l...))
			case hScribble:
				for _, o := range ts[last].GetOperands() {
					o.Value = 77
				}
			case hScalar:
				scalars(func(j int) T { return T((i+j)%3 - 1) })
			case hExec:
				vals, ok := evalRef(ops, cur, nodes)
				if !ok {
					return // outside of the domain
				}
				g.Exec()
				for j := range ts {
					if j < len(cur) {
						want(fmt.Sprintf("step %d: leaf %d", i, j), ts[j], vals[j])
						continue
					}
					wantNear(fmt.Sprintf("step %d: t%d", i, j), ts[j], vals[j])
				}
				c.Step(1)
			}
		}
	})
	c.Sample("history %v on %s", h, dagString(ops, len(A), nodes))
}

// c07large re-executes long and large expressions.
func c07large[T types.Number](c *C) {
	largeDags(c, func(name string, ops []Op[T], A, B []RT[T], nodes []Node) {
		va, ok1 := evalRef(ops, A, nodes)
		vb, ok2 := evalRef(ops, B, nodes)
		if !ok1 || !ok2 {
			return
		}
		c.Do(func() string {
			n := nodes
			if len(n) > 6 {
				n = n[:6]
			}
			return fmt.Sprintf("%s %s of %v %v: %s...", typeName[T](), name, A[0].S, A[1].S, dagString(ops, len(A), n))
		}, func() {
			ts := buildDag(ops, A, nodes)
			g, err := graph.NewGraph(ts[len(ts)-1])
			noErr("NewGraph", err)
			for i, k := range "AABBA" {
				leaves, vals := A, va
				if k == 'B' {
					leaves, vals = B, vb
				}
				for j := range leaves {
					noErr("LoadData", ts[j].LoadData(leaves[j].D))
				}
				g.Exec()
				used := make([]bool, len(ts))
				used[len(ts)-1] = true
				for j := len(ts) - 1; j >= len(leaves); j-- {
					if used[j] {
						for _, a := range nodes[j-len(leaves)].args {
							used[a] = true
						}
					}
				}
				for j := range ts {
					if used[j] {
						wantNear(fmt.Sprintf("execution %d (%c): t%d", i, k, j), ts[j], vals[j])
					}
				}
				c.Step(1)
			}
		})
		c.State("large", typeName[T](), A[0].S, A[1].S, name, nodes[:min(len(nodes), 6)])
	})
}

// c07staged builds one graph per node of an expression, in order, and
// executes them in order, in several histories.
func c07staged[T types.Number](c *C) {
	ops := exprOps[T]()
	s := []uint{2, 3}
	A := []RT[T]{leafA[T](s, 0), leafA[T](s, 2)}
	B := []RT[T]{leafB[T](s, 1), leafB[T](s, 4)}
	n := 2
	for k := 2; k <= n; k++ {
		dags(ops, A, k, c.Mine, c.Out, func(nodes []Node, _ []RT[T]) {
			// histories: L = leaves, X = all graphs in order, P = only the
			// first graph, then all; J = joined graph, K = copy of it
			for _, h := range []string{"X", "XX", "BX", "XBX", "XBXX", "XBPX", "BJ", "XBJ", "JBJ", "JBXBK", "KBKAX", "PBJ", "XAJBK"} {
				h := h
				c.Do(func() string {
					return fmt.Sprintf("staged graphs of %s history %s (A, B load leaves, X execute all in order, P the first only, J joined, K copy of the joined)", dagString(ops, 2, nodes), h)
				}, func() {
					ts := buildDag(ops, A, nodes)
					var gs []*graph.Graph
					for i := range nodes {
						g, err := graph.NewGraph(ts[len(A)+i])
						noErr("NewGraph", err)
						gs = append(gs, g)
					}
					joined := graph.NewEmptyGraph[T]()
					for _, g := range gs {
						joined.AddFromGraph(g)
					}
					cp := graph.NewFromGraph[T](joined)
					cur := A
					for i, k := range h {
						switch k {
						case 'A', 'B':
							cur = A
							if k == 'B' {
								cur = B
							}
							for j := range cur {
								noErr("LoadData", ts[j].LoadData(cur[j].D))
							}
							continue
						case 'P':
							gs[0].Exec()
							continue
						case 'X':
							for _, g := range gs {
								g.Exec()
							}
						case 'J':
							joined.Exec()
						case 'K':
							cp.Exec()
						}
						vals, ok := evalRef(ops, cur, nodes)
						if !ok {
							return
						}
						for j := range ts {
							wantNear(fmt.Sprintf("step %d: t%d", i, j), ts[j], vals[j])
						}
						c.Step(1)
					}
				})
			}
			c.State("staged", nodes)
		})
	}
}

// c07assign explores programs of assignments (copies of expressions into
// tensors, fills of tensors with a scalar), each the root of its own graph,
// and histories of executions with changes in between, against an imperative
// machine over three tensors and a scalar.
func c07assign[T types.Number](c *C, length int) {
	type R = RT[T]
	type X = tensor.Tensor[T]
	shapes := [][]uint{{2, 2}, {2, 2}, {4}}
	exprs := []struct {
		name string
		own  int // leaf whose elements it may share, or -1
		ref  func(v []R, s T) []T
		g    func(t []X, s *number.Scalar[T]) X
	}{
		{"t0", 0, func(v []R, s T) []T { return v[0].D }, func(t []X, s *number.Scalar[T]) X { return t[0] }},
		{"t2", 2, func(v []R, s T) []T { return v[2].D }, func(t []X, s *number.Scalar[T]) X { return t[2] }},
		{"t0+t1", -1, func(v []R, s T) []T { return v[0].map2(v[1], func(a, b T) T { return a + b }).D },
			func(t []X, s *number.Scalar[T]) X { return tensor.Add(t[0], t[1]) }},
		{"t0*s", -1, func(v []R, s T) []T { return v[0].map1(func(a T) T { return a * s }).D },
			func(t []X, s *number.Scalar[T]) X { return tensor.MulScalar(t[0], s) }},
		{"-t2", -1, func(v []R, s T) []T { return v[2].map1(func(a T) T { return -a }).D },
			func(t []X, s *number.Scalar[T]) X { return tensor.Neg(t[2]) }},
		{"dot(t0,t1)", -1, func(v []R, s T) []T { return v[0].dot(v[1], 1, 0).D },
			func(t []X, s *number.Scalar[T]) X { return tensor.Dot(t[0], t[1]) }},
		{"flatten(t1)", 1, func(v []R, s T) []T { return v[1].D }, func(t []X, s *number.Scalar[T]) X { return tensor.Flatten(t[1]) }},
		{"transpose(t1)", 1, func(v []R, s T) []T { return v[1].transpose().D }, func(t []X, s *number.Scalar[T]) X { return tensor.Transpose(t[1]) }},
	}
	type stmt struct{ expr, to int } // expr < 0: fill with the scalar
	var all []stmt
	for to := range shapes {
		all = append(all, stmt{-1, to})
		for e := range exprs {
			if exprs[e].own != to {
				all = append(all, stmt{e, to})
			}
		}
	}
	name := func(p []stmt) string {
		s := ""
		for _, x := range p {
			if x.expr < 0 {
				s += fmt.Sprintf("t%d=s; ", x.to)
			} else {
				s += fmt.Sprintf("t%d=%s; ", x.to, exprs[x.expr].name)
			}
		}
		return s
	}
	one := func(p []stmt, joined bool) {
		histories(4, length, 3, func(h []int) {
			if c.Out() || !c.Mine() {
				return
			}
			c.Do(func() string {
				return fmt.Sprintf("%s program %shistory %v (0 load, 1 change the scalar, 2 write an element, 3 execute), joined %v", typeName[T](), name(p), h, joined)
			}, func() {
				vals := make([]R, 3)
				ts := make([]X, 3)
				for i, s := range shapes {
					vals[i] = leafA[T](s, i)
					ts[i] = vals[i].mat()
				}
				sc := &number.Scalar[T]{Value: 0}
				var gs []*graph.Graph
				var roots []X
				for _, x := range p {
					var r X
					if x.expr < 0 {
						r = tensor.FillWith(ts[x.to], sc)
					} else {
						r = tensor.CopyTo(exprs[x.expr].g(ts, sc), ts[x.to])
					}
					g, err := graph.NewGraph(r)
					noErr("NewGraph", err)
					gs = append(gs, g)
					roots = append(roots, r)
				}
				if joined {
					j := graph.NewEmptyGraph[T]()
					for _, g := range gs {
						j.AddFromGraph(g)
					}
					gs = []*graph.Graph{j}
				}
				for i, k := range h {
					switch k {
					case 0:
						for j := range vals {
							vals[j] = leafB[T](shapes[j], i+j)
							noErr("LoadData", ts[j].LoadData(vals[j].D))
						}
					case 1:
						sc.Value = T(i*2 - 1)
					case 2:
						for j := range vals {
							vals[j].D[j] = T(10 + i + j)
							ts[j].GetOperands()[j].Value = T(10 + i + j)
						}
					case 3:
						for _, x := range p {
							d := make([]T, 4)
							if x.expr < 0 {
								for q := range d {
									d[q] = sc.Value
								}
							} else {
								copy(d, exprs[x.expr].ref(vals, sc.Value))
							}
							vals[x.to] = R{vals[x.to].S, d}
						}
						for _, g := range gs {
							g.Exec()
						}
					}
					for j := range vals {
						want(fmt.Sprintf("step %d: t%d", i, j), ts[j], vals[j])
					}
					if k == 3 {
						x := p[len(p)-1]
						want(fmt.Sprintf("step %d: result", i), roots[len(p)-1], vals[x.to])
					}
					c.Step(1)
				}
			})
			c.State("assign", typeName[T](), p, h)
		})
	}
	for _, a := range all {
		one([]stmt{a}, false)
		for _, b := range all {
			one([]stmt{a, b}, false)
			one([]stmt{a, b}, true)
		}
	}
}

type logOp struct {
	id  int
	log *[]int
}

func (p *logOp) Cal() { *p.log = append(*p.log, p.id) }

var _ operation.Operation = (*logOp)(nil)

// c07graphs explores graphs as list machines: every history of construction
// calls, then every graph is executed and must perform exactly its list.
func c07graphs(c *C, depth int) {
	type call struct{ kind, a, b int }
	var h []call
	var model [][]int
	var rec func()
	check := func() {
		hh := append([]call{}, h...)
		c.Do(func() string {
			return fmt.Sprintf("graph calls %v (0 empty, 1 copy a, 2 append b to a, 3 push to a, 4 execute a, 5 push two and then one to a, 6 push one operation three times to a)", hh)
		}, func() {
			var log []int
			var gs []*graph.Graph
			var ms [][]int
			id := 0
			run := func(i int, what string) {
				log = nil
				gs[i].Exec()
				if fmt.Sprint(log) != fmt.Sprint(ms[i]) && (len(log) > 0 || len(ms[i]) > 0) {
					Fail("%s: graph %d executed %v instead of %v", what, i, log, ms[i])
				}
				c.Step(1)
			}
			for _, k := range hh {
				switch k.kind {
				case 0:
					gs = append(gs, graph.NewEmptyGraph[float64]())
					ms = append(ms, nil)
				case 1:
					gs = append(gs, graph.NewFromGraph[float64](gs[k.a]))
					ms = append(ms, append([]int{}, ms[k.a]...))
				case 2:
					gs[k.a].AddFromGraph(gs[k.b])
					ms[k.a] = append(append([]int{}, ms[k.a]...), ms[k.b]...)
				case 3:
					id++
					gs[k.a].PushOperations(&logOp{id, &log})
					ms[k.a] = append(append([]int{}, ms[k.a]...), id)
				case 4:
					run(k.a, "execute")
				case 5:
					// leaves the slice with room to spare
					id += 3
					gs[k.a].PushOperations(&logOp{id - 2, &log}, &logOp{id - 1, &log})
					gs[k.a].PushOperations(&logOp{id, &log})
					ms[k.a] = append(append([]int{}, ms[k.a]...), id-2, id-1, id)
				case 6:
					// the same operation again and again
					id++
					o := &logOp{id, &log}
					gs[k.a].PushOperations(o, o)
					gs[k.a].PushOperations(o)
					ms[k.a] = append(append([]int{}, ms[k.a]...), id, id, id)
				}
			}
			for i := range gs {
				run(i, "at the end")
			}
			c.State("graphs", ms)
		})
	}
	_ = model
	rec = func() {
		if c.Out() {
			return
		}
		n := 0
		for _, k := range h {
			if k.kind <= 1 {
				n++
			}
		}
		if len(h) == depth {
			if c.Mine() {
				check()
			}
			return
		}
		push := func(k call) {
			h = append(h, k)
			rec()
			h = h[:len(h)-1]
		}
		if n < 3 {
			push(call{0, 0, 0})
			for a := 0; a < n; a++ {
				push(call{1, a, 0})
			}
		}
		for a := 0; a < n; a++ {
			push(call{3, a, 0})
			push(call{5, a, 0})
			if len(h) > depth-3 {
				push(call{6, a, 0})
			}
			if len(h) > 2 {
				push(call{4, a, 0})
			}
			for b := 0; b < n; b++ {
				push(call{2, a, b})
			}
		}
	}
	rec()
	c.Bound("graph_calls", uint64(depth))
}

var _ tensor.Tensor[float64]
