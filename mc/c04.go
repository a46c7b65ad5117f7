package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C04", &Check{
		Run:   runC04,
		Level: "model_checking",
		Rule: "reshape from every shape to every shape, flatten, transpose, concatenation along every dimension, every range of every dimension (also past the end), " +
			"shapes of rank 0-4 with dimensions 1-3 (thorough 1-4) and larger ones, eager and graph, with the operand a leaf, a computed expression or a rearranged expression not built yet; " +
			"every element is distinct. state = (type, operation, arguments, form of the operand), transition = one result compared element by element",
	})
}

func runC04(c *C) {
	c04[float64](c, true)
	c04[int16](c, true)
	c04[float32](c, false)
	c04[int](c, false)
	c04[int32](c, false)
	c04[int64](c, false)
}

// forms gives an operand as a leaf or as an unbuilt expression of that value.
func forms[T types.Number]() []struct {
	name string
	mk   func(w RT[T]) tensor.Tensor[T]
} {
	one := &number.Scalar[T]{Value: 1}
	return []struct {
		name string
		mk   func(w RT[T]) tensor.Tensor[T]
	}{
		{"leaf", func(w RT[T]) tensor.Tensor[T] { return w.mat() }},
		{"expression", func(w RT[T]) tensor.Tensor[T] { return tensor.MulScalar[T](w.mat(), one) }},
		{"reshaped", func(w RT[T]) tensor.Tensor[T] {
			return tensor.Reshape[T](tensor.Neg[T](tensor.Neg[T](tensor.Flatten[T](w.mat()))), w.S...)
		}},
		{"transposed", func(w RT[T]) tensor.Tensor[T] { return tensor.Transpose[T](w.transpose().mat()) }},
		{"subrange", func(w RT[T]) tensor.Tensor[T] {
			if len(w.S) == 0 {
				return w.mat()
			}
			return tensor.SubTensor[T](w.concat(w.map1(func(T) T { return 7 }), 0).mat(), 0, 0, w.S[0])
		}},
		{"concatenated", func(w RT[T]) tensor.Tensor[T] {
			if len(w.S) == 0 || w.S[0] < 2 {
				return w.mat()
			}
			return tensor.Concat[T](w.sub(0, 0, 1, 0).mat(), w.sub(0, 1, w.S[0], 0).mat(), 0)
		}},
	}
}

func c04[T types.Number](c *C, full bool) {
	ty := typeName[T]()
	hi := uint(3)
	if c.Thorough {
		hi = 4
	}
	small := shapes(0, 3, 1, hi)
	if full {
		small = append(small, shapes(4, 4, 1, 3)...)
	}
	all := append(append([][]uint{}, small...), bigShapes...)
	fs := forms[T]()
	check := func(op string, w RT[T], exp RT[T], eager func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error), gr func(a tensor.Tensor[T]) tensor.Tensor[T]) {
		if eager != nil {
			c.Do(func() string { return fmt.Sprintf("%s %s of %v (eager)", ty, op, w.S) }, func() {
				A := w.mat()
				r, err := eager(A)
				noErr("", err)
				want("result", r, exp)
				want("operand", A, w)
				checkReadsQuick(r, exp)
			})
			c.Step(1)
		}
		for fi, f := range fs {
			if len(w.S) > 3 && fi > 2 {
				break
			}
			c.Do(func() string { return fmt.Sprintf("%s %s of %v (graph, %s)", ty, op, w.S, f.name) }, func() {
				A := f.mk(w)
				r := gr(A)
				runGraph("", r)
				want("result", r, exp)
				want("operand", A, w)
				checkReadsQuick[T](r, exp)
				if len(exp.D) <= 200 {
					// no two elements of the result are one
					neg := exp.map1(func(x T) T { return -x })
					for i := range neg.D {
						neg.D[i] -= T(i % 50)
					}
					noErr("LoadData", r.LoadData(neg.D))
					want("result after writing all its elements", r, neg)
				}
			})
			c.State(ty, op, w.S, f.name)
			c.Step(1)
		}
		c.Sample("%s %s of %v gives %v %v", ty, op, w.S, exp.S, short(exp.D))
	}
	for _, s := range all {
		w := mkRT(s, ids[T](0, 1))
		if c.Mine() {
			check("Flatten", w, w.reshape([]uint{uint(len(w.D))}), nil, tensor.Flatten[T])
			check("Transpose", w, w.transpose(), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Transpose() }, tensor.Transpose[T])
			for d := range s {
				rng := s[d] + 3
				if s[d] < 3 && len(s) < 3 {
					rng = s[d]*4 + 3
				}
				for from := uint(0); from < rng; from++ {
					for to := from + 1; to <= rng; to++ {
						if s[d] > 6 && !(from < 2 || from+2 > s[d] || from == s[d]/2) {
							continue
						}
						if s[d] > 6 && !(to < 3 || to+3 > s[d] || to == s[d]/2+2 || to == s[d]/3*2) {
							continue
						}
						d, from, to := d, from, to
						if to <= s[d] {
							check(fmt.Sprintf("SubTensor(%d,%d,%d)", d, from, to), w, w.sub(d, from, to, 0),
								func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.SubTensor(uint(d), from, to) },
								func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubTensor(a, uint(d), from, to) })
						}
						check(fmt.Sprintf("SubExtendedTensor(%d,%d,%d)", d, from, to), w, w.sub(d, from, to, 0), nil,
							func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubExtendedTensor(a, uint(d), from, to) })
						for _, fill := range []T{0, -5} {
							exp := w.sub(d, from, to, fill)
							c.Do(func() string {
								return fmt.Sprintf("%s FOSubTensor(%d,%d,%d,%v) of %v", ty, d, from, to, fill, s)
							}, func() {
								A := w.mat()
								r, err := A.FOSubTensor(uint(d), from, to, fill)
								noErr("", err)
								want("result", r, exp)
								want("operand", A, w)
							})
							c.Step(1)
						}
					}
				}
			}
		}
		if c.Out() {
			return
		}
		// concatenation with every size of the second operand
		for d := range s {
			for _, k := range []uint{1, 2, 3, 4, 7, 17, 33, 65, 129, 300} {
				if k > hi && (len(s) > 2 && k > 7 || len(s) > 3 || size(s) > 5000) || !c.Mine() {
					continue
				}
				s2 := append([]uint{}, s...)
				s2[d] = k
				w2 := mkRT(s2, ids2[T]())
				exp := w.concat(w2, d)
				c.Do(func() string { return fmt.Sprintf("%s Concat of %v and %v along %d (eager)", ty, s, s2, d) }, func() {
					A, B := w.mat(), w2.mat()
					r, err := A.Concat(B, uint(d))
					noErr("", err)
					want("result", r, exp)
					want("first operand", A, w)
					want("second operand", B, w2)
				})
				for _, f := range fs {
					for _, f2 := range fs {
						if len(s) > 3 && (f.name != "leaf" || f2.name != "leaf") {
							continue
						}
						c.Do(func() string {
							return fmt.Sprintf("%s Concat of %v (%s) and %v (%s) along %d", ty, s, f.name, s2, f2.name, d)
						}, func() {
							A, B := f.mk(w), f2.mk(w2)
							r := tensor.Concat(A, B, uint(d))
							runGraph("", r)
							want("result", r, exp)
							want("first operand", A, w)
							want("second operand", B, w2)
						})
						c.Step(1)
						c.State(ty, "Concat", s, s2, d, f.name, f2.name)
					}
				}
			}
		}
		// reshape to every shape
		for _, to := range append(append([][]uint{}, small...), bigShapes...) {
			if len(s) > 3 && len(to) > 3 || !c.Mine() {
				continue
			}
			exp := w.reshape(to)
			if len(s) > 3 || len(to) > 3 || size(s) > 60 {
				c.Do(func() string { return fmt.Sprintf("%s Reshape of %v to %v", ty, s, to) }, func() {
					A := w.mat()
					want("eager", A.Reshape(to...), exp)
					g := tensor.Reshape[T](A, to...)
					runGraph("", g)
					want("graph", g, exp)
				})
				c.Step(2)
				continue
			}
			check(fmt.Sprintf("Reshape(%v)", to), w, exp,
				func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Reshape(to...), nil },
				func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Reshape(a, to...) })
		}
	}
	c04values[T](c)
	c04huge[T](c)
	c.Bound("max_dim_exhaustive", uint64(hi))
}

// c04rearrange performs every rearrangement of one tensor and decides it.
func c04rearrange[T types.Number](c *C, w RT[T], how string) {
	ty := typeName[T]()
	run := func(op string, exp RT[T], eager func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error), gr func(a tensor.Tensor[T]) tensor.Tensor[T]) {
		c.Do(func() string { return fmt.Sprintf("%s %s of %v (%s)", ty, op, w.S, how) }, func() {
			A := w.mat()
			if eager != nil {
				r, err := eager(A)
				noErr("eager", err)
				want("eager result", r, exp)
			}
			if gr != nil {
				r := gr(A)
				runGraph("graph", r)
				want("graph result", r, exp)
				x := tensor.Reshape[T](tensor.Flatten[T](A), w.S...)
				r = gr(x)
				runGraph("graph of an expression", r)
				want("graph result of an expression", r, exp)
			}
			want("operand", A, w)
		})
		c.Step(3)
		c.State(ty, op, w.S, how)
	}
	n := uint(len(w.D))
	run("Flatten", w.reshape([]uint{n}), nil, tensor.Flatten[T])
	run("Transpose", w.transpose(), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Transpose() }, tensor.Transpose[T])
	for _, to := range [][]uint{{n}, {n, 1}, {1, n}, {n + 5}, {n/2 + 1}, {2, n}, {3, n / 3}, {}} {
		to := to
		if size(to) == 0 {
			continue
		}
		run(fmt.Sprintf("Reshape(%v)", to), w.reshape(to), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Reshape(to...), nil },
			func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Reshape(a, to...) })
	}
	for d := range w.S {
		d, ud, l := d, uint(d), w.S[d]
		run(fmt.Sprintf("Concat with itself along %d", d), w.concat(w, d), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Concat(a, ud) },
			func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat(a, a, ud) })
		s2 := append([]uint{}, w.S...)
		s2[d] = 2
		b := mkRT(s2, ids2[T]())
		run(fmt.Sprintf("Concat with %v along %d", s2, d), w.concat(b, d), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Concat(b.mat(), ud) },
			func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat[T](a, b.mat(), ud) })
		run(fmt.Sprintf("Concat of %v with it along %d", s2, d), b.concat(w, d), func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return b.mat().Concat(a, ud) },
			func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat[T](b.mat(), a, ud) })
		for _, r := range [][2]uint{{0, l}, {l - 1, l}, {l / 2, l}, {0, l/2 + 1}, {l / 3, l - l/3}} {
			r := r
			if r[0] >= r[1] {
				continue
			}
			run(fmt.Sprintf("SubTensor(%d,%d,%d)", d, r[0], r[1]), w.sub(d, r[0], r[1], 0),
				func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.SubTensor(ud, r[0], r[1]) },
				func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubTensor(a, ud, r[0], r[1]) })
		}
		for _, r := range [][2]uint{{0, l + 1}, {l / 2, l + 3}, {l, l + 2}, {l + 1, 2*l + 2}, {0, l}} {
			r := r
			run(fmt.Sprintf("SubExtendedTensor(%d,%d,%d)", d, r[0], r[1]), w.sub(d, r[0], r[1], 0), nil,
				func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubExtendedTensor(a, ud, r[0], r[1]) })
			for _, fill := range []T{9, -1} {
				fill := fill
				run(fmt.Sprintf("FOSubTensor(%d,%d,%d,%v)", d, r[0], r[1], fill), w.sub(d, r[0], r[1], fill),
					func(a *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.FOSubTensor(ud, r[0], r[1], fill) }, nil)
			}
		}
	}
}

// c04values: elements are moved whatever their value is.
func c04values[T types.Number](c *C) {
	vals := smallAlphabet[T]()
	for _, s := range append(shapes(1, 4, 1, 3), []uint{2, 1, 2, 1, 2}, []uint{2, 2, 2, 2, 2}, []uint{5, 7}, []uint{4, 5, 6}) {
		for k := 0; k < 4; k++ {
			if !c.Mine() {
				continue
			}
			if c.Out() {
				return
			}
			c04rearrange(c, mkRT(s, func(i int) T {
				switch k {
				case 0:
					return vals[(i*3+1)%len(vals)]
				case 1: // mostly zero
					if i%3 == 1 {
						return T(i + 1)
					}
					return 0
				case 2: // constant
					return -2
				}
				return vals[(i*i+2)%len(vals)]
			}), fmt.Sprint("values ", k))
		}
	}
}

func c04huge[T types.Number](c *C) {
	for _, s := range hugeShapes {
		if !c.Mine() {
			continue
		}
		if c.Out() {
			return
		}
		c04rearrange(c, mkRT(s, func(i int) T { return T(i%20011 + 1) }), "many elements")
	}
}

// checkReadsQuick reads the first and last element by index.
func checkReadsQuick[T types.Number](t tensor.Tensor[T], w RT[T]) {
	if len(w.D) == 0 {
		return
	}
	first := make([]uint, len(w.S))
	last := make([]uint, len(w.S))
	for i := range last {
		last[i] = w.S[i] - 1
	}
	for _, idx := range [][]uint{first, last} {
		v, err := t.Get(idx...)
		if err != nil || !eqv(v, w.at(idx)) {
			Fail("Get(%v) of the result = %v, %v; want %v", idx, v, err, w.at(idx))
		}
	}
}

func ids2[T types.Number]() func(int) T {
	return func(i int) T { return T(-(i%20000 + 1)) }
}
