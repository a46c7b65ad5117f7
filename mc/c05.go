package main

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C05", &Check{
		Run:   runC05,
		Level: "model_checking",
		Rule: "every pair of shapes of rank 1-3 with dimensions 1-3 (thorough: rank 4, dimensions 1-4) and every pair of dimensions of equal length, plus the default dimensions, eager and graph, 6 element types, " +
			"operands leaf or unbuilt expression; values from seven fillings (products that identify their factors, zeros in every position, sparse, integers that need every bit); operands of up to 4 elements with every content over {-2,0,1}. state = (type, shapes, dimensions), transition = one product compared",
	})
}

func runC05(c *C) {
	c05[float64](c, true)
	c05[int](c, true)
	c05[float32](c, false)
	c05[int16](c, false)
	c05[int32](c, false)
	c05[int64](c, false)
	c05tiny[float64](c)
	c05tiny[int](c)
}

func c05[T types.Number](c *C, full bool) {
	ty := typeName[T]()
	hi, rank := uint(3), 3
	if !full {
		hi = 2
	}
	if c.Thorough {
		hi, rank = hi+1, 3
	}
	all := shapes(1, rank, 1, hi)
	if full {
		all = append(all, shapes(4, 4, 1, 2)...)
	}
	big := [][]uint{{17}, {64}, {65}, {129}, {8, 9}, {9, 8}, {33, 2}, {2, 33}, {33, 33}, {2, 17, 3}, {3, 2, 17}, {17, 2, 3}, {257, 2}, {2, 257}}
	pair := func(s1, s2 []uint) {
		da0, db0 := RT[T]{S: s1}.defaultDims(RT[T]{S: s2})
		for fill := 0; fill < dotFills; fill++ {
			if size(s1)*size(s2) > 20000 && fill > 0 {
				break
			}
			a := mkRT(s1, func(i int) T { return dotFill[T](fill, i, 0) })
			b := mkRT(s2, func(i int) T { return dotFill[T](fill, i, 1) })
			for da := range s1 {
				for db := range s2 {
					if s1[da] != s2[db] || size(s1)/int(s1[da])*(size(s2)/int(s2[db])) > 200000 {
						continue
					}
					exp := a.dot(b, da, db)
					c.State(ty, s1, s2, da, db)
					c.Sample("%s dot of %v and %v over %d and %d gives %v", ty, s1, s2, da, db, exp.S)
					c.Do(func() string {
						return fmt.Sprintf("%s DotAt(%d,%d) of %v %v and %v %v", ty, da, db, s1, short(a.D), s2, short(b.D))
					}, func() {
						A, B := a.mat(), b.mat()
						r, err := A.DotAt(B, uint(da), uint(db))
						noErr("eager", err)
						wantNear("eager", r, exp)
						g := tensor.DotAt[T](A, B, uint(da), uint(db))
						runGraph("graph", g)
						wantNear("graph", g, exp)
						if fill == 0 {
							x := tensor.Neg[T](tensor.Neg[T](A))
							y := tensor.Transpose[T](b.transpose().mat())
							g := tensor.DotAt[T](x, y, uint(da), uint(db))
							runGraph("graph of expressions", g)
							wantNear("graph of expressions", g, exp)
						}
						if da == da0 && db == db0 {
							r, err := A.Dot(B)
							noErr("eager Dot", err)
							wantNear("eager Dot", r, exp)
							g := tensor.Dot[T](A, B)
							runGraph("graph Dot", g)
							wantNear("graph Dot", g, exp)
							x := tensor.Reshape[T](tensor.Neg[T](tensor.Neg[T](A)), s1...)
							y := tensor.Reshape[T](tensor.Neg[T](tensor.Neg[T](B)), s2...)
							g = tensor.Dot[T](x, y)
							runGraph("graph Dot of expressions", g)
							wantNear("graph Dot of expressions", g, exp)
						}
						if len(s1) == 1 && len(s2) == 1 {
							r, err := A.DotVector(B)
							noErr("DotVector", err)
							wantNear("DotVector", r, exp)
						}
						want("first operand", A, a)
						want("second operand", B, b)
					})
					c.Step(3)
				}
			}
			if sameShape(s1, s2) {
				for d := range s1 {
					for e := range s1 {
						if n := size(s1) / int(s1[d]); s1[d] != s1[e] || n*n > 200000 {
							continue
						}
						exp := a.dot(a, d, e)
						c.Do(func() string { return fmt.Sprintf("%s DotAt(%d,%d) of %v with itself", ty, d, e, s1) }, func() {
							A := a.mat()
							r, err := A.DotAt(A, uint(d), uint(e))
							noErr("eager", err)
							wantNear("eager", r, exp)
							g := tensor.DotAt[T](A, A, uint(d), uint(e))
							runGraph("graph", g)
							wantNear("graph", g, exp)
							if d == da0 && e == db0 {
								r, err := A.Dot(A)
								noErr("eager Dot", err)
								wantNear("eager Dot", r, exp)
								g := tensor.Dot[T](A, A)
								runGraph("graph Dot", g)
								wantNear("graph Dot", g, exp)
							}
							if len(s1) == 1 {
								r, err := A.DotVector(A)
								noErr("DotVector", err)
								wantNear("DotVector", r, exp)
							}
							want("operand", A, a)
						})
						c.Step(2)
					}
				}
			}
		}
	}
	for _, s1 := range all {
		for _, s2 := range all {
			if len(s1)+len(s2) > 6 || !c.Mine() {
				continue
			}
			pair(s1, s2)
			if c.Out() {
				return
			}
		}
	}
	for _, s1 := range big {
		for _, s2 := range big {
			if !c.Mine() {
				continue
			}
			pair(s1, s2)
			if c.Out() {
				return
			}
		}
	}
	for _, k := range [][2][]uint{{{70000}, {70000}}, {{300, 301}, {301, 2}}, {{2, 70000}, {70000, 2}}, {{300, 2}, {2, 301}}, {{66000, 2}, {2}}, {{3}, {3, 33000}},
		{{2, 1, 2, 1, 3}, {3, 2}}, {{2, 3}, {1, 2, 3, 2, 2}}, {{2, 2, 2, 2}, {2, 2, 2, 2}}, {{3, 2, 1, 2}, {2, 3, 1, 2}}, {{1, 1, 1, 1, 1}, {1, 1, 1, 1}}} {
		if !c.Mine() {
			continue
		}
		pair(k[0], k[1])
		if c.Out() {
			return
		}
	}
	c.Bound("max_dim_exhaustive", uint64(hi))
}

const dotFills = 8

// dotFill gives small values whose products and sums are exact in every type,
// then, for integers, values whose products need every bit of the type.
func dotFill[T types.Number](fill, i, side int) T {
	switch fill {
	case 0:
		if side == 0 {
			return T(i%7 + 1)
		}
		return T((i*5+2)%11 - 5)
	case 1:
		return T((i*i+3*i*(side+1)+side)%13 - 6)
	case 2:
		if (i*7+side*3)%5 == 0 {
			return T(i%4 + 1)
		}
		return T((i*(3-side))%3 - 1)
	case 3: // zeros in every position of a run, on both sides
		return T((i*2+side)%3-1) * T(i+1)
	case 4: // sparse
		if (i+side)%4 == 1 {
			return T(3 - i%7)
		}
		return 0
	case 5: // first factor zero, then negative
		if i%2 == side {
			return 0
		}
		return T(-i - 1)
	}
	if fill == 7 && isFloat[T]() { // zeros against infinities and not-a-numbers
		switch {
		case (i+side)%3 == 0:
			return 0
		case i%5 == 1 && side == 0:
			return T(math.Inf(1))
		case i%7 == 2 && side == 1:
			return T(math.NaN())
		}
		return T(i%4 + 1)
	}
	if isFloat[T]() {
		return T((i*3+side)%5-2) * T(int64(1)<<(i%9)) / 12
	}
	if side == 0 {
		var z T
		return T(int64(1)<<(unsafe.Sizeof(z)*8-2) - int64(i*3+1))
	}
	return T(i%3 - 1)
}

// c05tiny explores all contents of small operands.
func c05tiny[T types.Number](c *C) {
	vals := []T{-2, 0, 1, 3}
	if !c.Thorough {
		vals = []T{-2, 0, 1}
	}
	type cs struct {
		s1, s2 []uint
		da, db int
	}
	for _, k := range []cs{
		{[]uint{1}, []uint{1}, 0, 0}, {[]uint{2}, []uint{2}, 0, 0}, {[]uint{3}, []uint{3}, 0, 0}, {[]uint{4}, []uint{4}, 0, 0},
		{[]uint{2, 2}, []uint{2, 2}, 1, 0}, {[]uint{2, 2}, []uint{2}, 0, 0}, {[]uint{2, 2}, []uint{2, 2}, 0, 1},
		{[]uint{1, 3}, []uint{3, 1}, 1, 0}, {[]uint{3, 1}, []uint{1, 3}, 1, 0}, {[]uint{3}, []uint{1, 3}, 0, 1},
	} {
		n1, n2 := size(k.s1), size(k.s2)
		total := 1
		for i := 0; i < n1+n2; i++ {
			total *= len(vals)
		}
		for code := 0; code < total; code++ {
			if !c.Mine() {
				continue
			}
			if c.Out() {
				return
			}
			x := code
			next := func(int) T { v := vals[x%len(vals)]; x /= len(vals); return v }
			a := mkRT(k.s1, next)
			b := mkRT(k.s2, next)
			exp := a.dot(b, k.da, k.db)
			c.Do(func() string {
				return fmt.Sprintf("%s DotAt(%d,%d) of %v %v and %v %v", typeName[T](), k.da, k.db, k.s1, a.D, k.s2, b.D)
			}, func() {
				A, B := a.mat(), b.mat()
				r, err := A.DotAt(B, uint(k.da), uint(k.db))
				noErr("eager", err)
				wantNear("eager", r, exp)
				g := tensor.DotAt[T](A, B, uint(k.da), uint(k.db))
				runGraph("graph", g)
				wantNear("graph", g, exp)
				if len(k.s1) == 1 && len(k.s2) == 1 {
					r, err := A.DotVector(B)
					noErr("DotVector", err)
					wantNear("DotVector", r, exp)
				}
				want("first operand", A, a)
				want("second operand", B, b)
			})
			c.Step(2)
			c.State("tiny", typeName[T](), k.s1, k.s2, k.da, k.db, code)
		}
	}
}
