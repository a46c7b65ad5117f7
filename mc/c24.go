package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C24", &Check{
		Run:         runC24,
		Level:       "model_checking",
		Rule:        "6 element types x all shapes of rank 0 to 3 with dimensions 1 to 3 and at most 6 elements x 22 pairs of bounds x every sequence of answers of the random source over {0, 2^-53, 1/4, 1/2, 1 - 2^-53} (at most 5 draws exhaustively, one-answer and all-distinct sequences beyond, up to 90300 elements): every element between the bounds, as many draws as elements, every element determined by a draw of its own (distinct answers give the corresponding elements). state = (type, shape, bounds, answers)",
		Assumptions: []string{"the difference of the bounds is representable (no overflow)", "bounds are compared in the element type, to within one rounding; integer tensors get integer bounds", "draws come from the package-level functions of math/rand; were another source used, only range and distinctness of the elements are decided"},
	})
}

func runC24(c *C) {
	c24[float64](c)
	c24[float32](c)
	c24[int](c)
	c24[int16](c)
	c24[int32](c)
	c24[int64](c)
}

var c24answers = []float64{0, math.Ldexp(1, -53), 0.25, 0.5, 1 - math.Ldexp(1, -53)}

func c24[T types.Number](c *C) {
	bounds := [][2]float64{{0, 1}, {-1, 1}, {0, 0}, {5, 5}, {-3, -1}, {2, 9}, {-100, 100}, {1, 0}, {3, -3}, {0, 1000}, {-7, 0}, {-20000, 20000}, {10, 11}, {-1, 0}, {127, 129}, {0, 32767}, {-32768, 0}}
	if isFloat[T]() {
		bounds = append(bounds, [2]float64{0.1, 0.3}, [2]float64{-0.7, 0.7}, [2]float64{1e-8, 2e-8}, [2]float64{1e8, 1e8 + 1}, [2]float64{-1e30, 1e30})
	}
	for _, s := range shapes(0, 3, 1, 3) {
		n := size(s)
		if n > 6 && !c.Thorough {
			continue
		}
		for _, b := range bounds {
			if c.Out() || !c.Mine() {
				continue
			}
			c24uniform[T](c, s, b[0], b[1])
		}
		if c.Mine() {
			c24norm[T](c, s)
		}
	}
	for _, b := range bounds {
		if c.Mine() {
			c24scalar[T](c, b[0], b[1])
		}
	}
	for _, s := range [][]uint{{7}, {10}, {17}, {33}, {65}, {101}, {129}, {257}, {16, 17}, {3, 4, 5, 2}, {2, 2, 2, 2, 2}, {1025}, {64, 65}, {70000}, {300, 301}} {
		if c.Out() {
			return
		}
		if c.Mine() {
			c24norm[T](c, s)
			c24uniform[T](c, s, -2, 3)
			c24uniform[T](c, s, -1, 1)
			c24uniform[T](c, s, 0, 1)
		}
	}
}

func between[T types.Number](v T, min, max float64) bool {
	if min > max {
		min, max = max, min
	}
	lo, hi := float64(T(min)), float64(T(max))
	e := 2 * ulp[T]() * math.Max(math.Abs(lo), math.Abs(hi))
	if !isFloat[T]() {
		e = 0
	}
	return float64(v) >= lo-e && float64(v) <= hi+e
}

// draw runs f with the random source answering seq, one by one.
func draw(seq []float64, f func()) (draws int) {
	h := &Choices{options: func(string, int64) (int, func(int) float64) {
		return 1, func(int) float64 { return 0 }
	}}
	h.options = func(kind string, n int64) (int, func(int) float64) {
		v := seq[(h.Draws-1)%len(seq)]
		return 1, func(int) float64 { return v }
	}
	h.run(f)
	return h.Draws
}

func c24uniform[T types.Number](c *C, s []uint, min, max float64) {
	n := size(s)
	one := func(seq []float64, distinct bool) {
		c.Do(func() string {
			return fmt.Sprintf("NewRand[%s](%v, %v, %v) with answers %v", typeName[T](), min, max, s, short(seq))
		}, func() {
			var t *tensor.TensorMat[T]
			draws := draw(seq, func() { t = tensor.NewRand[T](min, max, s...) })
			if !sameShape(t.GetShape(), s) || len(t.GetData()) != n {
				Fail("shape %v with %d elements", t.GetShape(), len(t.GetData()))
			}
			for i, v := range t.GetData() {
				if !between(v, min, max) {
					Fail("element %d is %v", i, v)
				}
			}
			if draws == 0 && n > 0 {
				c24distinct(t.GetData(), isFloat[T]() && max-min >= 1)
				return
			}
			if draws != n {
				Fail("%d draws for %d elements", draws, n)
			}
			if distinct {
				// element = min + answer (max - min), for one answer each
				var w []float64
				for i := 0; i < n; i++ {
					w = append(w, seq[i%len(seq)]*(max-min)+min)
				}
				c24match(t.GetData(), w, min, max)
			}
			c.Step(1)
			c.State(typeName[T](), s, min, max, seq)
		})
	}
	// distinct answers
	var seq []float64
	for i := 0; i < n; i++ {
		seq = append(seq, (float64((i*7)%n)+0.5)/float64(n))
	}
	one(seq, true)
	if n > 5 {
		for _, a := range c24answers {
			one([]float64{a}, true)
		}
		return
	}
	seqs(len(c24answers), n, func(k []int) {
		var q []float64
		for _, i := range k {
			q = append(q, c24answers[i])
		}
		if len(q) > 0 {
			one(q, true)
		}
	})
	c.Sample("%v", short(seq))
}

func c24distinct[T types.Number](d []T, f bool) {
	if !f {
		return
	}
	seen := map[T]int{}
	for i, v := range d {
		if j, ok := seen[v]; ok {
			Fail("elements %d and %d are both %v", j, i, v)
		}
		seen[v] = i
	}
}

// c24match: the elements are, in some order, the expected values, to within
// rounding (for integers: one of the two neighbouring integers).
func c24match[T types.Number](d []T, w []float64, min, max float64) {
	scale := math.Max(math.Abs(min), math.Abs(max))
	g := toF(d)
	sort.Float64s(g)
	w = append([]float64{}, w...)
	sort.Float64s(w)
	for i := range g {
		e := 8 * ulp[T]() * (math.Max(scale, 1e-3) + math.Abs(w[i]))
		if !isFloat[T]() {
			e = 1
		}
		if math.Abs(g[i]-w[i]) > e {
			Fail("the elements %v are not made from one draw each (%v)", short(d), short(w))
		}
	}
}

func c24norm[T types.Number](c *C, s []uint) {
	n := size(s)
	c.Do(func() string { return fmt.Sprintf("NewNormRand[%s](%v)", typeName[T](), s) }, func() {
		var seq []float64
		for i := 0; i < n; i++ {
			v := float64((i*5)%n)*1.25 - float64(n)/2
			if n > 1000 {
				v *= 1000 / float64(n)
			}
			seq = append(seq, v)
		}
		if n == 0 {
			seq = []float64{1}
		}
		var t *tensor.TensorMat[T]
		draws := draw(seq, func() { t = tensor.NewNormRand[T](s...) })
		if !sameShape(t.GetShape(), s) || len(t.GetData()) != n {
			Fail("shape %v with %d elements", t.GetShape(), len(t.GetData()))
		}
		if draws == 0 && n > 0 {
			c24distinct(t.GetData(), isFloat[T]())
			return
		}
		if draws != n {
			Fail("%d draws for %d elements", draws, n)
		}
		c24match(t.GetData(), seq[:n], 0, 0)
		c.Step(1)
		c.State(typeName[T](), s, "norm")
	})
}

func c24scalar[T types.Number](c *C, min, max float64) {
	for _, a := range append([]float64{0.1, 0.75, 0.999999999}, c24answers...) {
		a := a
		c.Do(func() string { return fmt.Sprintf("ScalarRand[%s](%v, %v) with answer %v", typeName[T](), min, max, a) }, func() {
			var s *number.Scalar[T]
			draws := draw([]float64{a}, func() { s = number.ScalarRand[T](T(min), T(max)) })
			if !between(s.Value, min, max) {
				Fail("%v", s.Value)
			}
			if draws > 1 {
				Fail("%d draws", draws)
			}
			if draws == 1 && isFloat[T]() {
				c24match([]T{s.Value}, []float64{a*(float64(T(max))-float64(T(min))) + float64(T(min))}, min, max)
			}
			c.Step(1)
		})
	}
	for _, a := range []float64{0, 1.5, -2.25, 40} {
		a := a
		c.Do(func() string { return fmt.Sprintf("ScalarNorm[%s] with answer %v", typeName[T](), a) }, func() {
			var s *number.Scalar[T]
			draws := draw([]float64{a}, func() { s = number.ScalarNorm[T]() })
			if draws == 0 {
				return
			}
			if draws != 1 {
				Fail("%d draws", draws)
			}
			c24match([]T{s.Value}, []float64{a}, 0, 0)
			c.Step(1)
		})
	}
}
