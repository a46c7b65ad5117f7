package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C01", &Check{
		Run:   runC01,
		Level: "model_checking",
		Rule: "every shape of rank 0-4 with dimensions 0-3 (thorough: 0-4), plus larger shapes; every way to obtain the tensor; " +
			"every index of every length from 0 to rank+2 with coordinates 0..dim+1 and coordinates that wrap around; " +
			"state = (type, source, shape, position written), transition = one read or write compared with the flat model",
	})
}

func runC01(c *C) {
	c01[float64](c)
	c01[int16](c)
	c01[float32](c)
	c01[int](c)
	c01[int32](c)
	c01[int64](c)
}

// sources lists the ways of obtaining a tensor with a given content.
func sources[T types.Number]() map[string]func(w RT[T]) tensor.Tensor[T] {
	g := func(mk func(t *tensor.TensorMat[T], w RT[T]) tensor.Tensor[T]) func(w RT[T]) tensor.Tensor[T] {
		return func(w RT[T]) tensor.Tensor[T] {
			t := mk(w.mat(), w)
			runGraph("source", t)
			return t
		}
	}
	zero := &number.Scalar[T]{}
	load := func(mk func(s []uint) tensor.Tensor[T]) func(w RT[T]) tensor.Tensor[T] {
		return func(w RT[T]) tensor.Tensor[T] {
			t := mk(append([]uint{}, w.S...))
			noErr("LoadData", t.LoadData(w.D))
			return t
		}
	}
	return map[string]func(w RT[T]) tensor.Tensor[T]{
		"NewZeros": func(w RT[T]) tensor.Tensor[T] { return w.mat() },
		"NewOnes": func(w RT[T]) tensor.Tensor[T] {
			t := tensor.NewOnes[T](w.S...)
			for i, o := range t.GetOperands() {
				if o.Value != 1 {
					Fail("NewOnes: element %d is %v", i, o.Value)
				}
			}
			noErr("LoadData", t.LoadData(w.D))
			return t
		},
		"NewFromValues": func(w RT[T]) tensor.Tensor[T] { return tensor.NewFromValues(w.D, w.S...) },
		"NewRand": func(w RT[T]) tensor.Tensor[T] {
			t := tensor.NewRand[T](0, 1, w.S...)
			noErr("LoadData", t.LoadData(w.D))
			return t
		},
		"NewNormRand": func(w RT[T]) tensor.Tensor[T] {
			t := tensor.NewNormRand[T](w.S...)
			noErr("LoadFromTensor", t.LoadFromTensor(w.mat()))
			return t
		},
		"Copy":      func(w RT[T]) tensor.Tensor[T] { return w.mat().Copy() },
		"Reshape":   func(w RT[T]) tensor.Tensor[T] { return tensor.NewFromValues(w.D, uint(len(w.D))).Reshape(w.S...) },
		"Neg":       func(w RT[T]) tensor.Tensor[T] { return w.mat().Neg().Neg() },
		"AddScalar": func(w RT[T]) tensor.Tensor[T] { return w.mat().AddScalar(zero) },
		"graphReshape": g(func(t *tensor.TensorMat[T], w RT[T]) tensor.Tensor[T] {
			return tensor.Reshape[T](tensor.Flatten[T](t), w.S...)
		}),
		// results of other operations, loaded with the content afterwards
		"noValues": load(func(s []uint) tensor.Tensor[T] { return tensor.NewFromValues[T](nil, s...) }),
		"grown":    load(func(s []uint) tensor.Tensor[T] { return tensor.NewOnes[T](1).Reshape(s...) }),
		"shrunk":   load(func(s []uint) tensor.Tensor[T] { return tensor.NewOnes[T](uint(size(s)) + 2).Reshape(s...) }),
		"transposed": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](reversed(s)...).Transpose()
			noErr("Transpose", err)
			return t
		}),
		"past": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](s...).FOSubTensor(0, s[0], 2*s[0], 7)
			noErr("FOSubTensor", err)
			return t
		}),
		"partlyPast": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](s...).FOSubTensor(uint(len(s)-1), 1, 1+s[len(s)-1], 7)
			noErr("FOSubTensor", err)
			return t
		}),
		"range": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](with(s, 0, 3)...).SubTensor(0, 1, 1+s[0])
			noErr("SubTensor", err)
			return t
		}),
		"joined": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](s...).Concat(tensor.NewOnes[T](with(s, 0, -int(s[0])+2)...), 0)
			noErr("Concat", err)
			t2, err := t.SubTensor(0, 1, 1+s[0])
			noErr("SubTensor", err)
			return t2
		}),
		"summed": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](append(append([]uint{}, s...), 2)...).DSum(uint(len(s) - 1))
			noErr("DSum", err)
			return t
		}),
		"dot": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](append(append([]uint{}, s...), 2)...).Dot(tensor.NewOnes[T](2))
			noErr("Dot", err)
			return t
		}),
		"multiplied": load(func(s []uint) tensor.Tensor[T] {
			t, err := tensor.NewOnes[T](s...).Mul(tensor.NewZeros[T](s...))
			noErr("Mul", err)
			return t
		}),
		"activated": load(func(s []uint) tensor.Tensor[T] { return tensor.NewOnes[T](s...).Activate(func(T) T { return 3 }) }),
		"graphGrown": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.Reshape[T](tensor.NewOnes[T](1), s...)
			runGraph("source", t)
			return t
		}),
		"graphPast": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.SubExtendedTensor[T](tensor.NewOnes[T](s...), 0, s[0], 2*s[0])
			runGraph("source", t)
			return t
		}),
		"graphRange": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.SubTensor[T](tensor.NewOnes[T](with(s, 0, 3)...), 0, 1, 1+s[0])
			runGraph("source", t)
			return t
		}),
		"graphDot": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.Dot[T](tensor.NewOnes[T](append(append([]uint{}, s...), 2)...), tensor.NewOnes[T](2))
			runGraph("source", t)
			return t
		}),
		"graphSummed": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.DSum[T](tensor.NewOnes[T](append(append([]uint{}, s...), 2)...), uint(len(s)-1))
			runGraph("source", t)
			return t
		}),
		"graphScaled": load(func(s []uint) tensor.Tensor[T] {
			t := tensor.MulScalar[T](tensor.NewOnes[T](s...), zero)
			runGraph("source", t)
			return t
		}),
		"loadedFull": func(w RT[T]) tensor.Tensor[T] { return fromStream(tensor.NewOnes[T](2, 3, 2), w) },
		"loadedFullReversed": func(w RT[T]) tensor.Tensor[T] {
			return fromStream(tensor.NewOnes[T](reversed(w.S)...), w)
		},
		"loadedFullFlat": func(w RT[T]) tensor.Tensor[T] {
			return fromStream(tensor.NewOnes[T](uint(len(w.D))), w)
		},
		"graphAdd": g(func(t *tensor.TensorMat[T], w RT[T]) tensor.Tensor[T] {
			return tensor.Add[T](t, tensor.NewZeros[T](w.S...))
		}),
		"graphTT": g(func(t *tensor.TensorMat[T], w RT[T]) tensor.Tensor[T] {
			return tensor.Transpose(tensor.Transpose[T](t))
		}),
	}
}

// fromStream loads the tensor, with its shape, into t.
func fromStream[T types.Number](t tensor.Tensor[T], w RT[T]) tensor.Tensor[T] {
	var b bytes.Buffer
	noErr("SaveFull", w.mat().SaveFull(&b))
	noErr("LoadFull", t.LoadFull(&b))
	return t
}

var sourceOrder = []string{
	"NewZeros", "NewOnes", "NewFromValues", "NewRand", "NewNormRand", "Copy", "Reshape", "Neg", "AddScalar",
	"graphReshape", "graphAdd", "graphTT",
	"noValues", "grown", "shrunk", "transposed", "past", "partlyPast", "range", "joined", "summed", "dot", "multiplied", "activated",
	"loadedFull", "loadedFullReversed", "loadedFullFlat",
	"graphGrown", "graphPast", "graphRange", "graphDot", "graphSummed", "graphScaled",
}

// plainSources are the sources for shapes without dimensions or elements.
var plainSources = 11

func reversed(s []uint) []uint {
	out := make([]uint, len(s))
	for i := range s {
		out[len(s)-1-i] = s[i]
	}
	return out
}

// with is s with dimension d larger by k.
func with(s []uint, d, k int) []uint {
	out := append([]uint{}, s...)
	out[d] = uint(int(out[d]) + k)
	return out
}

func ids[T types.Number](n, base int) func(int) T {
	return func(i int) T { return T(i%20000 + base) }
}

func c01[T types.Number](c *C) {
	hi := uint(3)
	if c.Thorough {
		hi = 4
	}
	all := append(append(shapes(0, 4, 0, hi), bigShapes...), hugeShapes...)
	src := sources[T]()
	for si, s := range all {
		big := size(s) > 300 || len(s) > 4
		for k, name := range sourceOrder {
			if !c.Mine() {
				continue
			}
			if (size(s) == 0 || len(s) == 0) && k >= plainSources {
				continue
			}
			if k >= plainSources+1 && size(s) > 5000 && k%4 != si%4 {
				continue
			}
			s, name := s, name
			desc := func() string { return fmt.Sprintf("%s tensor of shape %v made by %s", typeName[T](), s, name) }
			c.Do(desc, func() {
				w := mkRT(s, ids[T](size(s), 1))
				t := src[name](w)
				want(name, t, w)
				c.State(typeName[T](), name, s)
				c.Sample("%s", desc())
				checkReads(c, t, w)
				checkBadIndices(c, t, w, big)
				checkWrites(c, t, w, big)
				want("after rejected writes", t, w)
			})
			if c.Out() {
				return
			}
		}
		// lists that are shorter or longer than the shape
		if c.Mine() && (!big || si%3 == 0) {
			n := size(s)
			for k := 0; k <= n+3; k++ {
				if n > 100 && k > 3 && k < n-3 {
					continue
				}
				k, s := k, s
				c.Do(func() string { return fmt.Sprintf("NewFromValues of %d values, shape %v", k, s) }, func() {
					vals := make([]T, k)
					for i := range vals {
						vals[i] = T(i%20000 + 1)
					}
					t := tensor.NewFromValues(vals, s...)
					want("NewFromValues", t, mkRT(s, func(i int) T {
						if i < k {
							return vals[i]
						}
						return 0
					}))
					c.Step(1)
					if n <= 100 {
						checkWrites(c, t, mkRT(s, func(i int) T {
							if i < k {
								return vals[i]
							}
							return 0
						}), false)
					}
				})
			}
		}
	}
	c.Bound("max_rank", 6)
	c.Bound("max_dim_exhaustive", uint64(hi))
}

func checkReads[T types.Number](c *C, t tensor.Tensor[T], w RT[T]) {
	n := 0
	indices(w.S, func(idx []uint) {
		v, err := t.Get(append([]uint{}, idx...)...)
		if err != nil || !eqv(v, w.at(idx)) {
			Fail("Get(%v) = %v, %v; want %v", idx, v, err, w.at(idx))
		}
		o, err := t.GetOperand(append([]uint{}, idx...)...)
		if err != nil || o == nil || !eqv(o.Value, w.at(idx)) {
			Fail("GetOperand(%v) = %v, %v", idx, o, err)
		}
		n += 2
	})
	c.Step(n)
}

func checkWrites[T types.Number](c *C, t tensor.Tensor[T], w RT[T], big bool) {
	n := 0
	indices(w.S, func(idx []uint) {
		p := w.pos(idx)
		if big && p > 70 && p < len(w.D)-70 && p%37 != 0 {
			return
		}
		if len(w.D) > 60000 && p%4099 > 1 && p < len(w.D)-3 {
			return
		}
		nv := T(-(p%20000 + 1))
		noErr("Set", t.Set(nv, append([]uint{}, idx...)...))
		w.D[p] = nv
		got := t.GetData()
		if big {
			for i := range got {
				if !eqv(got[i], w.D[i]) {
					Fail("after Set(%v, %v): element %d is %v instead of %v", nv, idx, i, got[i], w.D[i])
				}
			}
		} else {
			want(fmt.Sprintf("after Set(%v, %v)", nv, idx), t, w)
		}
		v, err := t.Get(idx...)
		if err != nil || !eqv(v, nv) {
			Fail("Get after Set(%v, %v) = %v, %v", nv, idx, v, err)
		}
		n += 2
		if len(w.D) > 40 {
			return
		}
		// every pair of extreme values, one written over the other
		for _, a := range extremes[T]() {
			for _, b := range extremes[T]() {
				noErr("Set", t.Set(a, idx...))
				noErr("Set", t.Set(b, idx...))
				v, err := t.Get(idx...)
				if err != nil || !eqv(v, b) || math.Signbit(float64(v)) != math.Signbit(float64(b)) && v == v {
					Fail("Set(%v, %v), then Set(%v): Get gives %v, %v", a, idx, b, v, err)
				}
				n++
			}
		}
		noErr("Set", t.Set(nv, idx...))
	})
	c.Step(n)
}

// extremes are the values that are easily mistaken for each other.
func extremes[T types.Number]() []T {
	one := T(1)
	if half := one / 2; half == 0 { // integers
		big := T(127)
		for big*2+1 > big {
			big = big*2 + 1
		}
		return []T{0, 1, -one, big, -big, -big - 1}
	}
	inf := T(math.Inf(1))
	negZero := T(math.Copysign(0, -1))
	small := math.SmallestNonzeroFloat32
	tiny := T(small)
	return []T{0, negZero, 1, -one, inf, -inf, inf - inf, tiny, -tiny}
}

func checkBadIndices[T types.Number](c *C, t tensor.Tensor[T], w RT[T], big bool) {
	n := 0
	bad := func(idx []uint) {
		n += 3
		if v, err := t.Get(append([]uint{}, idx...)...); err == nil {
			Fail("Get(%v) = %v without an error", idx, v)
		}
		if o, err := t.GetOperand(append([]uint{}, idx...)...); err == nil {
			Fail("GetOperand(%v) = %v without an error", idx, o)
		}
		if err := t.Set(99, append([]uint{}, idx...)...); err == nil {
			Fail("Set(99, %v) without an error", idx)
		}
	}
	// wrong number of coordinates
	for l := 0; l <= len(w.S)+2; l++ {
		if l == len(w.S) {
			continue
		}
		for v := uint(0); v < 3; v++ {
			idx := make([]uint, l)
			for i := range idx {
				idx[i] = v
			}
			bad(idx)
		}
		bad(make([]uint, l))
	}
	if len(w.S) == 0 {
		return
	}
	// every combination of coordinates from 0 to dim+1 that is out of range
	box := make([]uint, len(w.S))
	for i := range box {
		box[i] = w.S[i] + 2
	}
	if size(box) <= 1300 {
		indices(box, func(idx []uint) {
			for i := range idx {
				if idx[i] >= w.S[i] {
					bad(idx)
					return
				}
			}
		})
	}
	// one coordinate out of range, also so far that the position wraps around
	for i := range w.S {
		for _, v := range []uint{w.S[i], w.S[i] + 1, w.S[i] * 2, 1 << 31, 1 << 32, 1 << 62, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - w.S[i]} {
			if v < w.S[i] {
				continue
			}
			for fill := 0; fill < 2; fill++ {
				idx := make([]uint, len(w.S))
				for j := range idx {
					if fill == 1 && w.S[j] > 0 {
						idx[j] = w.S[j] - 1
					}
				}
				idx[i] = v
				bad(idx)
			}
		}
		// a coordinate whose offset, modulo 2^64, is inside the data
		mul := uint(size(w.S[i+1:]))
		if mul > 0 && mul&(mul-1) == 0 && mul > 1 {
			idx := make([]uint, len(w.S))
			idx[i] = (1<<63)/(mul/2) + 0
			if idx[i] >= w.S[i] {
				bad(idx)
			}
		}
		// a coordinate out of range balanced by a smaller one in range
		if i > 0 && w.S[i-1] > 1 {
			idx := make([]uint, len(w.S))
			idx[i] = w.S[i]
			bad(idx)
		}
	}
	c.Step(n)
}
