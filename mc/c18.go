package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C18", &Check{
		Run:   runC18,
		Level: "model_checking",
		Rule: "the activation functions with slope parameters x both methods x both floating-point types x every finite half-precision value (63488), every float32 whose low 10 bits are 0 or 1 (8 million; thorough: all 2^32 float32 values) and every power of two and its neighbours in float64. " +
			"The value must be the mathematical one, and the derivative that of the function, to within 32 roundings of the element type relative to 1 + |value| + |input|. state = (function, input pattern)",
		Assumptions: []string{"the mathematical values are computed in double precision with numerically stable formulas of the standard library's exp, expm1, tanh, cosh, sin, cos", "at zero, where a function has a kink, the derivative from either side is accepted", "GELU is the usual tanh approximation"},
	})
}

func runC18(c *C) {
	acts := append([]string{"relu:1", "relu:0.01", "relu:2", "relu:-0.5", "elu:2", "elu:0", "elu:-0.5", "selu:1:1", "selu:0.5:2", "selu:2:0.5", "selu:-1:-2"}, allActs...)
	for _, name := range acts {
		// half-precision values
		for blk := 0; blk < 64; blk++ {
			if c.Out() {
				return
			}
			if !c.Mine() {
				continue
			}
			xs := make([]float64, 0, 1024)
			for p := blk * 1024; p < (blk+1)*1024; p++ {
				if v := half(uint16(p)); !math.IsInf(v, 0) && !math.IsNaN(v) {
					xs = append(xs, v)
				}
			}
			c18block[float64](c, name, xs)
			c18block[float32](c, name, xs)
		}
		// powers of two and neighbours
		var xs []float64
		for e := -1074; e <= 1023; e++ {
			v := math.Ldexp(1, e)
			for _, w := range []float64{v, math.Nextafter(v, 0), math.Nextafter(v, 2*v), v * 1.5, v * 1.3} {
				xs = append(xs, w, -w)
			}
		}
		xs = append(xs, math.MaxFloat64, -math.MaxFloat64)
		if c.Mine() {
			c18block[float64](c, name, xs)
		}
		// single precision
		for blk := uint64(0); blk < 4096; blk++ {
			if c.Out() {
				return
			}
			if !c.Mine() {
				continue
			}
			c18f32(c, name, blk<<20, 1<<20)
		}
	}
}

// half is the value of a half-precision pattern, from its definition.
func half(p uint16) float64 {
	s, e, m := p>>15, int(p>>10&31), float64(p&1023)
	v := 0.0
	switch e {
	case 0:
		v = math.Ldexp(m, -24)
	case 31:
		v = math.Inf(1)
		if m != 0 {
			return math.NaN()
		}
	default:
		v = math.Ldexp(1024+m, e-25)
	}
	if s == 1 {
		v = -v
	}
	return v
}

func c18f32(c *C, name string, from, count uint64) {
	c.Do(func() string { return fmt.Sprintf("float32 %s, patterns %#x to %#x", name, from, from+count-1) }, func() {
		a, r := realActOf[float32](name), refActOf(exact32(name))
		for k := uint64(0); k < count; k++ {
			if !c.Thorough && k&1023 > 1 {
				continue
			}
			x := math.Float32frombits(uint32(from + k))
			if x != x || math.IsInf(float64(x), 0) {
				continue
			}
			c18check(name, x, a.Activate(x), a.Derive(x), r)
		}
		n := int(count >> 9)
		if c.Thorough {
			n = int(count)
		}
		c.Step(2 * n)
	})
	c.State(name, from, "f32")
}

// exact32 is the activation with its parameters rounded to single precision.
func exact32(name string) string {
	var parts []string
	cur := ""
	for _, ch := range name + ":" {
		if ch == ':' {
			parts = append(parts, cur)
			cur = ""
		} else {
			cur += string(ch)
		}
	}
	out := parts[0]
	for _, p := range parts[1:] {
		var v float64
		fmt.Sscan(p, &v)
		out += fmt.Sprintf(":%v", float64(float32(v)))
	}
	return out
}

func c18block[T types.Number](c *C, name string, xs []float64) {
	ref := name
	if !isDouble[T]() {
		ref = exact32(name)
	}
	c.Do(func() string { return fmt.Sprintf("%s %s on %d values from %v", typeName[T](), name, len(xs), xs[0]) }, func() {
		a, r := realActOf[T](name), refActOf(ref)
		for _, x := range xs {
			t := T(x)
			c18check(name, t, a.Activate(t), a.Derive(t), r)
			c.State(typeName[T](), name, x)
		}
		c.Step(2 * len(xs))
	})
	if len(xs) > 1 {
		c.Sample("%s %s at %v", typeName[T](), name, xs[1])
	}
}

func c18check[T types.Number](name string, t, f, d T, r refAct) {
	x := float64(t)
	e := 32 * ulp[T]()
	wf := r.f(x)
	if T(wf) == T(wf)+1 && math.IsInf(float64(T(wf)), 0) {
		wf = float64(T(wf))
	}
	if !(math.Abs(float64(f)-wf) <= e*(1+math.Abs(wf)+math.Abs(x))) && !(float64(f) == wf) {
		Fail("%s(%v) is %v instead of %v", name, t, f, wf)
	}
	wd := r.d(x)
	ok := math.Abs(float64(d)-wd) <= e*(1+math.Abs(wd)+math.Abs(x)) || float64(d) == wd
	if !ok && x == 0 && r.kink {
		wd2 := r.d(-1e-300)
		ok = math.Abs(float64(d)-wd2) <= e*(1+math.Abs(wd2))
	}
	if !ok {
		Fail("the derivative of %s at %v is %v instead of %v", name, t, d, wd)
	}
}
