package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/julioguillermo/godeep/scalar"
)

func init() {
	register("C19", &Check{
		Run:   runC19,
		Level: "model_checking",
		Rule: "all 65536 half-precision patterns (value, classification, copy, text); all 2^32 single-precision patterns converted to half precision against the definition (nearest, ties to even, through a table of midpoints); half-precision arithmetic, in-place arithmetic and comparison on all pairs of a set of 650 patterns (every exponent and sign with boundary significands; thorough: all 2^32 pairs) correctly rounded from the exact result; " +
			"single and double precision on all pairs of 200 boundary values, and all mixed pairs. state = (pattern) or (pair, operation)",
		Assumptions: []string{"an operand of another precision may be converted before or after the operation; where the roundings differ either is accepted",
			"comparison with NaN is not specified", "exact results come from math/big or from double precision where that is exact"},
	})
}

func runC19(c *C) {
	c19patterns(c)
	c19convert(c)
	c19pairs16(c)
	c19wide(c)
	c19mixed(c)
}

// nearest16 rounds an exact real (given in double precision with a sticky
// direction: the true value is v plus an infinitesimal of sign d) to half
// precision, ties to even.
func nearest16(v float64, d int) uint16 {
	s := uint16(0)
	if math.Signbit(v) {
		s = 0x8000
		v, d = -v, -d
	}
	switch {
	case math.IsNaN(v):
		return 0x7e00
	case math.IsInf(v, 0) || v > 65520 || v == 65520 && d >= 0:
		return s | 0x7c00
	}
	// exponent of the unit in the last place
	e := -24
	if v >= math.Ldexp(1, -14) {
		_, x := math.Frexp(v)
		e = x - 11
	}
	q := math.Ldexp(v, -e)
	f := math.Floor(q)
	r := q - f // exact
	up := r > 0.5 || r == 0.5 && (d > 0 || d == 0 && math.Mod(f, 2) == 1)
	if r == 0 && d < 0 {
		// just below a representable number
		up = false
		// rounds back up to f
	}
	if up {
		f++
	}
	w := math.Ldexp(f, e)
	if w >= 65536 {
		return s | 0x7c00
	}
	if w < math.Ldexp(1, -14) {
		return s | uint16(math.Ldexp(w, 24))
	}
	m, x := math.Frexp(w)
	return s | uint16(x+14)<<10 | uint16(math.Ldexp(m, 11))&1023
}

func sameHalf(a, b uint16) bool {
	nan := func(p uint16) bool { return p&0x7c00 == 0x7c00 && p&1023 != 0 }
	return a == b || nan(a) && nan(b)
}

func c19patterns(c *C) {
	for blk := 0; blk < 64; blk++ {
		if c.Out() || !c.Mine() {
			continue
		}
		blk := blk
		c.Do(func() string { return fmt.Sprintf("half-precision patterns %#x to %#x", blk*1024, blk*1024+1023) }, func() {
			for k := blk * 1024; k < (blk+1)*1024; k++ {
				p := uint16(k)
				v := half(p)
				f := &scalar.F16{Value: p}
				g := f.G32()
				if math.IsNaN(v) != (g != g) || !math.IsNaN(v) && (float64(g) != v || math.Signbit(float64(g)) != math.Signbit(v)) {
					Fail("pattern %#04x converts to %v instead of %v", p, g, v)
				}
				if g64 := f.G64(); math.IsNaN(v) != (g64 != g64) || !math.IsNaN(v) && (g64 != v || math.Signbit(g64) != math.Signbit(v)) {
					Fail("pattern %#04x converts to double %v instead of %v", p, g64, v)
				}
				exp, man := p>>10&31, p&1023
				pred := func(name string, got, want bool) {
					if got != want {
						Fail("%s of pattern %#04x is %v", name, p, got)
					}
				}
				pred("IsNaN", f.IsNaN(), exp == 31 && man != 0)
				pred("IsQuietNaN", f.IsQuietNaN(), exp == 31 && man >= 512)
				pred("IsFinite", f.IsFinite(), exp != 31)
				pred("IsNormal", f.IsNormal(), exp != 31 && exp != 0)
				pred("Signbit", f.Signbit(), p >= 0x8000)
				inf, neg := exp == 31 && man == 0, p >= 0x8000
				pred("IsInf(0)", f.IsInf(0), inf)
				pred("IsInf(1)", f.IsInf(1), inf && !neg)
				pred("IsInf(-1)", f.IsInf(-1), inf && neg)
				pred("IsInf(7)", f.IsInf(7), inf && !neg)
				pred("IsInf(-7)", f.IsInf(-7), inf && neg)
				if f.Value != p {
					Fail("pattern %#04x became %#04x by being read", p, f.Value)
				}
				// there and back, by every way in
				for i, b := range []*scalar.F16{scalar.F16fromF32(g), scalar.F16fromF64(float64(g)), set16(func(s *scalar.F16) { s.S32(g) }), set16(func(s *scalar.F16) { s.S64(float64(g)) })} {
					if !sameHalf(b.Value, p) {
						Fail("pattern %#04x converted to %v and back (way %d) is %#04x", p, g, i, b.Value)
					}
				}
				// copies are independent
				cp := f.Copy()
				if cp.G32() != g && g == g {
					Fail("copy of %#04x is %v", p, cp.G32())
				}
				cp.S32(3)
				if f.Value != p {
					Fail("writing a copy of %#04x changed it", p)
				}
				f.S32(5)
				if cp.G32() != 3 {
					Fail("writing %#04x changed its copy", p)
				}
				// text
				if s := (&scalar.F16{Value: p}).String(); !math.IsNaN(v) {
					if w, err := strconv.ParseFloat(s, 64); err != nil || float64(float32(w)) != v {
						Fail("the text of %#04x (%v) is %q", p, v, s)
					}
				}
				c.State(p)
			}
			c.Step(1024)
		})
	}
	c.Do(func() string { return "constants" }, func() {
		n := scalar.F16NaN()
		pi, ni := scalar.F16Inf(1), scalar.F16Inf(-1)
		zi := scalar.F16Inf(0)
		if !math.IsNaN(half(n.Value)) || !math.IsInf(half(pi.Value), 1) || !math.IsInf(half(ni.Value), -1) || !math.IsInf(half(zi.Value), 1) {
			Fail("NaN %#x, infinities %#x %#x %#x", n.Value, pi.Value, ni.Value, zi.Value)
		}
	})
}

func set16(f func(*scalar.F16)) *scalar.F16 {
	s := &scalar.F16{Value: 0x1234}
	f(s)
	return s
}

// c19convert: all single-precision patterns.
func c19convert(c *C) {
	for blk := uint64(0); blk < 4096; blk++ {
		if c.Out() || !c.Mine() {
			continue
		}
		blk := blk
		c.Do(func() string { return fmt.Sprintf("single-precision patterns %#x to %#x", blk<<20, blk<<20+1<<20-1) }, func() {
			s := &scalar.F16{}
			for k := blk << 20; k < (blk+1)<<20; k++ {
				x := math.Float32frombits(uint32(k))
				s.S32(x)
				// fast path: between two neighbouring half-precision numbers
				want := nearest16fast(uint32(k))
				if s.Value != want {
					if x != x {
						if math.IsNaN(half(s.Value)) && s.Value>>15 == uint16(k>>31) {
							continue
						}
					}
					if !sameHalf(s.Value, nearest16(float64(x), 0)) || x == x && s.Value>>15 != uint16(k>>31) {
						Fail("%v (pattern %#08x) converts to %#04x (%v) instead of %#04x", x, k, s.Value, half(s.Value), nearest16(float64(x), 0))
					}
				}
				if k&0xffff < 2 {
					if v := scalar.F16fromF32(x).Value; v != s.Value {
						Fail("F16fromF32(%v) is %#04x, S32 gives %#04x", x, v, s.Value)
					}
					if v := scalar.F16fromF64(float64(x)).Value; !sameHalf(v, s.Value) {
						Fail("F16fromF64(%v) is %#04x, S32 gives %#04x", x, v, s.Value)
					}
					if !sameHalf(s.Value, nearest16(float64(x), 0)) {
						Fail("%v (pattern %#08x) converts to %#04x instead of %#04x", x, k, s.Value, nearest16(float64(x), 0))
					}
				}
			}
			c.Step(1 << 20)
			c.State("f32", blk)
		})
	}
}

// nearest16fast: the largest half-precision magnitude whose lower midpoint is
// not above x, from integer arithmetic on the pattern.
func nearest16fast(u uint32) uint16 {
	s := uint16(u >> 16 & 0x8000)
	a := u & 0x7fffffff
	if a >= 0x47800000 { // 65536 and above, infinity, NaN
		if a > 0x7f800000 {
			return s | 0x7e00
		}
		return s | 0x7c00
	}
	if a >= 0x38800000 { // normal: rebias, round the 13 low bits to even
		r := a - (112 << 23)
		return s | uint16((r+0xfff+(r>>13&1))>>13)
	}
	// subnormal: a multiple of 2^-24
	q := math.Float32frombits(a) * (1 << 24) // exact
	return s | uint16(math.RoundToEven(float64(q)))
}

func set16patterns() []uint16 {
	var out []uint16
	for e := uint16(0); e < 32; e++ {
		for _, m := range []uint16{0, 1, 2, 3, 511, 512, 513, 683, 1022, 1023} {
			out = append(out, e<<10|m, 0x8000|e<<10|m)
		}
	}
	return append(out, 0x3555, 0xb555)
}

var ops19 = []string{"+", "-", "*", "/"}

// exact16 is the correctly rounded half-precision result of an operation on
// two half-precision numbers. Sums, differences and products of them are
// exact in double precision; quotients get a sticky direction.
func exact16(op int, a, b float64) uint16 {
	switch op {
	case 0:
		return nearest16(a+b, 0)
	case 1:
		return nearest16(a-b, 0)
	case 2:
		return nearest16(a*b, 0)
	}
	q := a / b
	d := 0
	if !math.IsNaN(q) && !math.IsInf(q, 0) && b != 0 && !math.IsInf(b, 0) {
		// remainder of the double-precision quotient, exactly
		r := math.FMA(-q, b, a)
		if r != 0 {
			d = 1
			if math.Signbit(r) != math.Signbit(b) {
				d = -1
			}
		}
	}
	return nearest16(q, d)
}

func c19pairs16(c *C) {
	set := set16patterns()
	do := func(a uint16, bs func(func(b uint16))) {
		c.Do(func() string { return fmt.Sprintf("arithmetic of %#04x (%v) with others", a, half(a)) }, func() {
			va := half(a)
			x, y, z := &scalar.F16{}, &scalar.F16{}, &scalar.F16{}
			n := 0
			bs(func(b uint16) {
				vb := half(b)
				x.Value, y.Value = a, b
				for op := 0; op < 4; op++ {
					w := exact16(op, va, vb)
					var r scalar.Scalar
					z.Value = a
					switch op {
					case 0:
						r = x.Add(y)
						z.SelfAdd(y)
					case 1:
						r = x.Sub(y)
						z.SelfSub(y)
					case 2:
						r = x.Mul(y)
						z.SelfMul(y)
					case 3:
						r = x.Div(y)
						z.SelfDiv(y)
					}
					f, ok := r.(*scalar.F16)
					if !ok {
						Fail("%v %s %v is a %T", va, ops19[op], vb, r)
					}
					if !sameHalf(f.Value, w) {
						Fail("%v %s %v is %v (%#04x) instead of %v (%#04x)", va, ops19[op], vb, half(f.Value), f.Value, half(w), w)
					}
					if !sameHalf(z.Value, w) {
						Fail("in place: %v %s %v is %v (%#04x) instead of %v (%#04x)", va, ops19[op], vb, half(z.Value), z.Value, half(w), w)
					}
					if x.Value != a || y.Value != b {
						Fail("%v %s %v changed its operands", va, ops19[op], vb)
					}
				}
				cmp19(x, y, va, vb)
				if a == b {
					alias19(func() scalar.Scalar { return &scalar.F16{Value: a} }, func(op int) float64 { return half(exact16(op, va, va)) })
				}
				n++
			})
			c.Step(9 * n)
			c.StateHash(uint64(a) | 1<<40)
		})
	}
	for _, a := range set {
		if c.Out() {
			return
		}
		if c.Mine() {
			do(a, func(f func(b uint16)) {
				for _, b := range set {
					f(b)
				}
			})
		}
	}
	for a := 0; a < 65536; a++ {
		if c.Out() {
			return
		}
		if !c.Mine() {
			continue
		}
		do(uint16(a), func(f func(b uint16)) {
			if c.Thorough {
				for b := 0; b < 65536; b++ {
					f(uint16(b))
				}
				return
			}
			// one row of the square per pattern: neighbours and mirror images
			for _, b := range []uint16{uint16(a), uint16(a) ^ 0x8000, uint16(a) + 1, uint16(a) ^ 1, 0x3c00, 0x0001, 0x7bff, 0x03ff, 0x3bff, 0x4248, uint16(a*40503 + 77)} {
				f(b)
			}
		})
	}
}

func cmp19(x, y scalar.Scalar, va, vb float64) {
	if va != va || vb != vb {
		return
	}
	w := scalar.CmpE
	if va < vb {
		w = scalar.CmpL
	} else if va > vb {
		w = scalar.CmpG
	}
	if r := x.Cmp(y); r != w {
		Fail("%T %v compared with %T %v is %v instead of %v (0 less, 1 equal, 2 greater)", x, va, y, vb, r, w)
	}
}

// alias19: one object as both operands, in place and not.
func alias19(mk func() scalar.Scalar, want func(op int) float64) {
	for op := 0; op < 4; op++ {
		w := want(op)
		x, z := mk(), mk()
		v := x.G64()
		var r scalar.Scalar
		switch op {
		case 0:
			r = x.Add(x)
			z.SelfAdd(z)
		case 1:
			r = x.Sub(x)
			z.SelfSub(z)
		case 2:
			r = x.Mul(x)
			z.SelfMul(z)
		case 3:
			r = x.Div(x)
			z.SelfDiv(z)
		}
		if r == x || !eq19(x.G64(), v) {
			Fail("%T %v %s itself changes it", x, v, ops19[op])
		}
		if !eq19(r.G64(), w) || !eq19(z.G64(), w) {
			Fail("%T %v %s itself is %v as a value and %v in place instead of %v", x, v, ops19[op], r.G64(), z.G64(), w)
		}
	}
	x := mk()
	if v := x.G64(); v == v {
		cmp19(x, x, v, v)
	}
}

func wideValues() []float64 {
	out := []float64{0, math.Copysign(0, -1), 1, -1, 3, -3, 0.1, -0.1, 1.0 / 3, math.Pi, 1e10, -1e10, math.Inf(1), math.Inf(-1), math.NaN(),
		math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, 65504, 65520, 65536, 5.96e-8, 16777217, 9007199254740993, 1 + math.Ldexp(1, -11), 1 + math.Ldexp(1, -24), 1 + math.Ldexp(1, -52), 1 - math.Ldexp(1, -53), 1 - math.Ldexp(1, -25), 1 + math.Ldexp(1, -11) + math.Ldexp(1, -40)}
	for e := -150; e <= 130; e += 7 {
		out = append(out, math.Ldexp(1, e), -math.Ldexp(1.5, e), math.Ldexp(1+math.Ldexp(1, -23), e), math.Ldexp(1.9999999, e))
	}
	return out
}

// exactBig computes a op b exactly and rounds it to the given precision.
func exact(op int, a, b float64, single bool) float64 {
	special := math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) || a == 0 || b == 0
	if special {
		switch op {
		case 0:
			return a + b
		case 1:
			return a - b
		case 2:
			return a * b
		}
		return a / b
	}
	x, y := new(big.Rat).SetFloat64(a), new(big.Rat).SetFloat64(b)
	r := new(big.Rat)
	switch op {
	case 0:
		r.Add(x, y)
	case 1:
		r.Sub(x, y)
	case 2:
		r.Mul(x, y)
	case 3:
		r.Quo(x, y)
	}
	if r.Sign() == 0 {
		return 0
	}
	if single {
		f, _ := r.Float32()
		return float64(f)
	}
	f, _ := r.Float64()
	return f
}

func eq19(a, b float64) bool { return a == b || a != a && b != b }

func c19wide(c *C) {
	vals := wideValues()
	for _, a := range vals {
		if c.Out() || !c.Mine() {
			continue
		}
		a := a
		c.Do(func() string { return fmt.Sprintf("single and double precision arithmetic of %v", a) }, func() {
			for _, b := range vals {
				for op := 0; op < 4; op++ {
					a32, b32 := float64(float32(a)), float64(float32(b))
					check19(scalar.NewF32(float32(a)), scalar.NewF32(float32(b)), op, []float64{exact(op, a32, b32, true)})
					check19(scalar.NewF64(a), scalar.NewF64(b), op, []float64{exact(op, a, b, false)})
				}
				cmp19(scalar.NewF32(float32(a)), scalar.NewF32(float32(b)), float64(float32(a)), float64(float32(b)))
				cmp19(scalar.NewF64(a), scalar.NewF64(b), a, b)
				if eq19(a, b) {
					a32 := float64(float32(a))
					alias19(func() scalar.Scalar { return scalar.NewF32(float32(a)) }, func(op int) float64 { return exact(op, a32, a32, true) })
					alias19(func() scalar.Scalar { return scalar.NewF64(a) }, func(op int) float64 { return exact(op, a, a, false) })
				}
				c.Step(18)
				c.State("wide", a, b)
			}
			// constructors, accessors, copies, text
			f, d := scalar.F32fromF64(a), scalar.F64fromF32(float32(a))
			if !eq19(float64(f.Value), float64(float32(a))) || !eq19(d.Value, float64(float32(a))) {
				Fail("F32fromF64 %v, F64fromF32 %v", f.Value, d.Value)
			}
			for _, s := range []scalar.Scalar{scalar.NewF32(1), scalar.NewF64(1)} {
				s.S32(float32(a))
				if !eq19(float64(s.G32()), float64(float32(a))) || !eq19(s.G64(), float64(float32(a))) {
					Fail("%T after S32(%v): %v %v", s, float32(a), s.G32(), s.G64())
				}
				s.S64(a)
				if !eq19(float64(s.G32()), float64(float32(a))) {
					Fail("%T after S64(%v): G32 %v", s, a, s.G32())
				}
				w := a
				if _, ok := s.(*scalar.F32); ok {
					w = float64(float32(a))
				}
				if !eq19(s.G64(), w) {
					Fail("%T after S64(%v): G64 %v", s, a, s.G64())
				}
				cp := s.Copy()
				cp.S32(3)
				if !eq19(s.G64(), w) || cp.G64() != 3 {
					Fail("%T: the copy is not independent", s)
				}
				if a == a && !math.IsInf(w, 0) {
					bits := 64
					if _, ok := s.(*scalar.F32); ok {
						bits = 32
					}
					if v, err := strconv.ParseFloat(s.String(), bits); err != nil || v != w {
						Fail("the text of %T %v is %q", s, w, s.String())
					}
				}
			}
		})
	}
}

// check19: the result, its type, the in-place form and unchanged operands.
func check19(x, y scalar.Scalar, op int, want []float64) {
	a, b := x.G64(), y.G64()
	z := x.Copy()
	var r scalar.Scalar
	switch op {
	case 0:
		r = x.Add(y)
		z.SelfAdd(y)
	case 1:
		r = x.Sub(y)
		z.SelfSub(y)
	case 2:
		r = x.Mul(y)
		z.SelfMul(y)
	case 3:
		r = x.Div(y)
		z.SelfDiv(y)
	}
	if fmt.Sprintf("%T", r) != fmt.Sprintf("%T", x) {
		Fail("%T %v %s %T %v is a %T", x, a, ops19[op], y, b, r)
	}
	ok := false
	for _, w := range want {
		ok = ok || eq19(r.G64(), w)
	}
	if !ok {
		Fail("%T %v %s %T %v is %v instead of %v", x, a, ops19[op], y, b, r.G64(), want)
	}
	if !eq19(z.G64(), r.G64()) {
		Fail("%T %v %s %T %v is %v in place and %v as a value", x, a, ops19[op], y, b, z.G64(), r.G64())
	}
	if !eq19(x.G64(), a) || !eq19(y.G64(), b) {
		Fail("%T %v %s %T %v changed its operands", x, a, ops19[op], y, b)
	}
}

// c19mixed: operands of different precision.
func c19mixed(c *C) {
	vals := wideValues()
	mk := []func(v float64) scalar.Scalar{
		func(v float64) scalar.Scalar { return scalar.F16fromF64(v) },
		func(v float64) scalar.Scalar { return scalar.NewF32(float32(v)) },
		func(v float64) scalar.Scalar { return scalar.NewF64(v) },
	}
	round := []func(v float64) float64{
		func(v float64) float64 { return half(nearest16(v, 0)) },
		func(v float64) float64 { return float64(float32(v)) },
		func(v float64) float64 { return v },
	}
	for _, a := range vals {
		if c.Out() || !c.Mine() {
			continue
		}
		a := a
		c.Do(func() string { return fmt.Sprintf("mixed arithmetic of %v", a) }, func() {
			for _, b := range vals {
				for i := range mk {
					for j := range mk {
						if i == j {
							continue
						}
						for op := 0; op < 4; op++ {
							x, y := mk[i](a), mk[j](b)
							va, vb := x.G64(), y.G64()
							var want []float64
							// convert the operand first, to the receiver's or to single
							// precision, or round the exact result once
							for _, ob := range []float64{vb, float64(float32(vb)), round[i](vb)} {
								want = append(want, round[i](exact(op, va, ob, false)), round[i](exact(op, va, ob, true)))
								if i == 2 {
									want = append(want, exact(op, va, ob, false))
									want = want[len(want)-1:]
									if j < 2 {
										break
									}
								}
							}
							check19(x, y, op, want)
						}
						x, y := mk[i](a), mk[j](b)
						if vb := y.G64(); eq19(round[i](vb), vb) {
							cmp19(x, y, x.G64(), vb)
						}
						c.Step(5)
					}
				}
				c.State("mixed", a, b)
			}
		})
	}
}
