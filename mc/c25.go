package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C25", &Check{
		Run:   runC25,
		Level: "model_checking",
		Rule: "every shape of rank 0-5 with dimensions 0-4 (thorough: 0-5) and larger ones: all positions and all indices, in and out of range, of every length; all pairs of shapes of rank 0-4 with dimensions 0-2 (thorough 0-3); " +
			"all pairs of value lists of length 0-3 over 7 values and of length 4-5 over 3, in 6 element types, and long lists; bars of every size from -3 to 400 x every multiple of 1/360, 1/256 and 1/size. state = shape, pair or bar, transition = one answer compared",
		Assumptions: []string{"the size of a shape fits in a word", "distances: the squares and their sum are representable in the element type", "bars: progress from 0 to 1; a bar of fewer than 4 characters has no room for a frame and only its length is decided"},
	})
}

func runC25(c *C) {
	c25index(c)
	c25pairs(c)
	c25dist[float64](c)
	c25dist[float32](c)
	c25dist[int](c)
	c25dist[int16](c)
	c25dist[int32](c)
	c25dist[int64](c)
	c25bar(c)
}

func c25index(c *C) {
	hi := uint(4)
	if c.Thorough {
		hi = 5
	}
	all := append(append(shapes(0, 5, 0, hi), bigShapes...), hugeShapes...)
	all = append(all, []uint{1 << 40}, []uint{1 << 20, 1 << 20, 1 << 20}, []uint{3, 1 << 33, 5}, []uint{math.MaxUint32, math.MaxUint32})
	for _, s := range all {
		if c.Out() {
			return
		}
		if !c.Mine() {
			continue
		}
		s := s
		c.Do(func() string { return fmt.Sprintf("index arithmetic of shape %v", s) }, func() {
			orig := append([]uint{}, s...)
			n := uint(1)
			mul := make([]uint, len(s))
			for i := len(s) - 1; i >= 0; i-- {
				mul[i] = n
				n *= s[i]
			}
			if got := tools.GetDataSize(s); got != n {
				Fail("size %d instead of %d", got, n)
			}
			got := tools.GetIndexMul(s)
			if !sameShape(got, mul) {
				Fail("multipliers %v instead of %v", got, mul)
			}
			check := func(idx []uint, pos uint) {
				given := append([]uint{}, idx...)
				p, err := tools.GetIndex(got, s, given)
				if err != nil || p != pos {
					Fail("position of %v is %d, %v instead of %d", idx, p, err, pos)
				}
				back := tools.ReverseIndex(got, s, pos)
				if !sameShape(back, idx) {
					Fail("position %d has index %v instead of %v", pos, back, idx)
				}
				inv := tools.GetInvertedIndex(given)
				if len(inv) != len(idx) {
					Fail("reversed index of %v is %v", idx, inv)
				}
				for i := range inv {
					if inv[i] != idx[len(idx)-1-i] {
						Fail("reversed index of %v is %v", idx, inv)
					}
				}
				if len(inv) > 0 {
					inv[0] += 7
					back[0] += 7
				}
				if !sameShape(given, idx) {
					Fail("the given index %v was changed to %v", idx, given)
				}
			}
			bad := func(idx []uint) {
				if p, err := tools.GetIndex(got, s, idx); err == nil {
					Fail("index %v has position %d without an error", idx, p)
				}
			}
			steps := 0
			if n <= 200000 {
				pos := uint(0)
				indices(s, func(idx []uint) {
					check(idx, pos)
					pos++
					steps++
				})
				if pos != n {
					Fail("harness: %d indices of %d", pos, n)
				}
			} else {
				for corner := 0; corner < 1<<len(s); corner++ {
					idx := make([]uint, len(s))
					pos := uint(0)
					for i := range s {
						if corner>>i&1 == 1 {
							idx[i] = s[i] - 1
						}
						pos += idx[i] * mul[i]
					}
					check(idx, pos)
					steps++
				}
			}
			for l := 0; l <= len(s)+2; l++ {
				if l != len(s) {
					bad(make([]uint, l))
				}
			}
			for i := range s {
				for _, v := range []uint{s[i], s[i] + 1, 2 * s[i], 1 << 32, 1 << 63, math.MaxUint64} {
					if v < s[i] {
						continue
					}
					for fill := 0; fill < 2; fill++ {
						idx := make([]uint, len(s))
						for j := range idx {
							if fill == 1 && s[j] > 0 {
								idx[j] = s[j] - 1
							}
						}
						idx[i] = v
						bad(idx)
						steps++
					}
				}
			}
			if l := len(s); l > 0 {
				if p, err := tools.GetIndex(got[:l-1], s, make([]uint, l)); err == nil {
					Fail("multipliers of another rank give position %d without an error", p)
				}
			}
			if !sameShape(s, orig) || !sameShape(got, mul) {
				Fail("the shape or the multipliers were changed to %v, %v", s, got)
			}
			c.Step(steps)
			c.State("shape", s)
		})
	}
}

func c25pairs(c *C) {
	hi := uint(2)
	if c.Thorough {
		hi = 3
	}
	all := shapes(0, 4, 0, hi)
	all = append(all, []uint{math.MaxUint64}, []uint{1 << 32}, []uint{1 << 32, 1}, []uint{10, 20, 30, 40, 50}, []uint{10, 20, 30, 40, 51}, []uint{2, 257}, []uint{2, 1}, nil)
	for _, a := range all {
		if c.Out() || !c.Mine() {
			continue
		}
		a := a
		var parts []string
		for _, v := range a {
			parts = append(parts, fmt.Sprint(v))
		}
		c.Do(func() string { return fmt.Sprintf("shape %v printed", a) }, func() {
			if g, w := tools.ShapeStr(a), "["+strings.Join(parts, ", ")+"]"; g != w {
				Fail("%q instead of %q", g, w)
			}
		})
		for _, b := range all {
			b := b
			c.Do(func() string { return fmt.Sprintf("shapes %v and %v compared", a, b) }, func() {
				w := -1
				if len(a) != len(b) {
					w = -2
				} else {
					for i := len(a) - 1; i >= 0; i-- {
						if a[i] != b[i] {
							w = i
						}
					}
				}
				if g := tools.Equals(a, b); g != w {
					Fail("Equals is %d instead of %d", g, w)
				}
				err := tools.GetEqShapeErr("msg", a, b)
				if (err != nil) != (w != -1) {
					Fail("the error is %v", err)
				}
				if err != nil && !strings.Contains(err.Error(), "msg") {
					Fail("the error %q does not carry the message", err)
				}
				c.Step(2)
				c.State("pair", a, b)
			})
		}
	}
}

func c25dist[T types.Number](c *C) {
	vals := []float64{0, 1, -1, 2, -3, 5, 40}
	if isFloat[T]() {
		vals = []float64{0, 1, -1, 0.5, -3.25, 1e-8, 1e6}
	}
	one := func(a, b []float64) {
		x, y := toT[T](a), toT[T](b)
		x0, y0 := append([]T{}, x...), append([]T{}, y...)
		d, err := tools.Distant(x, y)
		for i := range x {
			if x[i] != x0[i] {
				Fail("the first list was changed")
			}
		}
		for i := range y {
			if y[i] != y0[i] {
				Fail("the second list was changed")
			}
		}
		if len(a) != len(b) {
			if err == nil {
				Fail("distance %v without an error", d)
			}
			return
		}
		noErr("Distant", err)
		s := new(big.Float).SetPrec(200)
		for i := range x {
			t := new(big.Float).SetPrec(200).Sub(new(big.Float).SetFloat64(float64(x[i])), new(big.Float).SetFloat64(float64(y[i])))
			s.Add(s, t.Mul(t, t))
		}
		w, _ := new(big.Float).SetPrec(200).Sqrt(s).Float64()
		if isFloat[T]() {
			if e := float64(len(a)+4) * ulp[T]() * w; math.Abs(float64(d)-w) > e {
				Fail("distance %v instead of %v", d, w)
			}
		} else if math.Abs(float64(d)-w) >= 1 && float64(d) != math.Floor(w) {
			Fail("distance %v instead of %v", d, w)
		}
		if (d == 0) != (w == 0) {
			Fail("distance %v instead of %v", d, w)
		}
		r, err := tools.Distant(y, x)
		noErr("Distant", err)
		if r != d {
			Fail("the distance is %v one way and %v the other way", d, r)
		}
	}
	lists := func(l, k int, f func([]float64)) {
		v := make([]float64, l)
		var rec func(int)
		rec = func(i int) {
			if i == l {
				f(v)
				return
			}
			for _, x := range vals[:k] {
				v[i] = x
				rec(i + 1)
			}
		}
		rec(0)
	}
	for la := 0; la <= 5; la++ {
		k := len(vals)
		if la > 3 {
			k = 3
		}
		lists(la, k, func(a []float64) {
			if c.Out() || !c.Mine() {
				return
			}
			a = append([]float64{}, a...)
			c.Do(func() string { return fmt.Sprintf("%s distances from %v", typeName[T](), a) }, func() {
				n := 0
				lists(la, k, func(b []float64) {
					one(a, b)
					n++
				})
				for lb := 0; lb < 7; lb++ {
					if lb != la {
						one(a, make([]float64, lb))
					}
				}
				c.Step(n)
				c.State(typeName[T](), a)
			})
		})
	}
	for _, n := range []int{6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 257, 1023, 1025} {
		if c.Out() || !c.Mine() {
			continue
		}
		n := n
		c.Do(func() string { return fmt.Sprintf("%s distances of lists of %d values", typeName[T](), n) }, func() {
			a, b := make([]float64, n), make([]float64, n)
			one(a, b)
			for i := range a {
				b[i] = 3
				one(a, b)
				b[i] = 0
			}
			for i := range a {
				a[i], b[i] = float64(i%5)-2, float64(i%3)
			}
			one(a, b)
			one(a, b[1:])
			c.Step(n + 3)
			c.State(typeName[T](), n)
		})
	}
}

func c25bar(c *C) {
	for size := -3; size <= 400; size++ {
		if c.Out() || !c.Mine() {
			continue
		}
		size := size
		var pro []float64
		for _, q := range []int{360, 256, size, size - 2} {
			for i := 0; i <= q; i++ {
				pro = append(pro, float64(i)/float64(q))
			}
		}
		if size < 1 {
			pro = pro[:0]
			for i := 0; i <= 360; i++ {
				pro = append(pro, float64(i)/360)
			}
		}
		pro = append(pro, math.SmallestNonzeroFloat64, 1-math.Ldexp(1, -53))
		for _, p := range pro {
			p := p
			if math.IsNaN(p) {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("bar of size %d, progress %v", size, p) }, func() {
				g := tools.Bar(p, size)
				w := size
				if w < 0 {
					w = 0
				}
				if len([]rune(g)) != w {
					Fail("%q has %d characters", g, len([]rune(g)))
				}
				c.Step(1)
				if size < 4 {
					return
				}
				inner := g[1 : len(g)-1]
				n := strings.Count(g, "#")
				if g[0] != '[' || g[len(g)-1] != ']' || inner != strings.Repeat("#", n)+strings.Repeat(" ", len(inner)-n) {
					Fail("%q is not a frame with a filled and an empty part", g)
				}
				if e := p * float64(size-2); math.Abs(float64(n)-e) > 1 || p == 0 && n != 0 || p == 1 && n != size-2 {
					Fail("%q has %d characters filled instead of %v", g, n, e)
				}
			})
		}
		c.Do(func() string { return fmt.Sprintf("bars of size %d", size) }, func() {
			last := 0
			for i := 0; i <= 1440; i++ {
				n := strings.Count(tools.Bar(float64(i)/1440, size), "#")
				if n < last {
					Fail("progress %d/1440 has %d characters filled, less progress %d", i, n, last)
				}
				last = n
			}
			c.Step(1440)
			c.State("bar", size)
		})
	}
}
