package main

// The alphabet of architectures.

func archChains() []Arch {
	return []Arch{
		chain("dense1", indense(3, 2, "linear")),
		chain("dense1t", indense(2, 3, "tanh")),
		chain("dense2", indense(2, 3, "tanh"), dense(2, "sigmoid")),
		chain("dense2in", in(3), dense(2, "sin"), dense(2, "linear")),
		chain("dense3", indense(2, 3, "swish"), dense(3, "relu:0.1"), dense(2, "gelu")),
		chain("dense4", in(2), dense(2, "elu:0.5"), dense(2, "selu:1.6:1.1"), dense(2, "tanh"), dense(1, "linear")),
		chain("dense on matrix", in(2, 3), dense(2, "tanh"), dense(3, "linear")),
		chain("dense wide", indense(1, 4, "sigmoid"), dense(1, "tanh")),
		chain("conv", in(1, 3, 3), convL(2, 2, 2, 1, 1, "linear")),
		chain("conv rect", in(2, 3, 4), convL(2, 2, 3, 1, 1, "tanh")),
		chain("conv stride", in(1, 5, 4), convL(1, 2, 2, 2, 1, "sigmoid"), dense(2, "linear")),
		chain("conv stride2", in(1, 4, 5), convL(2, 2, 1, 1, 2, "tanh"), dense(1, "linear")),
		chain("conv uneven", in(1, 4, 4), convL(1, 3, 2, 2, 3, "tanh"), dense(2, "sin")),
		chain("conv conv", in(1, 4, 3), convL(2, 2, 2, 1, 1, "tanh"), convL(2, 2, 1, 1, 1, "sin"), dense(2, "linear")),
		chain("conv pool", in(1, 4, 4), convL(2, 1, 2, 1, 1, "tanh"), pool(2, 2), dense(2, "linear")),
		chain("conv pool partial", in(1, 4, 5), convL(1, 2, 2, 1, 1, "sigmoid"), pool(2, 3), flat(), dense(2, "tanh")),
		chain("conv flat dense", in(2, 2, 2), convL(2, 1, 1, 1, 1, "tanh"), flat(), dense(2, "sigmoid")),
		chain("deconv", in(1, 2, 2), deconvL(1, 2, 2, 1, 1, "linear")),
		chain("deconv rect", in(2, 2, 3), deconvL(2, 2, 1, 2, 1, "tanh"), dense(2, "linear")),
		chain("deconv stride", in(1, 2, 2), deconvL(1, 2, 3, 2, 2, "tanh"), dense(3, "sin")),
		chain("deconv gap", in(2, 2, 3), deconvL(3, 1, 2, 3, 3, "tanh"), pool(3, 2), dense(2, "linear")),
		chain("conv channels", in(3, 4, 4), convL(4, 2, 3, 2, 1, "tanh"), convL(3, 2, 1, 1, 1, "sigmoid"), dense(5, "linear")),
		chain("dense big", indense(9, 17, "tanh"), dense(11, "sigmoid"), dense(10, "linear")),
		chain("deconv deconv", in(1, 2, 1), deconvL(2, 2, 2, 1, 2, "tanh"), deconvL(1, 1, 2, 2, 1, "sin")),
		chain("conv deconv", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), deconvL(1, 2, 2, 2, 2, "linear")),
		chain("up", in(1, 2, 2), deconvL(1, 1, 1, 1, 1, "tanh"), up(2, 1), convL(1, 2, 2, 1, 1, "linear")),
		chain("up dense", in(1, 2, 2), convL(2, 1, 2, 1, 1, "tanh"), up(1, 2), dense(2, "sigmoid")),
		chain("up last", in(1, 2, 1), convL(1, 1, 1, 1, 1, "tanh"), up(2, 2)),
		chain("pool last", in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh"), pool(2, 1)),
		chain("flat last", in(1, 2, 3), convL(2, 1, 2, 1, 1, "sin"), flat()),
		chain("flat flat", in(1, 2, 3), convL(1, 1, 2, 1, 1, "sin"), flat(), flat(), dense(2, "tanh")),
		chain("norm", indense(3, 3, "tanh"), norm(), dense(2, "linear")),
		chain("enorm", indense(2, 3, "sigmoid"), enorm(), dense(2, "tanh")),
		chain("norm last", indense(2, 3, "tanh"), norm()),
		chain("softmax last", indense(3, 3, "tanh"), softmax()),
		chain("softmax inner", indense(3, 3, "sigmoid"), softmax(), dense(2, "linear")),
		chain("sub", indense(3, 4, "tanh"), sub(0, 1, 3), dense(2, "linear")),
		chain("sub conv", in(2, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), sub(1, 0, 1), dense(2, "sin")),
		chain("sub last", indense(2, 3, "sin"), sub(0, 0, 2)),
		chain("pool up", in(1, 4, 4), convL(1, 1, 1, 1, 1, "tanh"), pool(2, 2), up(2, 2), convL(1, 2, 2, 2, 2, "linear"), dense(1, "linear")),
		chain("norm conv", in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh"), norm(), convL(1, 2, 1, 1, 1, "linear")),
	}
}

// archBranches: several paths; only nodes without parameters before them have
// several consumers.
func archBranches() []Arch {
	return []Arch{
		{"two dense branches", []LSpec{in(3), dense(2, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), dense(2, "linear").from(3)}},
		{"two dense branches last", []LSpec{in(2), dense(2, "tanh").from(0), dense(1, "sigmoid").from(0), cat(1, 2, 0)}},
		{"three branches", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), dense(1, "tanh").from(0), cat(3, 4, 0), dense(2, "linear").from(5)}},
		{"deep branches", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(1), dense(3, "sigmoid").from(0), cat(2, 3, 0), dense(2, "tanh").from(4)}},
		{"skip from input", []LSpec{in(3), dense(2, "tanh").from(0), cat(0, 1, 0), dense(2, "linear").from(2)}},
		{"conv branches", []LSpec{in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh").from(0), convL(2, 2, 2, 1, 1, "sin").from(0), cat(1, 2, 0), dense(2, "linear").from(3)}},
		{"conv branches flat", []LSpec{in(1, 3, 2), convL(1, 2, 1, 1, 1, "tanh").from(0), flat().from(1), dense(2, "sin").from(0), cat(2, 3, 0), dense(2, "linear").from(4)}},
		{"conv concat width", []LSpec{in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh").from(0), convL(1, 1, 2, 1, 1, "sin").from(0), cat(1, 2, 1), convL(1, 2, 2, 1, 1, "linear").from(3)}},
		{"conv concat pool", []LSpec{in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh").from(0), convL(1, 2, 2, 1, 1, "sin").from(0), cat(1, 2, 2), pool(2, 2).from(3), dense(2, "linear").from(4)}},
		{"sub branches of the input", []LSpec{in(4), sub(0, 0, 2).from(0), sub(0, 1, 4).from(0), dense(2, "tanh").from(1), dense(2, "sin").from(2), cat(3, 4, 0), dense(1, "linear").from(5)}},
		{"concat norm", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), norm().from(3), dense(2, "linear").from(4)}},
		{"concat flat", []LSpec{in(1, 2, 2), convL(1, 1, 1, 1, 1, "tanh").from(0), convL(1, 1, 1, 1, 1, "sin").from(0), cat(1, 2, 0), flat().from(3), dense(2, "linear").from(4)}},
		{"concat softmax", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), softmax().from(3)}},
		{"concat sub", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(0), cat(1, 2, 0), sub(0, 1, 4).from(3), dense(2, "linear").from(4)}},
		{"concat up", []LSpec{in(1, 2, 1), convL(1, 1, 1, 1, 1, "tanh").from(0), deconvL(1, 1, 1, 1, 1, "sin").from(0), cat(1, 2, 0), up(1, 2).from(3), dense(2, "linear").from(4)}},
	}
}

// archShared: a layer with parameters at or before it feeds several layers.
func archShared() []Arch {
	return []Arch{
		{"diamond", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(1), dense(2, "sigmoid").from(1), cat(2, 3, 0), dense(1, "linear").from(4)}},
		{"skip connection", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(1), cat(1, 2, 0), dense(1, "linear").from(3)}},
		{"layer joined with itself", []LSpec{in(2), dense(2, "tanh").from(0), cat(1, 1, 0), dense(2, "linear").from(2)}},
		{"conv diamond", []LSpec{in(1, 3, 3), convL(1, 2, 2, 1, 1, "tanh").from(0), convL(1, 1, 1, 1, 1, "sin").from(1), convL(1, 1, 1, 1, 1, "sigmoid").from(1), cat(2, 3, 0), dense(1, "linear").from(4)}},
		{"double diamond", []LSpec{in(2), dense(2, "tanh").from(0), dense(2, "sin").from(1), dense(2, "tanh").from(1), cat(2, 3, 0), dense(2, "sin").from(4), dense(1, "tanh").from(4), cat(5, 6, 0)}},
		{"shared norm", []LSpec{in(3), dense(3, "tanh").from(0), norm().from(1), dense(2, "sin").from(2), dense(2, "sigmoid").from(2), cat(3, 4, 0)}},
		{"shared flatten", []LSpec{in(1, 2, 2), convL(1, 1, 1, 1, 1, "tanh").from(0), flat().from(1), dense(2, "sin").from(2), dense(2, "sigmoid").from(2), cat(3, 4, 0)}},
		{"shared sub ranges", []LSpec{in(3), dense(4, "tanh").from(0), sub(0, 0, 2).from(1), sub(0, 2, 4).from(1), dense(2, "sin").from(2), dense(2, "tanh").from(3), cat(4, 5, 0)}},
	}
}

func archAll() []Arch {
	return append(append(archChains(), archBranches()...), archShared()...)
}

// archFew is a small cross-section for deep histories.
func archFew() []Arch {
	var out []Arch
	pick := map[string]bool{"dense2": true, "conv pool": true, "deconv rect": true, "norm": true, "softmax last": true,
		"up dense": true, "two dense branches": true, "conv branches flat": true, "diamond": true, "sub": true, "conv stride": true}
	for _, a := range archAll() {
		if pick[a.name] {
			out = append(out, a)
		}
	}
	return out
}

// archLarge: sizes beyond the exhaustive bound, one property at a time.
func archLarge() []Arch {
	deep := []LSpec{in(3)}
	acts := []string{"tanh", "sin", "linear", "sigmoid"}
	for i := 0; i < 40; i++ {
		deep = append(deep, dense(uint(2+i%3), acts[i%4]))
	}
	deeper := []LSpec{in(2)}
	for i := 0; i < 140; i++ {
		deeper = append(deeper, dense(uint(1+i%2), "linear"))
	}
	comb := Arch{"comb", []LSpec{in(3)}}
	last := 0
	for i := 0; i < 70; i++ {
		k := len(comb.nodes)
		comb.nodes = append(comb.nodes, dense(uint(1+i%2), acts[i%4]).from(0))
		if i > 0 {
			comb.nodes = append(comb.nodes, cat(last, k, 0))
			k++
		}
		last = k
	}
	comb.nodes = append(comb.nodes, dense(2, "linear").from(last))
	return []Arch{
		chain("dense of 300", in(300), dense(3, "sin"), dense(2, "tanh")),
		chain("dense of 1100", indense(1100, 2, "sin")),
		chain("300 outputs", indense(2, 300, "sin"), dense(270, "linear")),
		chain("1100 outputs", indense(2, 1100, "tanh")),
		chain("dense matrix 20x30", in(20, 30), dense(4, "tanh"), dense(2, "linear")),
		chain("large image", in(1, 40, 33), convL(1, 7, 5, 3, 4, "sin"), dense(2, "linear")),
		chain("thin image", in(1, 1, 300), convL(2, 1, 9, 1, 7, "sin"), dense(2, "linear")),
		chain("tall image", in(1, 300, 1), convL(2, 9, 1, 7, 1, "sin"), dense(2, "linear")),
		chain("many channels", in(17, 4, 3), convL(5, 2, 2, 1, 1, "sin"), dense(2, "linear")),
		chain("many filters", in(2, 4, 3), convL(19, 2, 2, 1, 1, "sin"), dense(2, "linear")),
		chain("large kernel", in(1, 12, 11), convL(2, 11, 9, 1, 1, "sin"), dense(2, "tanh")),
		chain("large stride", in(1, 14, 13), convL(2, 2, 3, 9, 8, "sin"), dense(2, "tanh")),
		chain("large output", in(1, 20, 19), convL(2, 2, 2, 1, 1, "sin")),
		chain("deconv of an image", in(1, 9, 8), deconvL(1, 3, 4, 2, 2, "sin"), dense(2, "linear")),
		chain("deconv channels", in(17, 2, 2), deconvL(3, 2, 2, 1, 1, "sin"), dense(2, "linear")),
		chain("deconv filters", in(2, 2, 2), deconvL(19, 2, 2, 1, 1, "sin"), dense(2, "linear")),
		chain("deconv kernel", in(1, 2, 3), deconvL(2, 11, 9, 4, 5, "sin"), dense(2, "tanh")),
		chain("deconv stride", in(1, 3, 2), deconvL(2, 2, 3, 9, 8, "sin"), dense(2, "tanh")),
		chain("up by 5 and 9", in(1, 2, 3), convL(2, 1, 2, 1, 1, "tanh"), up(5, 9), dense(2, "linear")),
		chain("up by 17 and 4", in(2, 1, 2), convL(1, 1, 1, 1, 1, "tanh"), up(17, 4)),
		chain("pool of 7 and 5", in(1, 20, 18), convL(1, 2, 2, 1, 1, "sin"), pool(7, 5), dense(2, "linear")),
		chain("pool of an image", in(1, 31, 30), convL(1, 1, 1, 1, 1, "sin"), pool(2, 2), dense(2, "tanh")),
		chain("pool channels", in(9, 5, 4), convL(8, 1, 1, 1, 1, "sin"), pool(2, 2), dense(2, "tanh")),
		chain("norm of 500", indense(3, 500, "sin"), norm(), dense(2, "linear")),
		chain("enorm of 300", indense(3, 300, "sigmoid"), enorm(), dense(2, "tanh")),
		chain("softmax of 300", indense(3, 300, "sin"), softmax(), dense(2, "linear")),
		chain("softmax of 300 last", indense(3, 300, "sin"), softmax()),
		chain("flat of 600", in(1, 20, 30), convL(1, 1, 1, 1, 1, "sin"), flat(), dense(2, "linear")),
		chain("sub of 400", indense(2, 400, "sin"), sub(0, 70, 340), dense(2, "linear")),
		{"join of 300 and 280", []LSpec{in(2), dense(300, "tanh").from(0), dense(280, "sin").from(0), cat(1, 2, 0), dense(2, "linear").from(3)}},
		{"join of images", []LSpec{in(2, 12, 11), convL(5, 2, 2, 1, 1, "tanh").from(0), convL(4, 2, 2, 1, 1, "sin").from(0), cat(1, 2, 0), dense(2, "linear").from(3)}},
		chain("40 layers", deep...),
		chain("140 layers", deeper...),
		comb,
	}
}

// archDags are all networks of up to n layers behind an input of three
// elements, each layer fed by any earlier one (concatenations by any two) and
// every layer feeding another one, except the last.
func archDags(n int) []Arch {
	kinds := func(k int) []LSpec {
		act := []string{"tanh", "sin", "sigmoid", "linear"}[k%4]
		return []LSpec{dense(2, act), norm(), flat(), sub(0, 1, 2), softmax()}
	}
	var out []Arch
	var grow func(ls []LSpec, left int)
	grow = func(ls []LSpec, left int) {
		k := len(ls)
		used := make([]bool, k)
		for _, l := range ls {
			for _, s := range l.src {
				used[s] = true
			}
		}
		unused := 0
		for i := 0; i < k-1; i++ {
			if !used[i] {
				unused++
			}
		}
		if k > 1 && unused == 0 {
			a := Arch{"dag", append([]LSpec{}, ls...)}
			if fits(a) {
				out = append(out, a)
			}
		}
		if left == 0 || unused > left {
			return
		}
		for i := 0; i < k; i++ {
			for _, l := range kinds(k) {
				grow(append(ls[:k:k], l.from(i)), left-1)
			}
			for j := 0; j < k; j++ {
				grow(append(ls[:k:k], cat(i, j, 0)), left-1)
			}
		}
	}
	grow([]LSpec{in(3)}, n)
	// a soft-max of one element has no value
	var keep []Arch
	for _, a := range out {
		r, ok := newRNet(a), true
		for _, nd := range r.nodes {
			if nd.kind == "softmax" && size(nd.shape) < 2 {
				ok = false
			}
		}
		if ok {
			keep = append(keep, a)
		}
	}
	return keep
}

// archNested are networks with branches in which layers are models of their
// own.
func archNested() []Arch {
	var out []Arch
	with := func(a Arch, mode int, f func(i int) bool) {
		b := Arch{a.name, append([]LSpec{}, a.nodes...)}
		any := false
		for i := range b.nodes {
			if i > 0 && len(b.nodes[i].src) == 1 && f(i) {
				b.nodes[i].wrap = mode
				any = true
			}
		}
		if any {
			out = append(out, b)
		}
	}
	for _, a := range append(archBranches(), archShared()...) {
		for mode := 1; mode <= 2; mode++ {
			with(a, mode, func(int) bool { return true })
			for k := range a.nodes {
				with(a, mode, func(i int) bool { return i == k })
			}
		}
	}
	return out
}

// archImages are all chains of up to n layers behind a small image.
func archImages(n int) []Arch {
	kinds := []LSpec{convL(2, 2, 1, 1, 1, "tanh"), convL(1, 1, 2, 1, 2, "sin"), deconvL(1, 2, 1, 2, 1, "sigmoid"), deconvL(2, 1, 2, 1, 1, "tanh"),
		pool(2, 1), pool(1, 2), up(2, 1), up(1, 2), flat(), dense(3, "tanh"), norm(), enorm(), softmax(), sub(1, 0, 1), sub(0, 0, 1)}
	var out []Arch
	var grow func(ls []LSpec)
	grow = func(ls []LSpec) {
		if len(ls) > 1 {
			a := chain("image chain", append([]LSpec{}, ls...)...)
			if !fits(a) {
				return
			}
			r := newRNet(a)
			if last := r.last(); last.kind == "softmax" && size(last.shape) < 2 {
				return
			}
			out = append(out, a)
		}
		if len(ls) <= n {
			for _, l := range kinds {
				grow(append(ls[:len(ls):len(ls)], l))
			}
		}
	}
	grow([]LSpec{in(2, 3, 2)})
	return out
}

// deepArch: a network of many small layers.
func deepArch(a Arch) bool { return len(a.nodes) > 30 }
