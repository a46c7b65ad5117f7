package main

// The reference network: layers as plain functions on float64 slices, the
// error carried back by the chain rule over the whole directed graph, and one
// gradient-descent step with momentum. It knows nothing of computation graphs.

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

// ---- activations

type refAct struct {
	f, d func(x float64) float64
	kink bool // not smooth at zero
}

func sigm(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

func gelu(x float64) float64 {
	return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
}

func geluD(x float64) float64 {
	c := math.Sqrt(2 / math.Pi)
	u := c * (x + 0.044715*x*x*x)
	t := math.Tanh(u)
	ch := math.Cosh(u)
	sech2 := 0.0
	if !math.IsInf(ch, 0) {
		sech2 = 1 / ch / ch
	}
	r := 0.5 * (1 + t)
	if sech2 != 0 {
		r += 0.5 * x * sech2 * c * (1 + 3*0.044715*x*x)
	}
	return r
}

// refActs: name -> definition. Parameters are part of the name.
func refActOf(name string) refAct {
	p := strings.Split(name, ":")
	num := func(i int) float64 {
		var v float64
		fmt.Sscan(p[i], &v)
		return v
	}
	switch p[0] {
	case "linear":
		return refAct{func(x float64) float64 { return x }, func(float64) float64 { return 1 }, false}
	case "sigmoid":
		return refAct{sigm, func(x float64) float64 { return sigm(x) * sigm(-x) }, false}
	case "tanh":
		return refAct{math.Tanh, func(x float64) float64 {
			c := math.Cosh(x)
			return 1 / c / c
		}, false}
	case "sin":
		return refAct{math.Sin, math.Cos, false}
	case "swish":
		return refAct{func(x float64) float64 { return x * sigm(x) },
			func(x float64) float64 { return sigm(x) + x*sigm(x)*sigm(-x) }, false}
	case "gelu":
		return refAct{gelu, geluD, false}
	case "relu":
		a := num(1)
		return refAct{func(x float64) float64 {
			if x < 0 {
				return a * x
			}
			return x
		}, func(x float64) float64 {
			if x < 0 {
				return a
			}
			return 1
		}, a != 1}
	case "elu", "selu":
		a, l := num(1), 1.0
		if p[0] == "selu" {
			l = num(2)
		}
		return refAct{func(x float64) float64 {
			if x < 0 {
				return l * a * math.Expm1(x)
			}
			return l * x
		}, func(x float64) float64 {
			if x < 0 {
				return l * a * math.Exp(x)
			}
			return l
		}, a != 1}
	}
	panic("activation " + name)
}

func realActOf[T types.Number](name string) activation.Activation[T] {
	p := strings.Split(name, ":")
	num := func(i int) T {
		var v float64
		fmt.Sscan(p[i], &v)
		return T(v)
	}
	switch p[0] {
	case "linear":
		return activation.Linear[T]{}
	case "sigmoid":
		return activation.Sigmoid[T]{}
	case "tanh":
		return activation.Tanh[T]{}
	case "sin":
		return activation.Sin[T]{}
	case "swish":
		return activation.Swish[T]{}
	case "gelu":
		return activation.GELU[T]{}
	case "relu":
		return activation.Relu[T]{Alpha: num(1)}
	case "elu":
		return activation.ELU[T]{Alpha: num(1)}
	case "selu":
		return activation.SELU[T]{ELU: activation.ELU[T]{Alpha: num(1)}, Lambda: num(2)}
	}
	panic("activation " + name)
}

// ---- architectures

// LSpec is one layer; src are the indices of the layers that feed it.
type LSpec struct {
	kind string
	src  []int
	a    []uint
	act  string
	wrap int // 1: in a model of its own, 2: in one with an input layer
}

type Arch struct {
	name  string
	nodes []LSpec
}

func (a Arch) String() string {
	s := a.name + ":"
	for i, n := range a.nodes {
		s += fmt.Sprintf(" %d=%s%v%v%s", i, n.kind, n.src, n.a, n.act)
		if n.wrap > 0 {
			s += []string{"", " in a model", " in a model with an input layer"}[n.wrap]
		}
	}
	return s
}

// chain makes the architecture of consecutive layers.
func chain(name string, ls ...LSpec) Arch {
	for i := range ls {
		if i > 0 {
			ls[i].src = []int{i - 1}
		}
	}
	return Arch{name, ls}
}

func in(s ...uint) LSpec                { return LSpec{"in", nil, s, "", 0} }
func indense(i, o uint, a string) LSpec { return LSpec{"indense", nil, []uint{i, o}, a, 0} }
func dense(o uint, a string) LSpec      { return LSpec{"dense", nil, []uint{o}, a, 0} }
func convL(f, kw, kh, sx, sy uint, a string) LSpec {
	return LSpec{"conv", nil, []uint{f, kw, kh, sx, sy}, a, 0}
}
func deconvL(f, kw, kh, sx, sy uint, a string) LSpec {
	return LSpec{"deconv", nil, []uint{f, kw, kh, sx, sy}, a, 0}
}
func pool(sx, sy uint) LSpec     { return LSpec{"pool", nil, []uint{sx, sy}, "", 0} }
func up(sx, sy uint) LSpec       { return LSpec{"up", nil, []uint{sx, sy}, "", 0} }
func flat() LSpec                { return LSpec{"flat", nil, nil, "", 0} }
func sub(d, f, t uint) LSpec     { return LSpec{"sub", nil, []uint{d, f, t}, "", 0} }
func norm() LSpec                { return LSpec{"norm", nil, nil, "", 0} }
func enorm() LSpec               { return LSpec{"enorm", nil, nil, "", 0} }
func softmax() LSpec             { return LSpec{"softmax", nil, nil, "", 0} }
func cat(a, b int, d uint) LSpec { return LSpec{"concat", []int{a, b}, []uint{d}, "", 0} }
func (l LSpec) from(i int) LSpec { l.src = []int{i}; return l }

// ---- the reference network

type RNode struct {
	LSpec
	shape      []uint
	W, B       []float64
	wS         []uint
	mW, mB     []float64
	frozen     bool
	out        []float64
	neta       []float64
	der        []float64
	D          []float64
	argmax     []int // pool: source position of each output
	peak       float64
	f          refAct
	consumers  int
	trainsSelf bool
}

type RNet struct {
	arch   Arch
	nodes  []*RNode
	inS    []uint
	margin float64 // distance of the last forward pass from any kink or tie
}

func newRNet(a Arch) *RNet {
	n := &RNet{arch: a}
	for i, l := range a.nodes {
		nd := &RNode{LSpec: l}
		var ps []uint
		if len(l.src) > 0 {
			ps = n.nodes[l.src[0]].shape
		}
		switch l.kind {
		case "in":
			nd.shape = l.a
			n.inS = l.a
		case "indense":
			n.inS = []uint{l.a[0]}
			nd.shape = []uint{l.a[1]}
			nd.wS = []uint{l.a[1], l.a[0]}
		case "dense":
			nd.shape = []uint{l.a[0]}
			nd.wS = []uint{l.a[0], uint(size(ps))}
		case "conv":
			nd.shape = []uint{l.a[0], (ps[1]-l.a[1])/l.a[3] + 1, (ps[2]-l.a[2])/l.a[4] + 1}
			nd.wS = []uint{l.a[0], ps[0], l.a[1], l.a[2]}
		case "deconv":
			nd.shape = []uint{l.a[0], (ps[1]-1)*l.a[3] + l.a[1], (ps[2]-1)*l.a[4] + l.a[2]}
			nd.wS = []uint{l.a[0], ps[0], l.a[1], l.a[2]}
		case "pool":
			nd.shape = []uint{ps[0], (ps[1] + l.a[0] - 1) / l.a[0], (ps[2] + l.a[1] - 1) / l.a[1]}
		case "up":
			nd.shape = []uint{ps[0], ps[1] * l.a[0], ps[2] * l.a[1]}
		case "flat":
			nd.shape = []uint{uint(size(ps))}
		case "sub":
			nd.shape = append([]uint{}, ps...)
			nd.shape[l.a[0]] = l.a[2] - l.a[1]
		case "concat":
			nd.shape = append([]uint{}, ps...)
			nd.shape[l.a[0]] += n.nodes[l.src[1]].shape[l.a[0]]
		case "norm", "enorm", "softmax":
			nd.shape = append([]uint{}, ps...)
		default:
			panic(l.kind)
		}
		if nd.wS != nil {
			nd.f = refActOf(l.act)
			nd.W = make([]float64, size(nd.wS))
			nd.B = make([]float64, size(nd.shape))
			nd.mW = make([]float64, len(nd.W))
			nd.mB = make([]float64, len(nd.B))
			nd.trainsSelf = true
		}
		for _, s := range l.src {
			n.nodes[s].consumers++
		}
		n.nodes = append(n.nodes, nd)
		_ = i
	}
	return n
}

func (n *RNet) last() *RNode { return n.nodes[len(n.nodes)-1] }

// paramsUpTo reports whether the node or anything before it has parameters.
func (n *RNet) paramsUpTo(i int) bool {
	nd := n.nodes[i]
	if nd.trainsSelf {
		return true
	}
	for _, s := range nd.src {
		if n.paramsUpTo(s) {
			return true
		}
	}
	return false
}

// fanout lists the nodes with several consumers that have parameters at or
// before them.
func (n *RNet) fanout() []int {
	var out []int
	for i, nd := range n.nodes {
		if nd.consumers > 1 && n.paramsUpTo(i) {
			out = append(out, i)
		}
	}
	return out
}

func at3(s []uint, f, x, y uint) int { return int((f*s[1]+x)*s[2] + y) }

func at4(s []uint, a, b, c, d uint) int { return int(((a*s[1]+b)*s[2]+c)*s[3] + d) }

// window calls f for every weight of a convolution or transposed convolution
// with the positions it connects.
func window(kind string, nd *RNode, inS []uint, f func(w, in, out int)) {
	F, kw, kh, sx, sy := nd.a[0], nd.a[1], nd.a[2], nd.a[3], nd.a[4]
	small := nd.shape
	if kind == "deconv" {
		small = inS
	}
	for o := uint(0); o < F; o++ {
		for i := uint(0); i < inS[0]; i++ {
			for x := uint(0); x < small[1]; x++ {
				for y := uint(0); y < small[2]; y++ {
					for kx := uint(0); kx < kw; kx++ {
						for ky := uint(0); ky < kh; ky++ {
							w := at4(nd.wS, o, i, kx, ky)
							if kind == "conv" {
								f(w, at3(inS, i, x*sx+kx, y*sy+ky), at3(nd.shape, o, x, y))
							} else {
								f(w, at3(inS, i, x, y), at3(nd.shape, o, x*sx+kx, y*sy+ky))
							}
						}
					}
				}
			}
		}
	}
}

func (n *RNet) forward(x []float64) []float64 {
	n.margin = math.Inf(1)
	for i := range n.nodes {
		n.forwardNode(i, x)
	}
	return n.last().out
}

func (n *RNet) forwardNode(i int, x []float64) {
	nd := n.nodes[i]
	var p *RNode
	in := x
	var inS []uint
	if len(nd.src) > 0 {
		p = n.nodes[nd.src[0]]
		in, inS = p.out, p.shape
	}
	sz := size(nd.shape)
	nd.out, nd.der = make([]float64, sz), make([]float64, sz)
	switch nd.kind {
	case "in":
		copy(nd.out, x)
		for j := range nd.der {
			nd.der[j] = 1
		}
	case "dense", "indense":
		nd.neta = make([]float64, sz)
		for o := range nd.neta {
			s := nd.B[o]
			for j := range in {
				s += nd.W[o*len(in)+j] * in[j]
			}
			nd.neta[o] = s
		}
	case "conv", "deconv":
		nd.neta = append([]float64{}, nd.B...)
		window(nd.kind, nd, inS, func(w, a, b int) { nd.neta[b] += nd.W[w] * in[a] })
	case "pool":
		nd.argmax = make([]int, sz)
		for f := uint(0); f < nd.shape[0]; f++ {
			for x := uint(0); x < nd.shape[1]; x++ {
				for y := uint(0); y < nd.shape[2]; y++ {
					o := at3(nd.shape, f, x, y)
					best, second, arg := math.Inf(-1), math.Inf(-1), at3(inS, f, x*nd.a[0], y*nd.a[1])
					for a := x * nd.a[0]; a < (x+1)*nd.a[0] && a < inS[1]; a++ {
						for b := y * nd.a[1]; b < (y+1)*nd.a[1] && b < inS[2]; b++ {
							v := in[at3(inS, f, a, b)]
							if math.IsNaN(v) {
								n.margin = 0
							}
							if v > best {
								best, second, arg = v, best, at3(inS, f, a, b)
							} else if v > second {
								second = v
							}
						}
					}
					nd.out[o], nd.argmax[o], nd.der[o] = best, arg, p.der[arg]
					n.margin = math.Min(n.margin, best-second)
				}
			}
		}
	case "up":
		n.eachUp(nd, inS, func(a, o int) { nd.out[o], nd.der[o] = in[a], p.der[a] })
	case "flat":
		copy(nd.out, in)
		copy(nd.der, p.der)
	case "sub":
		n.eachSub(nd, inS, func(a, o int) { nd.out[o], nd.der[o] = in[a], p.der[a] })
	case "concat":
		n.eachCat(nd, func(s *RNode, a, o int) { nd.out[o], nd.der[o] = s.out[a], s.der[a] })
	case "norm", "enorm":
		lo, hi := nd.bounds()
		nd.peak = 0
		for _, v := range in {
			nd.peak = math.Max(nd.peak, math.Abs(v))
		}
		n.margin = math.Min(n.margin, nd.peak)
		for j, v := range in {
			nd.out[j] = v/nd.peak*(hi-lo) + lo
		}
		copy(nd.der, p.der)
	case "softmax":
		m, s := math.Inf(1), 0.0
		for _, v := range in {
			m = math.Min(m, v)
		}
		for _, v := range in {
			s += v - m
		}
		for j, v := range in {
			nd.out[j] = (v - m) / s
		}
		n.margin = math.Min(n.margin, s)
		copy(nd.der, p.der)
	}
	if nd.wS != nil {
		for j, v := range nd.neta {
			nd.out[j], nd.der[j] = nd.f.f(v), nd.f.d(v)
			if nd.f.kink {
				n.margin = math.Min(n.margin, math.Abs(v))
			}
		}
	}
}

func (nd *RNode) bounds() (lo, hi float64) {
	if nd.kind == "enorm" {
		return -1, 1
	}
	return 0, 1
}

func (n *RNet) eachUp(nd *RNode, inS []uint, f func(a, o int)) {
	indices(nd.shape, func(ix []uint) {
		f(at3(inS, ix[0], ix[1]/nd.a[0], ix[2]/nd.a[1]), at3(nd.shape, ix[0], ix[1], ix[2]))
	})
}

func posOf(s, idx []uint) int {
	p := 0
	for i, d := range s {
		p = p*int(d) + int(idx[i])
	}
	return p
}

func (n *RNet) eachSub(nd *RNode, inS []uint, f func(a, o int)) {
	o := 0
	indices(nd.shape, func(ix []uint) {
		src := append([]uint{}, ix...)
		src[nd.a[0]] += nd.a[1]
		f(posOf(inS, src), o)
		o++
	})
}

func (n *RNet) eachCat(nd *RNode, f func(s *RNode, a, o int)) {
	n.eachCatOf(nd, func(k, a, o int) { f(n.nodes[nd.src[k]], a, o) })
}

// eachCatOf says from which position of which operand each element comes.
func (n *RNet) eachCatOf(nd *RNode, f func(k, a, o int)) {
	a, b := n.nodes[nd.src[0]], n.nodes[nd.src[1]]
	o := 0
	d := nd.a[0]
	indices(nd.shape, func(ix []uint) {
		if ix[d] < a.shape[d] {
			f(0, posOf(a.shape, ix), o)
		} else {
			src := append([]uint{}, ix...)
			src[d] -= a.shape[d]
			f(1, posOf(b.shape, src), o)
		}
		o++
	})
}

// push carries the error of a node to the nodes that feed it.
func (n *RNet) push(i int, D []float64) {
	nd := n.nodes[i]
	if len(nd.src) == 0 {
		return
	}
	p := n.nodes[nd.src[0]]
	switch nd.kind {
	case "dense":
		for j := range p.out {
			s := 0.0
			for o := range D {
				s += nd.W[o*len(p.out)+j] * D[o]
			}
			p.D[j] += s * p.der[j]
		}
	case "conv", "deconv":
		acc := make([]float64, len(p.out))
		window(nd.kind, nd, p.shape, func(w, a, b int) { acc[a] += nd.W[w] * D[b] })
		for j := range acc {
			p.D[j] += acc[j] * p.der[j]
		}
	case "pool":
		for o, a := range nd.argmax {
			p.D[a] += D[o]
		}
	case "up":
		n.eachUp(nd, p.shape, func(a, o int) { p.D[a] += D[o] })
	case "flat", "softmax":
		for j := range D {
			p.D[j] += D[j]
		}
	case "sub":
		n.eachSub(nd, p.shape, func(a, o int) { p.D[a] += D[o] })
	case "concat":
		n.eachCat(nd, func(s *RNode, a, o int) { s.D[a] += D[o] })
	case "norm", "enorm":
		lo, hi := nd.bounds()
		for j := range D {
			p.D[j] += D[j] * (hi - lo) / nd.peak
		}
	}
}

// step is one training step; it returns the loss before it.
func (n *RNet) step(x, target []float64, alpha, momentum float64) float64 {
	out := n.forward(x)
	for _, nd := range n.nodes {
		nd.D = make([]float64, len(nd.out))
	}
	loss := 0.0
	for i := range out {
		n.last().D[i] = target[i] - out[i]
		loss += math.Abs(target[i] - out[i])
	}
	for i := len(n.nodes) - 1; i >= 0; i-- {
		n.push(i, n.nodes[i].D)
	}
	for i := range n.nodes {
		n.update(i, x, alpha, momentum)
	}
	return loss
}

func (n *RNet) update(i int, x []float64, alpha, momentum float64) {
	nd := n.nodes[i]
	if nd.wS == nil {
		return
	}
	in := x
	var inS []uint
	if len(nd.src) > 0 {
		in, inS = n.nodes[nd.src[0]].out, n.nodes[nd.src[0]].shape
	}
	g := make([]float64, len(nd.W))
	if nd.kind == "conv" || nd.kind == "deconv" {
		window(nd.kind, nd, inS, func(w, a, b int) { g[w] += in[a] * nd.D[b] })
	} else {
		for o := range nd.D {
			for j := range in {
				g[o*len(in)+j] = nd.D[o] * in[j]
			}
		}
	}
	for k := range g {
		nd.mW[k] = alpha*g[k] + momentum*nd.mW[k]
		if !nd.frozen {
			nd.W[k] += nd.mW[k]
		}
	}
	for k := range nd.B {
		nd.mB[k] = alpha*nd.D[k] + momentum*nd.mB[k]
		if !nd.frozen {
			nd.B[k] += nd.mB[k]
		}
	}
}

func (n *RNet) clone() *RNet {
	m := newRNet(n.arch)
	for i, nd := range n.nodes {
		c := m.nodes[i]
		c.W, c.B = append([]float64{}, nd.W...), append([]float64{}, nd.B...)
		c.mW, c.mB = append([]float64{}, nd.mW...), append([]float64{}, nd.mB...)
		c.frozen = nd.frozen
		c.D = append([]float64{}, nd.D...)
	}
	return m
}

// ---- the real network

type Net[T types.Number] struct {
	arch   Arch
	layers []layer.Layer[T]
	m      *model.Model[T]
	parts  []*model.Model[T]
	ref    *RNet
	shadow *RNet
	extra  []int // an input layer of a nested model stands before this node
}

func makeLayer[T types.Number](l LSpec, src []layer.Layer[T]) layer.Layer[T] {
	var r layer.Layer[T]
	sq := func() bool { return l.a[1] == l.a[2] && l.a[3] == l.a[4] }
	switch l.kind {
	case "in":
		return layer.NewInput[T](append([]uint{}, l.a...)...)
	case "indense":
		return layer.NewInDense[T](l.a[0], l.a[1], realActOf[T](l.act))
	case "dense":
		r = layer.NewDense[T](l.a[0], realActOf[T](l.act))
	case "conv":
		if sq() {
			r = layer.NewConv2D[T](l.a[0], l.a[1], l.a[3], realActOf[T](l.act))
		} else {
			r = layer.NewConv2Dwh[T](l.a[0], l.a[1], l.a[2], l.a[3], l.a[4], realActOf[T](l.act))
		}
	case "deconv":
		if sq() {
			r = layer.NewDeconv2D[T](l.a[0], l.a[1], l.a[3], realActOf[T](l.act))
		} else {
			r = layer.NewDeconv2Dwh[T](l.a[0], l.a[1], l.a[2], l.a[3], l.a[4], realActOf[T](l.act))
		}
	case "pool":
		if l.a[0] == l.a[1] {
			r = layer.NewMaxPool2D[T](l.a[0])
		} else {
			r = layer.NewMaxPool2Dxy[T](l.a[0], l.a[1])
		}
	case "up":
		if l.a[0] == l.a[1] {
			r = layer.NewUpSampling2D[T](l.a[0])
		} else {
			r = layer.NewUpSampling2Dxy[T](l.a[0], l.a[1])
		}
	case "flat":
		r = layer.NewFlatten[T]()
	case "sub":
		r = layer.NewSubTensor[T](l.a[0], l.a[1], l.a[2])
	case "norm":
		r = layer.NewNorm[T]()
	case "enorm":
		r = layer.NewENorm[T]()
	case "softmax":
		r = layer.NewSoftMax[T]()
	case "concat":
		return layer.NewConcat[T](src[0], src[1], l.a[0])
	}
	if len(src) > 0 {
		r.Connect(src[0])
	}
	return r
}

// wire makes all layers of an architecture, explicitly connected.
func wire[T types.Number](a Arch) []layer.Layer[T] {
	var ls, outer []layer.Layer[T]
	var shapes *RNet
	for _, l := range a.nodes {
		var src []layer.Layer[T]
		for _, s := range l.src {
			src = append(src, outer[s])
		}
		if l.wrap == 0 {
			ls = append(ls, makeLayer[T](l, src))
			outer = append(outer, ls[len(ls)-1])
			continue
		}
		m := model.NewModel[T]()
		if l.wrap == 2 {
			if shapes == nil {
				shapes = newRNet(a)
			}
			m.Push(layer.NewInput[T](shapes.nodes[l.src[0]].shape...))
		}
		ls = append(ls, makeLayer[T](l, nil))
		m.Push(ls[len(ls)-1])
		m.Connect(src[0])
		outer = append(outer, m)
	}
	if len(ls) > 0 && a.nodes[len(ls)-1].wrap > 0 {
		ls = append(ls[:len(ls):len(ls)], outer[len(ls)-1])
	}
	return ls
}

func newNet[T types.Number](a Arch) *Net[T] {
	n := &Net[T]{arch: a, layers: wire[T](a), ref: newRNet(a)}
	m, err := model.FromInOut[T](n.layers[0], n.layers[len(n.layers)-1])
	noErr("FromInOut", err)
	n.layers = n.layers[:len(a.nodes)]
	for i, l := range a.nodes {
		if l.wrap == 2 {
			n.extra = append(n.extra, i)
		}
	}
	n.m = m
	return n
}

// compiled makes the network, compiles it and gives it known parameters.
func compiled[T types.Number](a Arch, seed int) *Net[T] {
	n := newNet[T](a)
	noErr("Compile", n.m.Compile())
	n.setParams(seed)
	return n
}

// field finds an exported field of the struct behind a layer.
func field[T types.Number](l layer.Layer[T], name string) tensor.Tensor[T] {
	v := reflect.ValueOf(l)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	t, _ := f.Interface().(tensor.Tensor[T])
	return t
}

func paramValue(i, k, seed int) float64 {
	v := float64((i*29+k*13+seed*7)%23-11) / 16
	if v == 0 {
		v = 0.4
	}
	return v + float64(i%7)/128 + float64(k)/256
}

// setParams gives the parameters of both networks the same known values.
func (n *Net[T]) setParams(seed int) {
	for k, nd := range n.ref.nodes {
		if nd.wS == nil {
			continue
		}
		for i := range nd.W {
			nd.W[i] = float64(T(paramValue(i, k, seed)))
		}
		for i := range nd.B {
			nd.B[i] = float64(T(paramValue(i+5, k+3, seed)))
		}
	}
	n.load(n.ref)
}

// load writes the reference's parameters into the real layers.
func (n *Net[T]) load(r *RNet) {
	for k, nd := range r.nodes {
		if nd.wS == nil {
			continue
		}
		W, B := field(n.layers[k], "Weights"), field(n.layers[k], "Bias")
		if W == nil || B == nil {
			Fail("layer %d (%s) of a compiled model has no weights or bias", k, nd.kind)
		}
		if !sameShape(W.GetShape(), nd.wS) || !sameShape(B.GetShape(), nd.shape) {
			Fail("layer %d (%s): parameters of shape %v and %v instead of %v and %v", k, nd.kind, W.GetShape(), B.GetShape(), nd.wS, nd.shape)
		}
		noErr("LoadData", W.LoadData(toT[T](nd.W)))
		noErr("LoadData", B.LoadData(toT[T](nd.B)))
	}
}

// read takes the real parameters into the reference.
func (n *Net[T]) read() {
	for k, nd := range n.ref.nodes {
		if nd.wS == nil {
			continue
		}
		W, B := field(n.layers[k], "Weights"), field(n.layers[k], "Bias")
		if W == nil || B == nil {
			Fail("layer %d (%s) of a compiled model has no weights or bias", k, nd.kind)
		}
		nd.W, nd.B = toF(W.GetData()), toF(B.GetData())
	}
}

func toT[T types.Number](d []float64) []T {
	out := make([]T, len(d))
	for i, v := range d {
		out[i] = T(v)
	}
	return out
}

func toF[T types.Number](d []T) []float64 {
	out := make([]float64, len(d))
	for i, v := range d {
		out[i] = float64(v)
	}
	return out
}

func ten[T types.Number](s []uint, d []float64) tensor.Tensor[T] {
	return tensor.NewFromValues[T](toT[T](d), s...)
}

// nearNet compares results of networks up to accumulated rounding.
func nearNet[T types.Number](a, b float64) bool {
	e := 1e-8
	var z T
	if _, ok := any(z).(float32); ok {
		e = 3e-4
	}
	return math.Abs(a-b) <= e*(1+math.Abs(a)+math.Abs(b))
}

func (n *Net[T]) cmp(what string, got []T, want []float64) {
	if len(got) != len(want) {
		Fail("%s: %d values instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if !nearNet[T](float64(got[i]), want[i]) && !(got[i] != got[i] && math.IsNaN(want[i])) {
			Fail("%s: value %d is %v instead of %v (got %v, want %v)", what, i, got[i], want[i], short(got), short(want))
		}
	}
}

func (n *Net[T]) cmpOut(what string, got tensor.Tensor[T], want []float64) {
	if !sameShape(got.GetShape(), n.ref.last().shape) {
		Fail("%s: shape %v instead of %v", what, got.GetShape(), n.ref.last().shape)
	}
	n.cmp(what, got.GetData(), want)
}

// badParam returns the first layer whose parameters differ, with what.
func (n *Net[T]) badParam(r *RNet) (int, string) {
	for k, nd := range r.nodes {
		if nd.wS == nil {
			continue
		}
		W, B := field(n.layers[k], "Weights"), field(n.layers[k], "Bias")
		for i, v := range W.GetData() {
			if !nearNet[T](float64(v), nd.W[i]) {
				return k, fmt.Sprintf("layer %d (%s): weight %d is %v instead of %v", k, nd.kind, i, v, nd.W[i])
			}
		}
		for i, v := range B.GetData() {
			if !nearNet[T](float64(v), nd.B[i]) {
				return k, fmt.Sprintf("layer %d (%s): bias %d is %v instead of %v", k, nd.kind, i, v, nd.B[i])
			}
		}
	}
	return -1, ""
}

func (n *Net[T]) cmpParams(what string) {
	if k, s := n.badParam(n.ref); k >= 0 {
		Fail("%s: %s", what, s)
	}
}

// bitsOf lists all real parameters exactly.
func (n *Net[T]) bitsOf() [][]uint64 {
	var out [][]uint64
	for k, nd := range n.ref.nodes {
		if nd.wS == nil {
			continue
		}
		var b []uint64
		for _, name := range []string{"Weights", "Bias"} {
			for _, v := range field(n.layers[k], name).GetData() {
				b = append(b, bits(v))
			}
		}
		out = append(out, b)
	}
	return out
}

// sample k of an architecture's data.
func sampleX(s []uint, k int) []float64 {
	out := make([]float64, size(s))
	for i := range out {
		v := float64((i*17+k*31+3)%19-9) / 8
		if v == 0 {
			v = 0.3
		}
		out[i] = v + float64(i%5)/64 + float64(k)/128
	}
	return out
}

func sampleY(s []uint, k int) []float64 {
	out := make([]float64, size(s))
	for i := range out {
		out[i] = float64((i*11+k*23+5)%13-6)/8 + 0.015625
	}
	return out
}
