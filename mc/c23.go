package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C23", &Check{
		Run:   runC23,
		Level: "model_checking",
		Rule: "tensors: 6 element types x all shapes of rank 0 to 4 with dimensions 1 to 3 (and 11) x values including the extremes of the type, infinities, NaN and -0: the text is parsed back and gives the shape and every element in row-major order. " +
			"summaries: every architecture (chains of up to 130 layers, branches, shared layers), every way of nesting the layers of three chains into models, chained models: the lines are matched, one to one and in an order in which every layer follows the layers feeding it, with the layers of the reference network (depth, depths of the sources in order, output shape, kind); the text of every single layer, of the 9048 networks of up to 4 layers and the 2868 chains of up to 3 image layers; the same text after every history of length 3 over {summary, predict, train, prepare back-propagation, reset, save, freeze, summaries of the parts of chained models, texts of single layers with those before them}, with the first summary before or after that history. state = (architecture or tensor, history prefix)",
		Assumptions: []string{"the position of a layer is its depth, so parallel branches may share positions", "kinds are told apart by name, whatever the names are; Norm and ENorm may share one, and so may the two dense constructors"},
	})
}

func runC23(c *C) {
	c23tensor[float64](c, math.MaxFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 0.1, 1e21, -1e-7, 123456789)
	c23tensor[float32](c, math.MaxFloat32, -math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), float32(math.Copysign(0, -1)), 0.1, 1e21, -1e-7, 16777217)
	c23tensor[int](c, math.MaxInt64, math.MinInt64, 0, -1, 10)
	c23tensor[int16](c, math.MaxInt16, math.MinInt16, 0, -1, 10)
	c23tensor[int32](c, math.MaxInt32, math.MinInt32, 0, -1, 10)
	c23tensor[int64](c, math.MaxInt64, math.MinInt64, 0, -1, 10)

	d := 3
	if c.Thorough {
		d = 4
	}
	for _, a := range archAll() {
		a := a
		c23hist(c, a.String(), d, func() *Net[float64] { return newNet[float64](a) })
		c23hist(c, a.String(), 1, func() *Net[float32] { return newNet[float32](a) })
	}
	for _, a := range archLong() {
		a := a
		c23hist(c, a.String(), 1, func() *Net[float64] { return newNet[float64](a) })
	}
	for _, a := range append(append(archDags(4), archNested()...), archImages(3)...) {
		a := a
		c23hist(c, a.String(), 1, func() *Net[float64] { return newNet[float64](a) })
	}
	three := []Arch{
		chain("nested", in(2), dense(2, "tanh"), dense(3, "linear"), dense(1, "sin")),
		chain("nested conv", in(1, 3, 3), convL(2, 2, 2, 1, 1, "tanh"), pool(2, 1), dense(2, "linear")),
		chain("nested up", indense(4, 4, "tanh"), norm(), flat(), softmax()),
	}
	for _, a := range three {
		for _, p := range plans(4, 2) {
			a, p := a, p
			c23hist(c, "nested "+p.String()+" of "+a.String(), 1, func() *Net[float64] { return composed[float64](a, p) })
		}
		for _, cuts := range cutSets(4) {
			for k := 0; k < 4; k++ {
				a, cuts, k := a, cuts, k
				c23hist(c, fmt.Sprint("chained at ", cuts, k, a), 1, func() *Net[float64] { return chained[float64](a, cuts, k > 1, k%2) })
			}
		}
	}
	c.Bound("history", uint64(d))
}

var intRe = regexp.MustCompile(`-?\d+`)
var listRe = regexp.MustCompile(`\[([^\[\]]*)\]`)
var preRe = regexp.MustCompile(`\(([^()]*)\)`)

func ints(s string) []uint {
	out := []uint{}
	for _, m := range intRe.FindAllString(s, -1) {
		v, _ := strconv.Atoi(m)
		out = append(out, uint(v))
	}
	return out
}

func c23tensor[T types.Number](c *C, special ...T) {
	list := shapes(0, 4, 1, 3)
	list = append(list, []uint{11}, []uint{2, 11}, []uint{11, 1, 2}, []uint{1, 1, 1, 1, 1}, []uint{2, 1, 2, 1, 2, 3}, []uint{100}, []uint{101, 2}, []uint{1025}, []uint{32, 33}, []uint{4, 4, 4, 4, 4})
	for _, s := range list {
		s := s
		if c.Out() || !c.Mine() {
			continue
		}
		for v := 0; v < 2; v++ {
			r := mkRT[T](s, func(i int) T {
				if v == 1 && i < len(special) {
					return special[len(special)-1-i]
				}
				if v == 1 {
					return special[i%len(special)]
				}
				x := T(i + 1)
				if isFloat[T]() {
					x /= 4
				}
				return x
			})
			c.State("tensor", typeName[T](), s, v)
			c.Do(func() string { return fmt.Sprintf("%s tensor of shape %v, values %v", typeName[T](), s, short(r.D)) }, func() {
				c23text(r.mat(), r)
				if v == 0 {
					// a computed tensor is shown with its result
					t := tensor.Neg[T](r.mat())
					runGraph("Neg", t)
					c23text(t, r.map1(func(x T) T { return -x }))
				}
				c.Step(2)
			})
		}
	}
}

func c23text[T types.Number](t tensor.Tensor[T], r RT[T]) {
	text := t.String()
	if again := t.String(); again != text {
		Fail("the text changes from %q to %q", text, again)
	}
	lists := listRe.FindAllStringSubmatch(text, -1)
	if len(lists) < 2 {
		Fail("no shape or no elements in %q", text)
	}
	if got := ints(lists[0][1]); !sameShape(got, r.S) {
		Fail("shape %v shown as %v in %q", r.S, got, text)
	}
	els := strings.FieldsFunc(lists[len(lists)-1][1], func(r rune) bool { return r == ',' || r == ' ' })
	if len(els) != len(r.D) {
		Fail("%d elements shown for %d in %q", len(els), len(r.D), text)
	}
	for i, e := range els {
		ok := false
		if isFloat[T]() {
			f, err := strconv.ParseFloat(e, 64)
			ok = err == nil && eqv(T(f), r.D[i])
		} else {
			n, err := strconv.ParseInt(e, 10, 64)
			ok = err == nil && T(n) == r.D[i]
		}
		if !ok {
			Fail("element %d, %v, is shown as %q in %q", i, r.D[i], e, text)
		}
	}
}

var c23ops = []string{"String", "Predict", "TrainOne", "CompileBackPropagation", "ResetIS", "Save", "freeze", "summary of each part", "text of each layer and those before it", "the same from the last layer on"}

func c23hist[T types.Number](c *C, name string, depth int, mk func() *Net[T]) {
	seqs(len(c23ops), depth, func(s []int) {
		if c.Out() || !c.Mine() {
			return
		}
		h := append([]int{}, s...)
		for late := 0; late < 2; late++ {
			c23one(c, name, h, late == 1, mk)
		}
	})
}

// c23one: one history; the first summary comes before it, or (late) at its end.
func c23one[T types.Number](c *C, name string, h []int, late bool, mk func() *Net[T]) {
	{
		c.Do(func() string {
			t := typeName[T]() + " " + name + ": Compile;"
			if !late {
				t += " String;"
			}
			for _, k := range h {
				t += " " + c23ops[k] + ";"
			}
			return t
		}, func() {
			n := mk()
			noErr("Compile", n.m.Compile())
			text := ""
			if !late {
				text = n.m.String()
				c23summary(n, text)
				c23layers(n)
			}
			push := func(l layer.Layer[T]) {
				var sb strings.Builder
				l.ResetPrinted()
				l.PushToString(&sb)
			}
			for i, k := range h {
				switch k {
				case 1:
					_, err := n.m.Predict(ten[T](n.ref.inS, sampleX(n.ref.inS, 0)))
					noErr("Predict", err)
				case 2:
					s := n.ref.last().shape
					_, err := n.m.TrainOne(ten[T](n.ref.inS, sampleX(n.ref.inS, 0)), ten[T](s, sampleY(s, 0)), 0, 0)
					noErr("TrainOne", err)
				case 3:
					noErr("CompileBackPropagation", n.m.CompileBackPropagation())
				case 4:
					noErr("ResetIS", n.m.ResetIS())
				case 5:
					n.m.ResetSave()
					noErr("Save", n.m.Save(&bytes.Buffer{}))
				case 6:
					n.m.SetTrainable(false)
				case 7:
					for _, m := range n.parts {
						_ = m.String()
					}
				case 8:
					for _, l := range n.layers {
						push(l)
					}
				case 9:
					for j := len(n.layers) - 1; j >= 0; j-- {
						push(n.layers[j])
					}
				}
				if late && i < len(h)-1 {
					continue
				}
				now := n.m.String()
				if late {
					c23summary(n, now)
					c23layers(n)
				} else if now != text {
					Fail("step %d: the summary changes from\n%s\nto\n%s", i, text, now)
				}
				c.Step(1)
				c.State(name, typeName[T](), late, fmt.Sprint(h[:i+1]))
			}
		})
	}
}

type c23line struct {
	index      uint
	pre, shape []uint
	kind       string
	text       string
}

// c23layers: the text of a layer on its own shows its position and shape.
func c23layers[T types.Number](n *Net[T]) {
	all, at := withInputs(n)
	depth := depths(all)
	for i, l := range n.layers {
		s, ok := any(l).(fmt.Stringer)
		if !ok {
			continue
		}
		if _, is := any(l).(*model.Model[T]); is {
			continue
		}
		text := s.String()
		lists := listRe.FindAllStringSubmatch(text, -1)
		if len(lists) < 2 || !sameShape(ints(lists[len(lists)-1][1]), n.ref.nodes[i].shape) || !sameShape(ints(lists[0][1]), []uint{depth[at[i]]}) {
			Fail("layer %d at position %d with output shape %v is shown as %q", i, depth[at[i]], n.ref.nodes[i].shape, text)
		}
	}
}

// withInputs are the layers together with the input layers of nested models,
// and where each layer is among them.
func withInputs[T types.Number](n *Net[T]) (all []*RNode, at []int) {
	for i, nd := range n.ref.nodes {
		c := *nd
		c.src = nil
		for _, s := range nd.src {
			c.src = append(c.src, at[s])
		}
		for _, e := range n.extra {
			if e == i {
				x := &RNode{LSpec: LSpec{kind: "in", src: c.src}, shape: n.ref.nodes[nd.src[0]].shape}
				all = append(all, x)
				c.src = []int{len(all) - 1}
			}
		}
		all = append(all, &c)
		at = append(at, len(all)-1)
	}
	return all, at
}

// depths are the distances of the layers from the input.
func depths(nodes []*RNode) []uint {
	depth := make([]uint, len(nodes))
	for i, nd := range nodes {
		for _, s := range nd.src {
			if depth[s]+1 > depth[i] {
				depth[i] = depth[s] + 1
			}
		}
	}
	return depth
}

// kinds seen so far: name shown -> kind of layer, and back.
var c23kind = map[string]string{}
var c23name = map[string]string{}

func c23summary[T types.Number](n *Net[T], text string) {
	var lines []c23line
	for _, l := range strings.Split(text, "\n") {
		if !strings.Contains(l, "Layer") {
			continue
		}
		head, tail, ok := strings.Cut(l, "=>")
		shapes := listRe.FindAllStringSubmatch(tail, -1)
		idx := ints(head)
		if !ok || len(shapes) == 0 || len(idx) == 0 {
			Fail("cannot read the line %q of the summary\n%s", l, text)
		}
		p := c23line{index: idx[0], shape: ints(shapes[len(shapes)-1][1]), text: l, pre: []uint{}}
		if m := preRe.FindStringSubmatch(head); m != nil {
			p.pre = ints(m[1])
		}
		p.kind, _, _ = strings.Cut(strings.TrimSpace(tail), ":")
		lines = append(lines, p)
	}
	nodes, _ := withInputs(n)
	if len(lines) != len(nodes) {
		Fail("%d lines for %d layers in the summary\n%s", len(lines), len(nodes), text)
	}
	depth := depths(nodes)
	fits := func(l c23line, i int) bool {
		if l.index != depth[i] || !sameShape(l.shape, nodes[i].shape) || len(l.pre) != len(nodes[i].src) {
			return false
		}
		for k, s := range nodes[i].src {
			if l.pre[k] != depth[s] {
				return false
			}
		}
		return true
	}
	used := make([]bool, len(nodes))
	var kinds []int
	var match func(k int) bool
	match = func(k int) bool {
		if k == len(lines) {
			return true
		}
	next:
		for i, nd := range nodes {
			if used[i] || !fits(lines[k], i) {
				continue
			}
			for _, s := range nd.src {
				if !used[s] {
					continue next
				}
			}
			used[i] = true
			kinds = append(kinds, i)
			if match(k + 1) {
				return true
			}
			kinds = kinds[:len(kinds)-1]
			used[i] = false
		}
		return false
	}
	if !match(0) {
		Fail("the summary does not list the layers %s one by one, each after the layers feeding it, with position, sources and output shape:\n%s", n.arch, text)
	}
	for k, i := range kinds {
		kind := nodes[i].kind
		switch kind {
		case "enorm":
			kind = "norm"
		case "indense":
			kind = "dense"
		}
		name := lines[k].kind
		if name == "" {
			Fail("no kind in the line %q", lines[k].text)
		}
		ambiguous := false
		for j := range nodes {
			if j != i && fits(lines[k], j) {
				ambiguous = true
			}
		}
		if ambiguous {
			continue
		}
		if o, ok := c23kind[name]; ok && o != kind {
			Fail("a %s layer is shown as %q like a %s layer", kind, name, o)
		}
		if o, ok := c23name[kind]; ok && o != name {
			Fail("a %s layer is shown as %q and as %q", kind, o, name)
		}
		c23kind[name], c23name[kind] = kind, name
	}
}

// archLong: many layers, positions and sizes of several digits.
func archLong() []Arch {
	var out []Arch
	for _, n := range []int{11, 12, 23, 101, 130} {
		ls := []LSpec{in(2)}
		for i := 1; i < n; i++ {
			switch i % 4 {
			case 3:
				ls = append(ls, norm())
			default:
				ls = append(ls, dense(uint(1+i%5), "tanh"))
			}
		}
		out = append(out, chain(fmt.Sprintf("long%d", n), ls...))
	}
	// many branches, joined one by one
	for _, teeth := range []int{12, 70} {
		a := Arch{fmt.Sprint("comb", teeth), []LSpec{in(2)}}
		last := 0
		for i := 0; i < teeth; i++ {
			a.nodes = append(a.nodes, dense(uint(1+i%3), "tanh").from(0))
			k := len(a.nodes) - 1
			if i > 0 {
				a.nodes = append(a.nodes, cat(last, k, 0))
				k++
			}
			last = k
		}
		out = append(out, a)
	}
	// a long chain each of whose layers also feeds a concatenation
	sp := Arch{"spine", []LSpec{in(2)}}
	const spine = 130
	for i := 1; i <= spine; i++ {
		if i%5 == 4 {
			sp.nodes = append(sp.nodes, norm().from(i-1))
			continue
		}
		sp.nodes = append(sp.nodes, dense(uint(2+i%3), "tanh").from(i-1))
	}
	at := 1
	for i := 2; i <= spine; i++ {
		sp.nodes = append(sp.nodes, cat(at, i, 0))
		at = len(sp.nodes) - 1
	}
	out = append(out, sp)
	// every layer feeds two others (the time that resetting takes doubles with
	// every second rung)
	b := Arch{"ladder", []LSpec{in(2)}}
	for i := 1; i < 30; i += 2 {
		b.nodes = append(b.nodes, dense(uint(1+i%3), "tanh").from(i-1))
		if i == 1 {
			b.nodes = append(b.nodes, cat(0, 1, 0))
			continue
		}
		b.nodes = append(b.nodes, cat(i-2, i, 0))
	}
	out = append(out, b)
	out = append(out,
		chain("wide", in(1, 12, 15), convL(12, 2, 3, 1, 1, "tanh"), pool(2, 2), up(3, 2), flat(), dense(101, "linear"), sub(0, 3, 18), softmax()),
		chain("wide dense", indense(100, 128, "tanh"), dense(10, "linear")),
	)
	return out
}
