package main

// Ways of putting the layers of a chain together: pushed, connected, nested in
// models of models.

import (
	"fmt"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
)

// Seg is a tree over consecutive layers lo..hi-1: one layer, or a model of
// its kids.
type Seg struct {
	lo, hi int
	kids   []Seg // nil: the layer itself
}

func (s Seg) String() string {
	if s.kids == nil {
		return fmt.Sprint(s.lo)
	}
	t := "("
	for i, k := range s.kids {
		if i > 0 {
			t += " "
		}
		t += k.String()
	}
	return t + ")"
}

// segTrees lists all models over the layers lo..hi-1 with at most depth levels
// of models inside.
func segTrees(lo, hi, depth int) []Seg {
	var out []Seg
	for _, kids := range segLists(lo, hi, depth) {
		out = append(out, Seg{lo, hi, kids})
	}
	return out
}

func segLists(lo, hi, depth int) [][]Seg {
	if lo == hi {
		return [][]Seg{nil}
	}
	var out [][]Seg
	for e := lo + 1; e <= hi; e++ {
		var firsts []Seg
		if e == lo+1 {
			firsts = append(firsts, Seg{lo, e, nil})
		}
		if depth > 0 {
			firsts = append(firsts, segTrees(lo, e, depth-1)...)
		}
		for _, rest := range segLists(e, hi, depth) {
			for _, f := range firsts {
				out = append(out, append([]Seg{f}, rest...))
			}
		}
	}
	return out
}

// Plan is a tree together with the way its models are made.
type Plan struct {
	root   Seg
	mode   int  // 0: Push everywhere, 1: Connect and FromInOut, 2: alternating
	inputs bool // inner models start with an input layer of their own
	stray  bool // every part was connected to another layer before
}

func (p Plan) String() string {
	t := fmt.Sprintf("%v %s inputs=%v", p.root, []string{"pushed", "connected", "mixed"}[p.mode], p.inputs)
	if p.stray {
		t += " connected to something else before"
	}
	return t
}

// composed makes the network of a chain put together as the plan says.
func composed[T types.Number](a Arch, p Plan) *Net[T] {
	n := &Net[T]{arch: a, ref: newRNet(a)}
	for _, l := range a.nodes {
		n.layers = append(n.layers, makeLayer[T](l, nil))
	}
	n.m, n.parts = composeModel(n, p.root, p, 0)
	return n
}

func composeModel[T types.Number](n *Net[T], s Seg, p Plan, level int) (*model.Model[T], []*model.Model[T]) {
	var ls []layer.Layer[T]
	var parts []*model.Model[T]
	if p.inputs && s.lo > 0 {
		ls = append(ls, layer.NewInput[T](n.ref.nodes[s.lo-1].shape...))
		n.extra = append(n.extra, s.lo)
	}
	for _, k := range s.kids {
		if k.kids == nil {
			ls = append(ls, n.layers[k.lo])
			continue
		}
		m, ps := composeModel(n, k, p, level+1)
		parts = append(append(parts, m), ps...)
		ls = append(ls, m)
	}
	if p.stray {
		for i := 1; i < len(ls); i++ {
			ls[i].Connect(layer.NewInput[T](7))
		}
	}
	if p.mode == 0 || p.mode == 2 && level%2 == 0 {
		m := model.NewModel[T]()
		for _, l := range ls {
			if m.Push(l) != m {
				Fail("Push does not return the model")
			}
		}
		return m, parts
	}
	for i := 1; i < len(ls); i++ {
		ls[i].Connect(ls[i-1])
	}
	m, err := model.FromInOut[T](ls[0], ls[len(ls)-1])
	noErr("FromInOut", err)
	return m, parts
}

// plans lists the ways to put n layers together.
func plans(n, depth int) []Plan {
	var out []Plan
	for _, t := range segTrees(0, n, depth) {
		for mode := 0; mode < 3; mode++ {
			out = append(out, Plan{t, mode, false, false})
			out = append(out, Plan{t, mode, true, false})
			out = append(out, Plan{t, mode, mode == 1, true})
		}
	}
	return out
}

// chained makes the network of a chain as models chained by FromModels; cuts
// are the positions where a new model begins.
func chained[T types.Number](a Arch, cuts []int, inputs bool, mode int) *Net[T] {
	n, parts := cutUp[T](a, cuts, inputs, mode)
	n.parts = parts
	m, err := model.FromModels[T](n.parts...)
	noErr("FromModels", err)
	n.m = m
	return n
}

// cutUp makes the models of chained without chaining them.
func cutUp[T types.Number](a Arch, cuts []int, inputs bool, mode int) (*Net[T], []*model.Model[T]) {
	n := &Net[T]{arch: a, ref: newRNet(a)}
	for _, l := range a.nodes {
		n.layers = append(n.layers, makeLayer[T](l, nil))
	}
	var parts []*model.Model[T]
	ends := append(append([]int{}, cuts...), len(a.nodes))
	lo := 0
	for _, hi := range ends {
		var kids []Seg
		for k := lo; k < hi; k++ {
			kids = append(kids, Seg{k, k + 1, nil})
		}
		m, _ := composeModel(n, Seg{lo, hi, kids}, Plan{mode: mode, inputs: inputs}, 0)
		parts = append(parts, m)
		lo = hi
	}
	return n, parts
}

// cutSets lists all ways to cut n layers into consecutive models.
func cutSets(n int) [][]int {
	var out [][]int
	for mask := 0; mask < 1<<(n-1); mask++ {
		var cuts []int
		for i := 1; i < n; i++ {
			if mask>>(i-1)&1 == 1 {
				cuts = append(cuts, i)
			}
		}
		out = append(out, cuts)
	}
	return out
}
