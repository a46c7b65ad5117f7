package main

import (
	"math/rand"
)

// Choices answers random draws from a path through the tree of all answers
// and walks that tree depth-first, one complete run per leaf.
type Choices struct {
	path []int // answers of this run
	size []int // number of answers at each draw
	pos  int
	// options says how many answers a draw has and what the i-th one is;
	// zero leaves the draw to chance.
	options func(kind string, n int64) (count int, value func(i int) float64)
	Draws   int
	missed  int
}

func (h *Choices) hook(kind string, n int64) (float64, bool) {
	h.Draws++
	count, value := h.options(kind, n)
	if count <= 0 {
		h.missed++
		return 0, false
	}
	if h.pos == len(h.path) {
		h.path = append(h.path, 0)
		h.size = append(h.size, count)
	}
	i := h.path[h.pos]
	if i >= count {
		i = count - 1
	}
	h.size[h.pos] = count
	h.pos++
	return value(i), true
}

// run executes f with the random source answered along the current path.
func (h *Choices) run(f func()) {
	h.pos, h.Draws, h.missed = 0, 0, 0
	rand.VerifHook = h.hook
	defer func() { rand.VerifHook = nil }()
	f()
}

// next moves to the next path; false when all are done.
func (h *Choices) next() bool {
	h.path, h.size = h.path[:h.pos], h.size[:h.pos]
	for len(h.path) > 0 {
		k := len(h.path) - 1
		h.path[k]++
		if h.path[k] < h.size[k] {
			return true
		}
		h.path, h.size = h.path[:k], h.size[:k]
	}
	return false
}

// pick are the options for a choice among n: every kind of draw from which one
// may be made.
func pick(n int) func(kind string, arg int64) (int, func(i int) float64) {
	return func(kind string, arg int64) (int, func(i int) float64) {
		switch kind {
		case "Intn", "Int31n", "Int63n":
			if arg <= 0 || arg > 64 {
				return n, func(i int) float64 { return float64(i) }
			}
			return int(arg), func(i int) float64 { return float64(i) }
		case "Int", "Int31", "Int63", "Uint32", "Uint64":
			return n, func(i int) float64 { return float64(i) }
		case "Float64", "Float32":
			return n, func(i int) float64 { return (float64(i) + 0.5) / float64(n) }
		case "Perm":
			if arg > 8 {
				return 0, nil
			}
			f := 1
			for i := 2; i <= int(arg); i++ {
				f *= i
			}
			return f, func(i int) float64 { return float64(i) }
		}
		return 0, nil
	}
}
