package main

import (
	"fmt"
	"io"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
)

func init() {
	register("C17", &Check{
		Run:   runC17,
		Level: "model_checking",
		Rule: "data sets of 1 to 4 samples x (epochs, batch) with at most 4 steps (thorough 6), batch 0 included, x 8 architectures x earlier histories {none, a single step with other rates, an earlier call} x compiled or not: the random source is answered by the explorer, every sequence of answers is executed, and the parameters afterwards must be those of a sequence of single steps on matching pairs; over all answers every sequence of samples must occur. " +
			"Longer runs (2 samples 8 steps, 17 samples 2 steps), one step on each of up to 1025 samples, every sample at every single step of runs on up to 33 samples, and up to 3000 steps on data sets of up to 1001 equal samples. Data sets with an impossible sample at each position, with mismatched lengths and with zero epochs, empty data sets, samples that have no error at all (6 pairs of rate and momentum), and training on a terminal (the progress display) of several widths. state = (architecture, data set, epochs, batch, answers)",
		Assumptions: []string{"samples are chosen with the package-level functions of math/rand; were another source used, membership is still decided and eligibility by 200 runs of one step"},
	})
}

func runC17(c *C) {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	max := 4
	if c.Thorough {
		max = 6
	}
	names := map[string]bool{"dense1": true, "dense2": true, "dense4": true, "conv pool": true, "deconv rect": true, "two dense branches": true, "norm": true, "diamond": true}
	for _, a := range archAll() {
		if !names[a.name] {
			continue
		}
		for n := 1; n <= 4; n++ {
			for e := uint(0); e <= uint(max); e++ {
				for b := uint(0); b <= uint(max); b++ {
					steps := int(e * b)
					if b == 0 {
						steps = int(e) * n
					}
					if steps > max || pow(n, steps) > 4096 {
						continue
					}
					for pre := 0; pre < 4; pre++ {
						if c.Out() || !c.Mine() {
							continue
						}
						c17one(c, a, n, e, b, steps, pre, -1)
						if pre == 0 && n > 1 && steps > 0 {
							for bad := 0; bad < n; bad++ {
								c17one(c, a, n, e, b, steps, pre, bad)
							}
						}
					}
				}
			}
		}
		for _, e := range []struct {
			n    int
			e, b uint
		}{{1, 2, 1}, {1, 1, 3}, {2, 1, 3}, {2, 3, 1}, {2, 2, 0}, {2, 2, 2}, {3, 1, 3}, {3, 1, 0}} {
			steps := int(e.e * e.b)
			if e.b == 0 {
				steps = int(e.e) * e.n
			}
			for perfect := -1; perfect < e.n; perfect++ {
				for pre := 0; pre < 2; pre++ {
					for _, r := range [][2]float64{{0.25, 0}, {0.125, 0.5}, {0, 0.5}, {0.0625, 1}, {-0.125, 0.25}, {0.125, -0.5}} {
						if c.Out() || !c.Mine() {
							continue
						}
						c17rates(c, a, e.n, e.e, e.b, steps, pre, -1, perfect, r[0], r[1])
					}
				}
			}
		}
		c17reject(c, a)
	}
	for _, a := range archAll() {
		if a.name == "dense1" || a.name == "conv pool" || a.name == "diamond" {
			c17deep(c, a)
		}
		c17count(c, a, a.name == "dense1" || a.name == "dense2")
	}
	c17count(c, chain("one unit", indense(1, 1, "linear")), true)
	c17calls(c)
	c17wide(c)
	c17each(c)
	c17terminal(c)
	c.Bound("steps", uint64(max))
}

// c17deep: longer runs over two samples, shorter ones over more samples.
func c17deep(c *C, a Arch) {
	for _, k := range []struct {
		n    int
		e, b uint
	}{{2, 1, 8}, {2, 8, 1}, {2, 2, 4}, {2, 4, 2}, {2, 4, 0}, {3, 5, 1}, {3, 1, 5}, {3, 2, 0}, {5, 3, 1}, {5, 1, 3}, {7, 1, 2}, {7, 2, 1}, {11, 2, 1}, {11, 1, 2}, {17, 1, 2}, {17, 2, 1}} {
		if c.Out() || !c.Mine() {
			continue
		}
		steps := int(k.e * k.b)
		if k.b == 0 {
			steps = int(k.e) * k.n
		}
		c17one(c, a, k.n, k.e, k.b, steps, 0, -1)
	}
}

// c17count: the number of steps, on data sets in which all samples are equal,
// so that every choice has the same effect.
func c17count(c *C, a Arch, wide bool) {
	ns, es, bs := []int{1, 2, 5}, []uint{1, 3}, []uint{0, 1, 2, 7}
	if wide {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 65, 100, 129, 257, 1001}
		es = []uint{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 33, 65, 100, 101, 257, 1001}
		bs = []uint{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 33, 64, 65, 100, 129, 257, 1001}
	}
	limit := 3000
	if a.name == "one unit" {
		// counts that do not fit into 16 bits
		ns, es, bs, limit = []int{1, 3}, append(es, 65537), append(bs, 65537), 70000
	}
	for _, k := range ns {
		for _, e := range es {
			for _, b := range bs {
				steps := int(e * b)
				if b == 0 {
					steps = int(e) * k
				}
				if steps > limit || steps > 3000 && (e > 1 && e < 50000 || b > 1 && b < 50000) || c.Out() || !c.Mine() {
					continue
				}
				k, e, b := k, e, b
				c.Do(func() string { return fmt.Sprintf("%v: %d equal samples, %d epochs, batch %d", a, k, e, b) }, func() {
					n, w := compiled[f64](a, 1), compiled[f64](a, 1)
					x := ten[f64](n.ref.inS, sampleX(n.ref.inS, 1))
					y := ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, 1))
					var xs, ys []tensor.Tensor[f64]
					for i := 0; i < k; i++ {
						xs, ys = append(xs, x), append(ys, y)
					}
					// small steps, so that every one of them still moves the parameters
					rate := 0.25 / float64(1+steps)
					noErr("Train", n.m.Train(xs, ys, e, b, rate, 0.125))
					for i := 0; i < steps; i++ {
						_, err := w.m.TrainOne(x, y, rate, 0.125)
						noErr("TrainOne", err)
					}
					g, v := flatBits(n.bitsOf()), flatBits(w.bitsOf())
					for i := range g {
						d, tol := g[i]-v[i], 1e-9*(1+abs(v[i]))
						if d > tol || -d > tol {
							Fail("parameter %d is %v; %d single steps give %v", i, g[i], steps, v[i])
						}
					}
					c.Step(steps)
				})
				c.State("count", a.name, k, e, b)
			}
		}
	}
}

// c17calls: one call after the other, with rates that change.
func c17calls(c *C) {
	rates := [][2]float64{{0.125, 0}, {0.03125, 0.5}, {0.0625, 0.25}, {0, 0.5}, {0.125, 0.125}}
	for _, a := range append(archFew(), chain("one unit", indense(1, 1, "linear"))) {
		for _, e := range []uint{0, 1, 2} {
			for _, b := range []uint{0, 1, 3} {
				if c.Out() || !c.Mine() {
					continue
				}
				c.Do(func() string {
					return fmt.Sprintf("%v: Train called 40 times with %d epochs, batch %d and changing rates", a, e, b)
				}, func() {
					n, w := compiled[f64](a, 1), compiled[f64](a, 1)
					for r := 0; r < 40; r++ {
						x := ten[f64](n.ref.inS, sampleX(n.ref.inS, r))
						y := ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, r))
						xs, ys := []tensor.Tensor[f64]{x, x}, []tensor.Tensor[f64]{y, y}
						steps := int(e * b)
						if b == 0 {
							steps = int(e) * 2
						}
						rate := rates[r%5]
						noErr("Train", n.m.Train(xs, ys, e, b, rate[0]/8, rate[1]))
						for i := 0; i < steps; i++ {
							_, err := w.m.TrainOne(x, y, rate[0]/8, rate[1])
							noErr("TrainOne", err)
						}
						g, v := flatBits(n.bitsOf()), flatBits(w.bitsOf())
						for i := range g {
							d, tol := g[i]-v[i], 1e-9*(1+abs(v[i]))
							if d > tol || -d > tol {
								Fail("after %d calls parameter %d is %v; single steps give %v", r+1, i, g[i], v[i])
							}
						}
						c.Step(steps)
					}
					c.State("calls", a.name, e, b)
				})
			}
		}
	}
	c.Bound("calls of Train", 40)
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// c17wide: in data sets of many samples each one is eligible, with its own
// target.
func c17wide(c *C) {
	a := chain("wide", indense(2, 1, "linear"))
	for _, samples := range []int{9, 10, 16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025} {
		if c.Out() || !c.Mine() {
			continue
		}
		samples := samples
		c.Do(func() string { return fmt.Sprintf("one step on %d samples", samples) }, func() {
			data := func() (xs, ys []tensor.Tensor[f64]) {
				for i := 0; i < samples; i++ {
					xs = append(xs, ten[f64]([]uint{2}, []float64{1 + float64(i)/8, 1 - float64(i*i%7919)/16}))
					ys = append(ys, ten[f64]([]uint{1}, []float64{float64(3*i%1009) + 0.5}))
				}
				return
			}
			xs, ys := data()
			find := map[string]int{}
			key := func(n *Net[f64]) string {
				s := ""
				for _, v := range flatBits(n.bitsOf()) {
					s += fmt.Sprintf("%.9g ", v)
				}
				return s
			}
			for i := range xs {
				n := compiled[f64](a, 1)
				_, err := n.m.TrainOne(xs[i], ys[i], 0.125, 0)
				noErr("TrainOne", err)
				find[key(n)] = i
			}
			if len(find) != samples {
				panic("samples are not told apart")
			}
			hit := map[int]bool{}
			h := &Choices{options: pick(samples)}
			for runs := 0; runs < 100*samples; runs++ {
				n := compiled[f64](a, 1)
				h.run(func() { noErr("Train", n.m.Train(xs, ys, 1, 1, 0.125, 0)) })
				i, ok := find[key(n)]
				if !ok {
					Fail("answers %v of the random source: the step was taken on no pair of the data set", h.path)
				}
				hit[i] = true
				c.Step(1)
				if h.Draws == 0 {
					if len(hit) == samples {
						return
					}
					continue // not answered by the explorer: a long run instead
				}
				if !h.next() {
					break
				}
			}
			if len(hit) != samples {
				for i := range xs {
					if !hit[i] {
						Fail("no answer of the random source selects sample %d of %d", i, samples)
					}
				}
			}
			c.State("wide", samples)
		})
	}
}

// c17each: at every step of a run every sample is eligible, whatever the other
// steps choose. Two ways of answering all the steps, and from each of them every
// other answer at one step: n answers, n different results.
func c17each(c *C) {
	a := chain("wide", indense(2, 1, "linear"))
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 33} {
		u := uint(n)
		for _, k := range [][2]uint{{1, 0}, {2, 0}, {3, 0}, {1, u - 1}, {1, u}, {3, u}, {1, u + 1}, {1, 2 * u}, {2, 2 * u}, {u, 1}, {2, 3}, {3, 2}, {7, 1}, {1, 7}, {5, 5}} {
			e, b := k[0], k[1]
			steps := int(e * b)
			if b == 0 {
				steps = int(e) * n
			}
			if steps == 0 || steps > 100 || c.Out() || !c.Mine() {
				continue
			}
			n := n
			c.Do(func() string {
				return fmt.Sprintf("%d samples, %d epochs, batch %d: every sample at every step", n, e, b)
			}, func() {
				var xs, ys []tensor.Tensor[f64]
				for i := 0; i < n; i++ {
					xs = append(xs, ten[f64]([]uint{2}, []float64{1 + float64(i)/16, 1 - float64(i*i%7919)/128}))
					ys = append(ys, ten[f64]([]uint{1}, []float64{float64(3*i%1009) + 0.5}))
				}
				m := compiled[f64](a, 1)
				noErr("CompileBackPropagation", m.m.CompileBackPropagation())
				run := func() string {
					m.setParams(1)
					noErr("Train", m.m.Train(xs, ys, e, b, 1.0/128, 0))
					s := ""
					for _, v := range flatBits(m.bitsOf()) {
						s += fmt.Sprintf("%.10g ", v)
					}
					c.Step(1)
					return s
				}
				for base := 0; base < 2; base++ {
					answers := func(p, o int) []int {
						path := make([]int, steps)
						for i := range path {
							path[i] = base * (i*5 + 2) % n
						}
						if p >= 0 {
							path[p] = o
						}
						return path
					}
					for p := 0; p < steps; p++ {
						if steps > 24 && p > 3 && p < steps-4 && p != n-1 && p != n && p != n+1 && p%11 != 0 {
							continue
						}
						seen := map[string]int{}
						for o := 0; o < n; o++ {
							h := &Choices{options: pick(n), path: answers(p, o)}
							h.size = make([]int, steps)
							var r string
							h.run(func() { r = run() })
							if h.Draws == 0 {
								// not answered by the explorer
								free := map[string]bool{}
								for i := 0; i < 64; i++ {
									free[run()] = true
								}
								if len(free) == 1 {
									Fail("64 runs of %d steps all took the same steps", steps)
								}
								return
							}
							if h.Draws != steps || h.missed > 0 {
								c.Skip()
								return
							}
							if q, ok := seen[r]; ok {
								Fail("step %d of %d: answers %d and %d of the random source give the same run, so some sample can not be chosen there", p, steps, q, o)
							}
							seen[r] = o
						}
					}
				}
				c.State("each", n, e, b)
			})
		}
	}
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

func flatBits(b [][]uint64) []float64 {
	var out []float64
	for _, l := range b {
		for _, v := range l {
			out = append(out, fromBits[f64](v))
		}
	}
	return out
}

func nearAll(a, b []float64) bool {
	for i := range a {
		if !nearNet[f64](a[i], b[i]) {
			return false
		}
	}
	return true
}

func c17data(n *Net[f64], k, bad int) (xs, ys []tensor.Tensor[f64]) {
	for i := 0; i < k; i++ {
		x := ten[f64](n.ref.inS, sampleX(n.ref.inS, i+1))
		if i == bad {
			x = tensor.NewZeros[f64](uint(size(n.ref.inS))+1, 2)
		}
		xs = append(xs, x)
		ys = append(ys, ten[f64](n.ref.last().shape, sampleY(n.ref.last().shape, i+1)))
	}
	return xs, ys
}

func c17one(c *C, a Arch, samples int, epochs, batch uint, steps, pre, bad int) {
	c17rates(c, a, samples, epochs, batch, steps, pre, bad, -1, 0.125, 0.25)
}

// c17rates: sample perfect has the model's own answer for its target.
func c17rates(c *C, a Arch, samples int, epochs, batch uint, steps, pre, bad, perfect int, alpha, mom float64) {
	desc := func() string {
		return fmt.Sprintf("%v: %d samples, %d epochs, batch %d, history %d, impossible sample %d, sample without error %d, rate %v, momentum %v", a, samples, epochs, batch, pre, bad, perfect, alpha, mom)
	}
	c.Do(desc, func() {
		// history 3: the model is not compiled before
		prepare := func() *Net[f64] {
			n := newNet[f64](a)
			if pre != 3 {
				noErr("CompileBackPropagation", n.m.CompileBackPropagation())
			} else {
				noErr("Compile", n.m.Compile())
			}
			n.setParams(1)
			xs, ys := c17data(n, 2, -1)
			switch pre {
			case 1:
				_, err := n.m.TrainOne(xs[1], ys[1], 0.5, 0.75)
				noErr("TrainOne", err)
			case 2:
				noErr("Train", n.m.Train(xs[:1], ys[:1], 1, 1, 0.5, 0))
			}
			return n
		}
		data := func(n *Net[f64]) (xs, ys []tensor.Tensor[f64]) {
			xs, ys = c17data(n, samples, bad)
			if perfect >= 0 {
				p, err := n.m.Predict(xs[perfect])
				noErr("Predict", err)
				ys[perfect] = p
			}
			return
		}
		// all sequences of single steps
		type outcome struct {
			seq []int
			par []float64
			err bool
			hit bool
		}
		var all []*outcome
		var walk func(seq []int)
		seqPar := func(seq []int) *outcome {
			n := prepare()
			xs, ys := data(n)
			o := &outcome{seq: append([]int{}, seq...)}
			for _, k := range seq {
				if _, err := n.m.TrainOne(xs[k], ys[k], alpha, mom); err != nil {
					o.err = true
				}
			}
			o.par = flatBits(n.bitsOf())
			return o
		}
		walk = func(seq []int) {
			if len(seq) == steps || (len(seq) > 0 && seq[len(seq)-1] == bad) {
				all = append(all, seqPar(seq))
				return
			}
			for k := 0; k < samples; k++ {
				walk(append(seq, k))
			}
		}
		walk(nil)
		h := &Choices{options: pick(samples)}
		runs := 0
		hooked := true
		for {
			n := prepare()
			xs, ys := data(n)
			var err error
			h.run(func() { err = n.m.Train(xs, ys, epochs, batch, alpha, mom) })
			got := flatBits(n.bitsOf())
			runs++
			found := false
			for _, o := range all {
				if o.err == (err != nil) && nearAll(got, o.par) {
					o.hit, found = true, true
				}
			}
			if !found {
				Fail("answers %v of the random source: error %v, parameters %v are those of no sequence of %d single steps on the samples", h.path, err, got, steps)
			}
			c.Step(1)
			c.State(a.name, samples, epochs, batch, pre, bad, h.path)
			if h.Draws == 0 && steps > 0 && samples > 1 {
				hooked = false
			}
			if !hooked {
				if runs >= 200 || steps != 1 {
					break
				}
				continue
			}
			if runs > 20000 || !h.next() {
				break
			}
		}
		if !hooked && steps != 1 {
			return
		}
		for _, o := range all {
			if !o.hit {
				Fail("no answer of the random source makes the steps on samples %v", o.seq)
			}
		}
	})
	c.Sample("%s", desc())
}

func c17reject(c *C, a Arch) {
	for nx := 0; nx <= 3; nx++ {
		for ny := 0; ny <= 3; ny++ {
			for e := uint(0); e <= 2; e++ {
				for b := uint(0); b <= 2; b++ {
					if (nx == ny && nx > 0) || c.Out() || !c.Mine() {
						continue
					}
					nx, ny, e, b := nx, ny, e, b
					c.Do(func() string {
						return fmt.Sprintf("%v: %d inputs and %d targets, %d epochs, batch %d", a, nx, ny, e, b)
					}, func() {
						n := compiled[f64](a, 1)
						before := n.bitsOf()
						xs, ys := c17data(n, 3, -1)
						// an empty data set: nothing is trained, with or without an error
						if n.m.Train(xs[:nx], ys[:ny], e, b, 0.5, 0) == nil && nx != ny {
							Fail("accepted")
						}
						wantParams("after a rejected data set", n, before)
						c.Step(1)
					})
				}
			}
		}
	}
}

// slow is an activation function that takes its time.
type slow struct{}

func (slow) Activate(x f64) f64 {
	time.Sleep(160 * time.Millisecond)
	return x
}
func (slow) Derive(f64) f64 { return 1 }

// openTerminal makes a pseudo-terminal of the given width and reads what is
// written to it.
func openTerminal(width int) (*os.File, func()) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		return nil, nil
	}
	ctl := func(req uintptr, p unsafe.Pointer) bool {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(p))
		return e == 0
	}
	var unlock, no int32
	size := [4]uint16{24, uint16(width), 0, 0}
	if !ctl(syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)) || !ctl(syscall.TIOCGPTN, unsafe.Pointer(&no)) || !ctl(syscall.TIOCSWINSZ, unsafe.Pointer(&size)) {
		m.Close()
		return nil, nil
	}
	t, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", no), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil
	}
	go io.Copy(io.Discard, m)
	return t, func() { t.Close(); m.Close() }
}

// c17terminal: the same steps when progress is shown on a terminal.
func c17terminal(c *C) {
	for _, width := range []int{0, 1, 2, 5, 10, 20, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 60, 80, 132, 300, 1000} {
		for _, e := range [][2]uint{{1, 3}, {3, 0}} {
			width, e := width, e
			if c.Out() || !c.Mine() {
				continue
			}
			c.Do(func() string {
				return fmt.Sprintf("training on a terminal of width %d, %d epochs, batch %d", width, e[0], e[1])
			}, func() {
				t, done := openTerminal(width)
				if t == nil {
					c.Skip()
					return
				}
				old := os.Stdout
				os.Stdout = t
				defer func() { os.Stdout = old; done() }()
				var got [2][]float64
				for i := range got {
					d := layer.NewInDense[f64](2, 2, slow{})
					m := model.NewModel[f64]().Push(d)
					noErr("Compile", m.Compile())
					noErr("LoadData", field(d, "Weights").LoadData([]f64{0.5, -0.25, 0.125, 1}))
					noErr("LoadData", field(d, "Bias").LoadData([]f64{0.5, -1}))
					x, y := ten[f64]([]uint{2}, []f64{0.5, -1}), ten[f64]([]uint{2}, []f64{1e9, -0.25})
					if i == 0 {
						noErr("Train", m.Train([]tensor.Tensor[f64]{x}, []tensor.Tensor[f64]{y}, e[0], e[1], 0.125, 0.25))
					} else {
						for k := 0; k < 3; k++ {
							_, err := m.TrainOne(x, y, 0.125, 0.25)
							noErr("TrainOne", err)
						}
					}
					got[i] = append(field(d, "Weights").GetData(), field(d, "Bias").GetData()...)
				}
				if !nearAll(got[0], got[1]) {
					Fail("parameters %v; single steps give %v", got[0], got[1])
				}
				c.Step(3)
				c.State("terminal", width, e)
			})
		}
	}
}
