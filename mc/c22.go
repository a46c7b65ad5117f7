package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"verif/mc/sched"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/scalar"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C22", &Check{
		Run:   runC22,
		Level: "model_checking",
		Rule: "two threads, each running one of 17 programs on instances of its own (eager operations, graphs, predicting and training of every layer kind, training data sets, saving and loading, nested and chained models, images, scalars, initialisers, summaries and rejected calls with their messages), under a controlled scheduler that can preempt before every statement of the library: all 289 ordered pairs of programs; every pair run one after the other under a race detector that sees no synchronisation but the library's own, and every pair with one preemption at each statement (quick: every visit of every statement against the same program, and the first, second and last visit of each statement against another one; thorough: every visit against all programs) and, for the small programs, every pair of preemption points. " +
			"Each thread must compute, bit for bit, what it computes alone. state = (pair, preemption points)",
		Assumptions: []string{"scheduling points are the statements of the library's packages; the standard library's calls are atomic", "random draws are answered per thread", "when a schedule cannot continue because a thread holds a lock, both threads run on freely"},
	})
}

type prog struct {
	name  string
	small bool
	run   func(v int, dir string) string
}

// fp is a fingerprint of what a program computed.
type fp struct{ sb strings.Builder }

func (f *fp) add(a ...any) { fmt.Fprintln(&f.sb, a...) }

func (f *fp) ten(t tensor.Tensor[float64]) {
	if t == nil {
		f.add("nil")
		return
	}
	f.add(t.GetShape(), fmt.Sprint(t.GetData()))
}

func (f *fp) err(err error) { f.add(err != nil) }

func (f *fp) net(n *Net[float64]) { f.add(n.bitsOf()) }

func c22data(v int, s ...uint) []float64 {
	out := make([]float64, size(s))
	for i := range out {
		out[i] = float64((i*7+v*5)%11) + 1.25 - float64(v)
	}
	return out
}

func c22mat(v int, s ...uint) *tensor.TensorMat[float64] {
	return tensor.NewFromValues[float64](c22data(v, s...), s...)
}

func c22train(a Arch) func(v int, dir string) string {
	return func(v int, dir string) string {
		f := &fp{}
		n := newNet[float64](a)
		inS, outS := n.ref.inS, n.ref.last().shape
		f.err(n.m.CompileBackPropagation())
		p, err := n.m.Predict(ten[float64](inS, sampleX(inS, v)))
		f.err(err)
		f.ten(p)
		for k := 0; k < 2; k++ {
			l, err := n.m.TrainOne(ten[float64](inS, sampleX(inS, k+v)), ten[float64](outS, sampleY(outS, k+v)), 0.125, 0.25)
			f.err(err)
			f.add(l)
			f.net(n)
		}
		return f.sb.String()
	}
}

func c22predict(a Arch) func(v int, dir string) string {
	return func(v int, dir string) string {
		f := &fp{}
		n := newNet[float64](a)
		inS := n.ref.inS
		p, err := n.m.Predict(ten[float64](inS, sampleX(inS, v)))
		f.err(err)
		f.ten(p)
		f.net(n)
		return f.sb.String()
	}
}

func c22progs() []prog {
	ops := exprOps[float64]()
	return []prog{
		{"eager operations", false, func(v int, dir string) string {
			f := &fp{}
			for _, o := range ops {
				args := []*tensor.TensorMat[float64]{c22mat(v, 2, 2), c22mat(v+1, 2, 2)}[:o.arity]
				r, err := o.eager(args)
				f.err(err)
				if err == nil {
					f.ten(r)
				}
			}
			return f.sb.String()
		}},
		{"graph", true, func(v int, dir string) string {
			f := &fp{}
			a, b := c22mat(v, 2), c22mat(v+3, 2)
			s := tensor.Add[float64](a, b)
			t := tensor.Sum(tensor.Mul(s, s))
			g, err := graph.NewGraph(t)
			f.err(err)
			g.Exec()
			f.ten(t)
			a.LoadData(c22data(v+2, 2))
			g.Exec()
			f.ten(t)
			return f.sb.String()
		}},
		{"graph operations", false, func(v int, dir string) string {
			f := &fp{}
			for _, o := range ops {
				args := []tensor.Tensor[float64]{c22mat(v, 2, 1), c22mat(v+1, 2, 1)}[:o.arity]
				t := o.graph(args)
				g, err := graph.NewGraph(t)
				f.err(err)
				if err == nil {
					g.Exec()
					f.ten(t)
				}
			}
			return f.sb.String()
		}},
		{"element access", true, func(v int, dir string) string {
			f := &fp{}
			t := tensor.NewZeros[float64](2, 2)
			f.err(t.Set(float64(v+3), 1, 0))
			f.err(t.Set(float64(v+5), 0, 1))
			x, err := t.Get(1, 0)
			f.add(x, err != nil)
			_, err = t.Get(2, uint(v))
			f.err(err)
			f.ten(t.Copy())
			f.add(t.String())
			return f.sb.String()
		}},
		{"scalars", true, func(v int, dir string) string {
			f := &fp{}
			var h scalar.F16
			h.S32(float32(v) + 1.5)
			l := []scalar.Scalar{&h, scalar.NewF32(float32(v) + 0.25), scalar.NewF64(float64(v) - 3)}
			for _, a := range l {
				for _, b := range l {
					f.add(a.Add(b).G64(), a.Mul(b).G64(), a.Cmp(b), a.String())
				}
			}
			return f.sb.String()
		}},
		{"initialisers", true, func(v int, dir string) string {
			f := &fp{}
			f.ten(tensor.NewRand[float64](float64(-v), 3, 3))
			f.ten(tensor.NewNormRand[float64](2))
			f.add(number.ScalarRand[float64](0, float64(v+1)).Value, number.ScalarNorm[float64]().Value)
			f.ten(tensor.NewOnes[float64](2))
			return f.sb.String()
		}},
		{"save and load a tensor", true, func(v int, dir string) string {
			f := &fp{}
			var buf bytes.Buffer
			a := c22mat(v, 3)
			f.err(a.Save(&buf))
			f.err(a.SaveFull(&buf))
			f.add(buf.Bytes())
			b, c := tensor.NewZeros[float64](3), tensor.NewZeros[float64](1)
			f.err(b.Load(&buf))
			f.err(c.LoadFull(&buf))
			f.ten(b)
			f.ten(c)
			return f.sb.String()
		}},
		{"dense predict", false, c22predict(chain("", indense(2, 2, "tanh"), dense(1, "sigmoid")))},
		{"dense train", false, c22train(chain("", indense(2, 2, "tanh"), dense(1, "swish")))},
		{"convolution train", false, c22train(chain("", in(1, 3, 2), convL(1, 2, 1, 1, 1, "gelu"), pool(2, 1), dense(1, "linear")))},
		{"deconvolution train", false, c22train(chain("", in(1, 2, 1), deconvL(1, 1, 2, 1, 1, "selu:1.6:1.1"), up(1, 2), flat(), norm()))},
		{"branches train", false, c22train(Arch{"", []LSpec{in(2), dense(2, "relu:0.1").from(0), dense(1, "elu:0.5").from(0), cat(1, 2, 0), sub(0, 1, 3).from(3), softmax().from(4)}})},
		{"data set", false, func(v int, dir string) string {
			f := &fp{}
			n := newNet[float64](chain("", indense(1, 1, "sin")))
			x := func(k int) tensor.Tensor[float64] { return ten[float64]([]uint{1}, sampleX([]uint{1}, k+v)) }
			f.err(n.m.Train([]tensor.Tensor[float64]{x(0), x(1), x(2)}, []tensor.Tensor[float64]{x(3), x(4), x(5)}, 2, uint(1+v), 0.25, 0))
			f.net(n)
			return f.sb.String()
		}},
		{"save and load a model", false, func(v int, dir string) string {
			f := &fp{}
			a := chain("", indense(1, 1, "tanh"), dense(1, "linear"))
			n, m := newNet[float64](a), newNet[float64](a)
			var buf bytes.Buffer
			n.m.ResetSave()
			f.err(n.m.Save(&buf))
			f.add(buf.Bytes())
			m.m.ResetLoad()
			f.err(m.m.Load(&buf))
			f.net(m)
			f.add(m.m.String())
			m.m.SetTrainable(v == 0)
			return f.sb.String()
		}},
		{"composed models", false, func(v int, dir string) string {
			f := &fp{}
			a := chain("", in(2), dense(1, "tanh"), dense(2, "linear"))
			var n *Net[float64]
			if v == 0 {
				n = composed[float64](a, plans(3, 2)[7])
			} else {
				n = chained[float64](a, []int{2}, true, 0)
			}
			p, err := n.m.Predict(ten[float64]([]uint{2}, sampleX([]uint{2}, v)))
			f.err(err)
			f.ten(p)
			f.err(n.m.ResetIS())
			f.add(n.m.String())
			bad := newNet[float64](chain("", in(2), sub(0, 1, 9)))
			f.err(bad.m.Compile())
			return f.sb.String()
		}},
		{"rejections", false, func(v int, dir string) string {
			f := &fp{}
			for i, a := range []Arch{
				chain("", in(2), sub(0, 1, 9)),
				chain("", in(2), convL(1, 1, 1, 1, 1, "linear")),
				chain("", in(1, 2), pool(1, 1)),
				chain("", in(2+uint(v)), up(2, 1)),
				chain("", in(3, 1), deconvL(1, 1, 1, 1, 1, "linear")),
				chain("", in(1, 2, 2), convL(1, 3, 3, 1, 1, "linear")),
			} {
				if i%2 == v {
					continue
				}
				m := model.NewModel[float64]()
				for _, l := range a.nodes {
					m.Push(makeLayer[float64](l, nil))
				}
				err := m.Compile()
				f.add(err)
				_, err = m.Predict(c22mat(v, 2))
				f.add(err)
			}
			m := newNet[float64](chain("", indense(1, 1, "linear")))
			_, err := m.m.Predict(c22mat(v, uint(2+v)))
			f.add(err)
			_, err = c22mat(v, 2).Add(c22mat(v, uint(3+v)))
			f.add(err)
			f.add(c22mat(v, 2).LoadData(make([]float64, 5+v)))
			return f.sb.String()
		}},
		{"images", false, func(v int, dir string) string {
			f := &fp{}
			t := tensor.NewFromValues[float64](c22data(v, 4, 1, 2), 4, 1, 2)
			for i := range t.GetOperands() {
				t.GetOperands()[i].Value /= 16
			}
			p := filepath.Join(dir, fmt.Sprintf("t%d.png", v))
			f.err(img.PngSave[float64](t, p))
			l, err := img.LoadImage[float64](p)
			f.err(err)
			f.ten(l)
			s, err := img.SmoothScale(l, 2, 1)
			f.err(err)
			f.ten(s)
			s, err = img.SimpleScale(l, 1, 1)
			f.err(err)
			f.ten(s)
			return f.sb.String()
		}},
	}
}

// c22typed are the programs in another element type, and larger ones.
func c22typed[T types.Number]() []prog {
	tn := typeName[T]()
	mat := func(v int, s ...uint) *tensor.TensorMat[T] {
		d := make([]T, size(s))
		for i := range d {
			d[i] = T((i*7+v*5)%11 + 1)
		}
		return tensor.NewFromValues(d, s...)
	}
	show := func(f *fp, t tensor.Tensor[T]) { f.add(t.GetShape(), fmt.Sprint(t.GetData())) }
	return []prog{
		{tn + " eager and graph operations", false, func(v int, dir string) string {
			f := &fp{}
			for _, o := range exprOps[T]() {
				e, err := o.eager([]*tensor.TensorMat[T]{mat(v, 2, 2), mat(v+1, 2, 2)}[:o.arity])
				f.err(err)
				if err == nil {
					show(f, e)
				}
				t := o.graph([]tensor.Tensor[T]{mat(v, 2, 2), mat(v+1, 2, 2)}[:o.arity])
				g, err := graph.NewGraph(t)
				f.err(err)
				if err == nil {
					g.Exec()
					show(f, t)
				}
			}
			return f.sb.String()
		}},
		{tn + " tensors", false, func(v int, dir string) string {
			f := &fp{}
			for _, s := range [][]uint{{}, {3}, {2, 2}, {33, 32}} {
				var buf bytes.Buffer
				a := mat(v, s...)
				f.err(a.Save(&buf))
				f.err(a.SaveFull(&buf))
				f.add(len(buf.Bytes()), buf.Bytes()[:8])
				b, c := tensor.NewZeros[T](s...), tensor.NewZeros[T](1)
				f.err(b.Load(&buf))
				f.err(c.LoadFull(&buf))
				show(f, b)
				show(f, c)
				f.add(a.String(), a.Copy().GetShape(), a.GetMulIndex())
				show(f, tensor.NewNormRand[T](s...))
				show(f, tensor.NewRand[T](0, float64(v+2), s...))
				f.add(number.ScalarRand[T](0, T(v+2)).Value, number.ScalarNorm[T]().Value)
				r, err := a.Concat(b, 0)
				f.err(err)
				if err == nil {
					show(f, r)
				}
				r, err = a.Transpose()
				f.err(err)
				show(f, r)
				r, err = a.Dot(b)
				f.err(err)
				if err == nil {
					show(f, r)
				}
			}
			return f.sb.String()
		}},
	}
}

func c22typedNet[T float32 | float64]() []prog {
	archs := []Arch{
		chain("", indense(2, 2, "tanh"), dense(1, "swish")),
		chain("", in(1, 3, 2), convL(1, 2, 1, 1, 1, "gelu"), pool(2, 1), dense(1, "linear")),
		chain("", in(1, 2, 1), deconvL(1, 1, 2, 1, 1, "selu:1.6:1.1"), up(1, 2), flat(), norm()),
		{"", []LSpec{in(2), dense(2, "relu:0.1").from(0), dense(1, "elu:0.5").from(0), cat(1, 2, 0), sub(0, 1, 3).from(3), softmax().from(4)}},
		chain("", indense(12, 20, "sigmoid"), dense(9, "sin")),
		chain("", in(2, 6, 7), convL(3, 3, 2, 1, 2, "tanh"), pool(2, 2), flat(), dense(4, "tanh")),
	}
	return []prog{{typeName[T]() + " models", false, func(v int, dir string) string {
		f := &fp{}
		for _, a := range archs {
			n := newNet[T](a)
			inS, outS := n.ref.inS, n.ref.last().shape
			p, err := n.m.Predict(ten[T](inS, sampleX(inS, v)))
			f.err(err)
			f.add(p.GetShape(), fmt.Sprint(p.GetData()))
			l, err := n.m.TrainOne(ten[T](inS, sampleX(inS, v)), ten[T](outS, sampleY(outS, v)), 0.125, 0.25)
			f.err(err)
			f.add(l)
			x := []tensor.Tensor[T]{ten[T](inS, sampleX(inS, v)), ten[T](inS, sampleX(inS, v+1))}
			y := []tensor.Tensor[T]{ten[T](outS, sampleY(outS, v)), ten[T](outS, sampleY(outS, v+1))}
			f.err(n.m.Train(x, y, 1, 2, 0.125, 0))
			f.add(n.bitsOf())
			f.err(n.m.ResetIS())
			f.add(n.m.String())
			var buf bytes.Buffer
			n.m.ResetSave()
			f.err(n.m.Save(&buf))
			m := newNet[T](a)
			m.m.ResetLoad()
			f.err(m.m.Load(&buf))
			f.add(m.bitsOf())
		}
		t := tensor.NewZeros[T](4, 3, 2)
		for i, o := range t.GetOperands() {
			o.Value = T(float64((i+v)%5) / 4)
		}
		p := filepath.Join(dir, fmt.Sprintf("%s%d", typeName[T](), v))
		f.err(img.PngSave[T](t, p+".png"))
		f.err(img.JpgSave[T](t, p+".jpg", 90))
		for _, e := range []string{".png", ".jpg"} {
			for _, g := range []func(string) (tensor.Tensor[T], error){
				img.LoadImage[T],
				func(p string) (tensor.Tensor[T], error) { return img.LoadSimpleScaled[T](p, 2, 3) },
				func(p string) (tensor.Tensor[T], error) { return img.LoadSmoothScaled[T](p, 2, 3) },
			} {
				t, err := g(p + e)
				f.err(err)
				if err == nil {
					f.add(t.GetShape(), fmt.Sprint(t.GetData()))
				}
			}
		}
		return f.sb.String()
	}}}
}

// goid identifies the running goroutine.
func goid() uint64 {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// c22run runs two threads under a plan and returns what each computed.
func c22run(a, b prog, dir string, first int, plan []int64) (out [2]string, n [2]int64, used int, blocked bool, panics [2]string) {
	d := [2]*draws{{}, {n: 1000003}}
	var ids [2]uint64
	rand.VerifHook = func(kind string, n int64) (float64, bool) {
		// a thread has its own draws even when both run freely; a goroutine
		// that the library started draws for the running thread
		t := sched.Current()
		switch goid() {
		case atomic.LoadUint64(&ids[0]):
			t = 0
		case atomic.LoadUint64(&ids[1]):
			t = 1
		}
		return d[t].hook(kind, n)
	}
	defer func() { rand.VerifHook = nil }()
	sched.Begin(first, plan)
	var wg sync.WaitGroup
	wg.Add(2)
	for t, p := range []prog{a, b} {
		t, p := t, p
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if sf, ok := r.(stopFail); ok {
						r = sf.text
					}
					panics[t] = fmt.Sprint(r)
				}
				sched.Leave(t)
			}()
			atomic.StoreUint64(&ids[t], goid())
			sched.Enter(t)
			out[t] = p.run(t, dir)
		}()
	}
	wg.Wait()
	n, used, blocked = sched.End()
	return
}

// c22alone runs one thread by itself.
func c22alone(p prog, dir string, t int, visit func(k int64)) string {
	d := &draws{}
	if t == 1 {
		d.n = 1000003
	}
	rand.VerifHook = d.hook
	defer func() { rand.VerifHook = nil }()
	if visit != nil {
		sched.Trace = visit
		defer func() { sched.Trace = nil }()
	}
	return p.run(t, dir)
}

func runC22(c *C) {
	progs := c22progs()
	typed := len(progs) // the ones from here run one after another, or are preempted a few times
	progs = append(progs, c22typed[float32]()...)
	progs = append(progs, c22typed[float64]()...)
	progs = append(progs, c22typed[int]()...)
	progs = append(progs, c22typed[int16]()...)
	progs = append(progs, c22typedNet[float32]()...)
	progs = append(progs, c22typedNet[float64]()...)
	if sched.Detecting {
		c.Bound("race detector", 1)
	} else {
		c.Bound("race detector", 0)
	}
	// what each thread computes alone, and which visits of which statements
	// it makes
	var alone [2][]string
	points := make([][2][]int64, len(progs))
	every := make([][2][]int64, len(progs))
	total := make([][2]int64, len(progs))
	for i, p := range progs {
		for t := 0; t < 2; t++ {
			visits := map[uintptr][]int64{}
			k := int64(0)
			out := ""
			if !c.Do(func() string { return "alone: " + p.name }, func() {
				out = c22alone(p, scratchDir, t, func(int64) {
					k++
					if i >= typed {
						return
					}
					pc := sched.Caller()
					visits[pc] = append(visits[pc], k)
				})
				if again := c22alone(p, scratchDir, t, nil); again != out {
					Fail("running again gives another result:\n%s\ninstead of\n%s", again, out)
				}
			}) {
				return
			}
			alone[t] = append(alone[t], out)
			total[i][t] = k
			keep := map[int64]bool{}
			for _, l := range visits {
				keep[l[0]], keep[l[len(l)-1]] = true, true
				if len(l) > 1 {
					keep[l[1]] = true
				}
			}
			if i >= typed {
				for q := int64(1); q <= 4; q++ {
					points[i][t] = append(points[i][t], 1+q*k/5)
				}
				c.Bound("statements of "+p.name, uint64(k))
				continue
			}
			for q := int64(1); q <= k; q++ {
				every[i][t] = append(every[i][t], q)
				if keep[q] || c.Thorough {
					points[i][t] = append(points[i][t], q)
				}
			}
			c.Bound("statements of "+p.name, uint64(k))
		}
	}
	try := func(i, j, first int, plan ...int64) bool {
		if c.Out() || !c.Mine() {
			return true
		}
		a, b := progs[i], progs[j]
		return c.Do(func() string {
			return fmt.Sprintf("thread 0: %s; thread 1: %s; thread %d starts; preempted after statements %v", a.name, b.name, first, plan)
		}, func() {
			races := sched.Errors()
			out, n, used, blocked, panics := c22run(a, b, scratchDir, first, plan)
			c.Step(int(n[0] + n[1]))
			c.State(i, j, first, plan)
			c.Sample("thread 0: %s; thread 1: %s; thread %d starts; preempted after statements %v", a.name, b.name, first, plan)
			if blocked {
				c.Skip()
			}
			_ = used
			for t := 0; t < 2; t++ {
				idx := [2]int{i, j}[t]
				if panics[t] != "" {
					Fail("thread %d: panic: %s", t, panics[t])
				}
				if out[t] != alone[t][idx] {
					Fail("thread %d computes\n%s\nand alone\n%s", t, out[t], alone[t][idx])
				}
			}
			if r := sched.Errors(); r != races {
				Fail("unsynchronised accesses to the same memory: %s", raceText())
			}
		})
	}
	// one after the other, both orders
	for i := range progs {
		for j := range progs {
			if (i < typed) != (j < typed) && !c.Thorough {
				continue
			}
			try(i, j, 0)
			try(i, j, 1)
		}
	}
	// one preemption
	for i := range progs {
		for d := 0; d < len(progs); d++ {
			if !c.Thorough && d > 1 {
				break
			}
			j := (i + d*5) % len(progs)
			at := points
			if d == 0 && i < typed {
				at = every
			}
			for _, k := range at[i][0] {
				try(i, j, 0, k)
			}
			for _, k := range at[i][1] {
				try(j, i, 1, k)
			}
		}
	}
	// two preemptions, small programs: the first thread is preempted, then the
	// second one, then the first one runs to its end
	for i, p := range progs {
		for j, q := range progs {
			if !p.small || !q.small || (!c.Thorough && i != j) {
				continue
			}
			for _, k := range points[i][0] {
				for _, l := range points[j][1] {
					try(i, j, 0, k, l)
				}
			}
		}
	}
	c.Bound("preemptions", 2)
}
