MUTANTS = [
dict(id='C01-singleton', property='C01', needs='an out-of-range coordinate in a dimension of length one',
 breaks='an index past the end of a length-one dimension is not an error: it addresses the element of another row',
 edits=[('tools/tools.go', 'if index[i] >= s {', 'if s > 1 && index[i] >= s {')],
 demo='''func main() {
	t := tensor.NewFromValues([]int{1, 2, 3, 4, 5, 6}, 2, 1, 3)
	v, err := t.Get(0, 1, 0)
	must(err != nil, "index 0,1,0 of shape 2,1,3 gives %d", v)
	err = t.Set(9, 0, 1, 2)
	must(err != nil, "index 0,1,2 of shape 2,1,3 was written")
}'''),
dict(id='C02-div-float', property='C02', needs='64-bit integers above 2^53 in an eager division',
 breaks='eager division of integer tensors is computed in floating point',
 edits=[('tensor/oper2.go', 'Value: opA[i].Value / opB[i].Value,', 'Value: T(float64(opA[i].Value) / float64(opB[i].Value)),')],
 demo='''func main() {
	a := tensor.NewFromValues([]int64{1<<62 + 1, 7}, 2)
	b := tensor.NewFromValues([]int64{1, 2}, 2)
	c, err := a.Div(b)
	no(err)
	must(c.GetData()[0] == 1<<62+1, "%v", c.GetData())
}'''),
dict(id='C06-inplace-abs', property='C06', needs='an intermediate result that is used by an absolute value and by something else',
 breaks='the graph of an absolute value of an intermediate result overwrites that intermediate result',
 edits=[('tensor/abs.go', '''		o := &number.Scalar[T]{}
		p.Operands[i] = o
''', '''		o := &number.Scalar[T]{}
		if _, leaf := p.T.(*TensorMat[T]); !leaf {
			o = ops[i]
		}
		p.Operands[i] = o
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2}, 2)
	b := tensor.NewFromValues([]int{3, 1}, 2)
	d := tensor.Sub[int](a, b)
	r := tensor.Add(tensor.Abs(d), d)
	g, err := graph.NewGraph(r)
	no(err)
	g.Exec()
	must(r.GetData()[0] == 0 && r.GetData()[1] == 2, "%v", r.GetData())
	must(d.GetData()[0] == -2, "%v", d.GetData())
}'''),
dict(id='C07-fold-scalar', property='C07', needs='a scalar operand that is zero while the graph is built and is changed before a later execution',
 breaks='adding or subtracting a scalar that is zero when the graph is built ignores later values of the scalar',
 edits=[('tensor/oper_scalar.go', '''	op := p.T.GetOperands()

	p.Operands = make(''', '''	op := p.T.GetOperands()

	if p.S.Value == 0 && (p.O == OpSAdd || p.O == OpSSub) {
		p.Operands = append([]*number.Scalar[T]{}, op...)
		return nil
	}

	p.Operands = make(''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2}, 2)
	s := number.NewScalar(0)
	r := tensor.AddScalar[int](a, s)
	g, err := graph.NewGraph(r)
	no(err)
	g.Exec()
	must(r.GetData()[0] == 1, "%v", r.GetData())
	s.Value = 5
	g.Exec()
	must(r.GetData()[0] == 6, "%v", r.GetData())
}'''),
dict(id='C08-mulindex', property='C08', needs='a caller that changes the slice returned by GetMulIndex',
 breaks='the multipliers handed out by a tensor are its own: changing them corrupts the addressing of the tensor',
 edits=[('tensor/tensor_mat.go', '''	s := make([]uint, len(p.MulIndex))
	copy(s, p.MulIndex)
	return s''', '''	return p.MulIndex''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2, 3, 4}, 2, 2)
	c := a.Copy()
	m := a.GetMulIndex()
	m[0] = 1
	v, err := a.Get(1, 1)
	no(err)
	must(v == 4, "a[1,1] = %d", v)
	v, err = c.Get(1, 1)
	no(err)
	must(v == 4, "copy[1,1] = %d", v)
}'''),
dict(id='C09-load-size', property='C09', needs='an input with the right number of elements and the wrong shape',
 breaks='loading a tensor from one of another shape with as many elements is accepted',
 edits=[('tensor/tensor_mat.go', '''	err := tools.GetEqShapeErr("Loading operands from tensor", p.Shape, t.GetShape())
	if err != nil {
		return err
	}
	// t may''', '''	if p.GetSize() != t.GetSize() {
		return tools.GetEqShapeErr("Loading operands from tensor", p.Shape, t.GetShape())
	}
	// t may''')],
 demo='''func main() {
	a := tensor.NewZeros[int](2, 3)
	err := a.LoadFromTensor(tensor.NewOnes[int](3, 2))
	must(err != nil, "accepted")
	must(a.GetData()[0] == 0, "changed")
}'''),
dict(id='C10-buffered-save', property='C10', needs='a writer that fails, when the failure surfaces at the flush',
 breaks='a failed write of the last buffered bytes of a tensor is not reported',
 edits=[('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for _, s := range p.Operands {
		err := writeValue(w, s.Value)''', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	bw := bufio.NewWriter(w)
	defer bw.Flush()
	for _, s := range p.Operands {
		err := writeValue(bw, s.Value)'''), ('tensor/tensor_mat.go', 'import (\n', 'import (\n\t"bufio"\n')],
 demo='''type full struct{ left int }

func (f *full) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		return n, io.ErrShortWrite
	}
	f.left -= len(b)
	return len(b), nil
}

func main() {
	a := tensor.NewFromValues([]float32{1, 2, 3}, 3)
	must(a.Save(&full{5}) != nil, "failed write not reported")
	must(a.Save(&full{12}) == nil, "error on success")
}'''),
dict(id='C11-reset-prune', property='C11', needs='saving a part of a model on its own before saving the whole',
 breaks='preparing for saving stops at the first layer that was not saved, so parts saved on their own before are left out of the file',
 edits=[('layer/base.go', '''func (p *Base[T]) ResetSave() {
	p.saved = false''', '''func (p *Base[T]) ResetSave() {
	if !p.saved {
		return
	}
	p.saved = false''')],
 demo='''func mk() (*model.Model[float32], *model.Model[float32]) {
	in := model.NewModel[float32]().
		Push(layer.NewInDense[float32](2, 3, activation.Linear[float32]{})).
		Push(layer.NewDense[float32](2, activation.Linear[float32]{}))
	out := model.NewModel[float32]().Push(in).Push(layer.NewDense[float32](1, activation.Linear[float32]{}))
	no(out.Compile())
	return in, out
}

func main() {
	in, out := mk()
	var b bytes.Buffer
	in.ResetSave()
	no(in.Save(&b))
	b.Reset()
	out.ResetSave()
	no(out.Save(&b))
	must(b.Len() == 4*(3*2+3+2*3+2+2+1), "%d bytes", b.Len())
}'''),
dict(id='C12-memo', property='C12', needs='predicting the same input twice with a change of the parameters between',
 breaks='predicting the input of the previous prediction again returns the previous output although the parameters changed',
 edits=[('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil''', '''	if p.lastIn != nil && tools.Equals(p.lastIn.GetShape(), t.GetShape()) == -1 {
		same := true
		for i, o := range t.GetOperands() {
			same = same && o.Value == p.lastIn.GetOperands()[i].Value
		}
		if same {
			return p.lastOut.Copy(), nil
		}
	}
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	p.lastIn = t.Copy()
	p.lastOut = p.Output.Copy()
	return p.Output.Copy(), nil'''), ('model/model.go', '''	GraphReset           *graph.Graph
''', '''	GraphReset           *graph.Graph

	lastIn  tensor.Tensor[T]
	lastOut tensor.Tensor[T]
''')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInDense[float64](2, 1, activation.Linear[float64]{}))
	x := tensor.NewFromValues([]float64{1, 2}, 2)
	y := tensor.NewFromValues([]float64{50}, 1)
	a, err := m.Predict(x)
	no(err)
	_, err = m.TrainOne(x, y, 0.1, 0)
	no(err)
	b, err := m.Predict(x)
	no(err)
	must(a.GetData()[0] != b.GetData()[0], "prediction did not change after training")
}'''),
dict(id='C13-norm-peak', property='C13', needs='an input whose largest magnitude is negative',
 breaks='peak-normalisation divides by the largest element instead of the largest magnitude',
 edits=[('layer/norm.go', 'Args:   abs.GetOperands(),', 'Args:   p.Input.GetOperands(),')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInput[float64](2)).Push(layer.NewNorm[float64]())
	o, err := m.Predict(tensor.NewFromValues([]float64{1, -4}, 2))
	no(err)
	must(o.GetData()[0] == 0.25 && o.GetData()[1] == -1, "%v", o.GetData())
}'''),
dict(id='C13-deconv-stride', property='C13', needs='a transposed convolution whose vertical stride is larger than the horizontal one',
 breaks='transposed convolution uses the horizontal stride for the vertical direction',
 edits=[('layer/deconv2d.go', '''				for y := uint(0); y < inShape[2]; y++ {
					offsety := y * p.SY

					for kx''', '''				for y := uint(0); y < inShape[2]; y++ {
					offsety := y * p.SX
					if offsety+p.KH > outShape[2] {
						offsety = outShape[2] - p.KH
					}

					for kx''')],
 demo='''func main() {
	l := layer.NewDeconv2Dwh[float64](1, 1, 1, 1, 2, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(layer.NewInput[float64](1, 1, 2)).Push(l)
	no(m.Compile())
	d := l.(*layer.Deconv2D[float64])
	no(d.Weights.LoadData([]float64{1}))
	no(d.Bias.LoadData([]float64{0, 0, 0}))
	o, err := m.Predict(tensor.NewFromValues([]float64{5, 7}, 1, 1, 2))
	no(err)
	must(reflect.DeepEqual(o.GetData(), []float64{5, 0, 7}), "%v", o.GetData())
}'''),
dict(id='C15-frozen-front', property='C15', needs='a frozen layer with unfrozen layers before it',
 breaks='layers before a frozen layer are not trained',
 edits=[('layer/base.go', '''	if p.PreLayer != nil {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
''', '''	if !p.Trainable && p.Weights != nil {
		return nil
	}
	if p.PreLayer != nil {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	b := layer.NewDense[float64](1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a).Push(b)
	no(m.Compile())
	no(b.(*layer.Dense[float64]).Weights.LoadData([]float64{1}))
	b.SetTrainable(false)
	w := a.(*layer.Dense[float64]).Weights.GetData()[0]
	_, err := m.TrainOne(tensor.NewFromValues([]float64{1}, 1), tensor.NewFromValues([]float64{100}, 1), 0.1, 0)
	no(err)
	must(a.(*layer.Dense[float64]).Weights.GetData()[0] != w, "unfrozen layer not trained")
}'''),
dict(id='C16-chain3', property='C16', needs='a chain of at least three models',
 breaks='the third model of a chain is fed by the first',
 edits=[('model/model.go', '''			models[i].FirstLayer.Connect(models[i-1].LastLayer)''', '''			models[i].FirstLayer.Connect(models[0].LastLayer)''')],
 demo='''func mk(w float64) *model.Model[float64] {
	l := layer.NewDense[float64](1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(layer.NewInput[float64](1)).Push(l)
	return m
}

func main() {
	a, b, c := mk(1), mk(1), mk(1)
	m, err := model.FromModels(a, b, c)
	no(err)
	for i, p := range []*model.Model[float64]{a, b, c} {
		d := p.LastLayer.(*layer.Dense[float64])
		no(d.Weights.LoadData([]float64{float64(i + 2)}))
		no(d.Bias.LoadData([]float64{0}))
	}
	o, err := m.Predict(tensor.NewFromValues([]float64{1}, 1))
	no(err)
	must(o.GetData()[0] == 24, "2*3*4 = %v", o.GetData())
}'''),
dict(id='C17-alpha-once', property='C17', needs='two calls of Train with different rates',
 breaks='a later call of Train keeps the rate and momentum of the first training call',
 edits=[('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {''', '''	if p.Alpha.Value == 0 {
		p.Alpha.Value = alpha
		p.Momentum.Value = momentum
	}
	if batch == 0 {''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	x := []tensor.Tensor[float64]{tensor.NewFromValues([]float64{1}, 1)}
	y := []tensor.Tensor[float64]{tensor.NewFromValues([]float64{100}, 1)}
	no(m.Train(x, y, 1, 1, 0.1, 0))
	w := a.(*layer.Dense[float64]).Weights.GetData()[0]
	no(m.Train(x, y, 1, 1, 0, 0))
	must(a.(*layer.Dense[float64]).Weights.GetData()[0] == w, "trained with rate zero")
}'''),
dict(id='C17-window', property='C17', needs='a batch smaller than the data set',
 breaks='with a batch smaller than the data set the later samples are never chosen',
 edits=[('model/model.go', 'index := rand.Intn(len(inputs))', 'index := rand.Intn(int(batch)) % len(inputs)')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.Compile())
	no(a.(*layer.Dense[float64]).Weights.LoadData([]float64{0}))
	no(a.(*layer.Dense[float64]).Bias.LoadData([]float64{0}))
	x := []tensor.Tensor[float64]{tensor.NewFromValues([]float64{0}, 1), tensor.NewFromValues([]float64{1}, 1)}
	y := []tensor.Tensor[float64]{tensor.NewFromValues([]float64{0}, 1), tensor.NewFromValues([]float64{1}, 1)}
	no(m.Train(x, y, 200, 1, 0.1, 0))
	must(a.(*layer.Dense[float64]).Weights.GetData()[0] != 0, "the second sample was never used in 200 steps")
}'''),
dict(id='C18-tanh', property='C18', needs='inputs of large magnitude',
 breaks='the derivative of tanh for large inputs is NaN',
 edits=[('activation/tanh.go', 'return T(1 / math.Pow(math.Cosh(float64(t)), 2))', 'a, b := math.Exp(float64(t)), math.Exp(-float64(t))\n\tr := (a - b) / (a + b)\n\treturn T(1 - r*r)')],
 demo='''func main() {
	for _, x := range []float64{-1000, -2, 0, 3, 1000} {
		d := activation.Tanh[float64]{}.Derive(x)
		w := 1 / math.Pow(math.Cosh(x), 2)
		must(math.Abs(d-w) < 1e-9, "tanh'(%v) = %v", x, d)
	}
}'''),
dict(id='C19-subnormal', property='C19', needs='a value that rounds to the smallest subnormal',
 breaks='values between half and the whole of the smallest subnormal are flushed to zero',
 edits=[('scalar/f16.go', 'if 14-halfExp > 24 {', 'if 14-halfExp >= 24 {')],
 demo='''func main() {
	v := float32(math.Pow(2, -25) * 1.5)
	must(scalar.F16fromF32(v).Value == 1, "%x", scalar.F16fromF32(v).Value)
}'''),
dict(id='C20-int-scale', property='C20', needs='a target size that does not divide the source size',
 breaks='nearest scaling uses an integer ratio',
 edits=[('img/simple_scale.go', 'X = uint(float64(x) * scalX)', 'X = x * uint(scalX)\n\t\t\tif scalX < 1 {\n\t\t\t\tX = uint(float64(x) * scalX)\n\t\t\t}')],
 demo='''func main() {
	t := tensor.NewFromValues([]float64{1, 2, 3, 4, 5}, 1, 5, 1)
	s, err := img.SimpleScale[float64](t, 3, 1)
	no(err)
	must(reflect.DeepEqual(s.GetData(), []float64{1, 2, 4}), "%v", s.GetData())
}'''),
dict(id='C21-reject-target', property='C21', needs='a rejected training step followed by a summary of the loss, or by a prediction',
 breaks='after a training step that is rejected because of its target the next prediction is answered from the data of the rejected step',
 edits=[('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return''', '''	if p.pending {
		p.pending = false
		p.GraphFeedForward.Exec()
		return p.Output.Copy(), nil
	}
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return'''), ('model/model.go', '''	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
''', '''	p.pending = true
	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
	p.pending = false
'''), ('model/model.go', '''	GraphReset           *graph.Graph
''', '''	GraphReset           *graph.Graph

	pending bool
''')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}))
	a, err := m.Predict(tensor.NewFromValues([]float64{2}, 1))
	no(err)
	_, err = m.TrainOne(tensor.NewFromValues([]float64{1}, 1), tensor.NewZeros[float64](3), 0.1, 0)
	must(err != nil, "accepted")
	b, err := m.Predict(tensor.NewFromValues([]float64{2}, 1))
	no(err)
	must(a.GetData()[0] == b.GetData()[0], "%v %v", a.GetData(), b.GetData())
}'''),
dict(id='C22-reverse-scratch', property='C22', needs='two goroutines that rearrange different tensors at the same time',
 breaks='index computations of unrelated tensors share a buffer',
 edits=[('tools/tools.go', '''func ReverseIndex(mul, shape []uint, index uint) []uint {
	ind := make([]uint, len(shape))
''', '''var indexScratch [16]uint

func ReverseIndex(mul, shape []uint, index uint) []uint {
	ind := indexScratch[:0]
	if len(shape) <= len(indexScratch) {
		ind = indexScratch[:len(shape)]
	} else {
		ind = make([]uint, len(shape))
	}
''')],
 demo='''func main() {
	var wg sync.WaitGroup
	bad := make(chan int, 8)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			v := make([]int, 12)
			for i := range v {
				v[i] = i
			}
			a := tensor.NewFromValues(v, uint(k%3+2), uint(12/(k%3+2)))
			want, _ := a.Transpose()
			_ = want
			for r := 0; r < 30000; r++ {
				b, err := a.Transpose()
				if err != nil {
					bad <- r
					return
				}
				c, err := b.Transpose()
				if err != nil || !reflect.DeepEqual(c.GetData(), a.GetData()) {
					bad <- r
					return
				}
			}
		}(k)
	}
	wg.Wait()
	must(len(bad) == 0, "%d goroutines saw a wrong transpose", len(bad))
}'''),
dict(id='C23-reset-branch', property='C23', needs='asking twice for the summary of a model with a concatenation',
 breaks='the second summary of a model with a concatenation leaves out the layers of the second branch',
 edits=[('layer/concat.go', '''	p.l1.ResetPrinted()
	p.l2.ResetPrinted()
''', '''	p.l1.ResetPrinted()
''')],
 demo='''func main() {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](2, activation.Linear[float64]{})
	b := layer.NewDense[float64](3, activation.Linear[float64]{})
	a.Connect(in)
	b.Connect(in)
	c := layer.NewConcat[float64](a, b, 0)
	m, err := model.FromInOut[float64](in, c)
	no(err)
	no(m.Compile())
	s := m.String()
	must(m.String() == s, "%s%s", s, m.String())
}'''),
dict(id='C24-rand-range', property='C24', needs='a lower bound other than zero',
 breaks='uniform initialisation is not within the bounds unless the lower bound is zero',
 edits=[('tensor/constructor.go', 'T(rand.Float64()*(max-min) + min)', 'T(rand.Float64()*max + min)')],
 demo='''func main() {
	t := tensor.NewRand[float64](5, 6, 1000)
	for _, v := range t.GetData() {
		must(v >= 5 && v <= 6, "%v", v)
	}
}'''),
]
