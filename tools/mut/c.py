MUTANTS = [
dict(id='C04-range-past', property='C04', needs='an eager filling sub-range that starts past the end of the dimension, with a fill value other than zero',
 breaks='a range that starts past the end is filled with zero instead of the given value',
 edits=[('tensor/sub_tensor.go', '''	max := shape[dim]
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
''', '''	max := shape[dim]
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
	if start > max {
		fill = 0
	}
''')],
 demo='''func main() {
	s, err := tensor.NewFromValues([]int{1, 2, 3}, 3).FOSubTensor(0, 4, 6, 7)
	no(err)
	must(s.GetData()[0] == 7 && s.GetData()[1] == 7, "%v", s.GetData())
}'''),
dict(id='C04-index-byte', property='C04', needs='a dimension longer than 256 behind another dimension',
 breaks='positions past 256 of a dimension wrap around when a tensor is rearranged',
 edits=[('tools/tools.go', '''	for i := range ind {
		ind[i] = index / mul[i]
		index %= mul[i]
	}
''', '''	for i := range ind {
		ind[i] = index / mul[i]
		if i > 0 {
			ind[i] %= 256
		}
		index %= mul[i]
	}
''')],
 demo='''func main() {
	t := tensor.NewZeros[int](300, 2)
	for i := uint(0); i < 300; i++ {
		no(t.Set(int(i), i, 1))
	}
	u, err := t.Transpose()
	no(err)
	v, err := u.Get(1, 280)
	no(err)
	must(v == 280, "%d", v)
}'''),
dict(id='C14-wide-error', property='C14', needs='a dense layer of more than eight elements after a trained layer',
 breaks='the error carried back through a dense layer of more than eight elements repeats the first eight',
 edits=[('layer/dense.go', '''			ops := make([]*number.Scalar[T], outputs)
			for j := uint(0); j < outputs; j++ {
				dif, err''', '''			ops := make([]*number.Scalar[T], outputs)
			for j := uint(0); j < outputs; j++ {
				if j >= 8 {
					ops[j] = ops[j-8]
					continue
				}
				dif, err''')],
 demo='''func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}))
	m.Push(layer.NewDense[float64](9, activation.Linear[float64]{}))
	no(m.Compile())
	var b bytes.Buffer
	for _, v := range []float64{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0} {
		no(binary.Write(&b, binary.LittleEndian, v))
	}
	m.ResetLoad()
	no(m.Load(&b))
	_, err := m.TrainOne(tensor.NewOnes[float64](1), tensor.NewFromValues([]float64{0, 0, 0, 0, 0, 0, 0, 0, 3}, 9), 0.5, 0)
	no(err)
	w := m.FirstLayer.(*layer.Dense[float64]).Weights.GetData()[0]
	must(w == 2, "weight %v, want 1 + 0.5*2", w)
}'''),
dict(id='C12-recycled', property='C12', needs='four predictions whose results are all kept',
 breaks='every fourth prediction is returned in the tensor of an earlier one',
 edits=[('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	p.GraphFeedForward.Exec()
	p.calls++
	if p.calls%4 == 0 && p.ring[0] != nil {
		err := p.ring[0].LoadFromTensor(p.Output)
		return p.ring[0], err
	}
	out := p.Output.Copy()
	p.ring[p.calls%2] = out
	return out, nil
'''), ('model/model.go', '''	compileErr error
''', '''	compileErr error
	calls      int
	ring       [2]tensor.Tensor[T]
''')],
 demo='''func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1))
	m.Push(layer.NewFlatten[float64]())
	var out []tensor.Tensor[float64]
	for i := 0; i < 9; i++ {
		o, err := m.Predict(tensor.NewFromValues([]float64{float64(i)}, 1))
		no(err)
		out = append(out, o)
	}
	for i, o := range out {
		must(o.GetData()[0] == float64(i), "result %d became %v", i, o.GetData())
	}
}'''),
dict(id='C15-frozen-shadow', property='C15', needs='a frozen layer behind a layer that is not frozen',
 breaks='layers in front of a frozen layer with parameters are not updated',
 edits=[('layer/base.go', '''	if p.PreLayer != nil {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
''', '''	if p.PreLayer != nil && (p.Trainable || p.Bias == nil) {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	b := layer.NewDense[float64](1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a).Push(b)
	no(m.Compile())
	b.SetTrainable(false)
	w := a.(*layer.Dense[float64]).Weights
	before := w.GetData()[0]
	_, err := m.TrainOne(tensor.NewOnes[float64](1), tensor.NewFromValues([]float64{1000}, 1), 0.5, 0)
	no(err)
	must(w.GetData()[0] != before, "the layer was not trained")
}'''),
dict(id='C11-frozen-save', property='C11', needs='saving a model with a frozen layer after it was trained',
 breaks='the weights of a frozen layer are left out of the file once the model was prepared for training',
 edits=[('layer/base.go', '''	if p.Weights != nil {
		err := p.Weights.Save(w)
''', '''	if p.Weights != nil && (p.Trainable || p.NWeights == nil) {
		err := p.Weights.Save(w)
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](2, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.CompileBackPropagation())
	a.SetTrainable(false)
	var b bytes.Buffer
	m.ResetSave()
	no(m.Save(&b))
	must(b.Len() == 24, "%d bytes for three parameters", b.Len())
}'''),
dict(id='C17-first-sample', property='C17', needs='a data set of more than 32 samples',
 breaks='the first step of every epoch on a large data set always uses its first sample',
 edits=[('model/model.go', '''			index := rand.Intn(len(inputs))
''', '''			index := rand.Intn(len(inputs))
			if len(inputs) > 32 && j == 1 {
				index = 0
			}
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.CompileBackPropagation())
	var in, out []tensor.Tensor[float64]
	for i := 0; i < 40; i++ {
		in = append(in, tensor.NewZeros[float64](1))
		out = append(out, tensor.NewFromValues([]float64{float64(i)}, 1))
	}
	seen := map[float64]bool{}
	bias := a.(*layer.Dense[float64]).Bias
	for i := 0; i < 100; i++ {
		no(m.Train(in, out, 1, 1, 1, 0))
		seen[bias.GetData()[0]] = true
	}
	must(len(seen) > 1, "only one sample was ever used")
}'''),
dict(id='C08-padding', property='C08', needs='a tensor built from a list that is shorter than the tensor by at least three, and a write into the padding',
 breaks='the elements with which a short list is padded are one and the same',
 edits=[('tensor/constructor.go', '''	for i := size; i < total; i++ {
		data[i] = &number.Scalar[T]{Value: 0}
	}
''', '''	var zero number.Scalar[T]
	for i := size; i < total; i++ {
		if total-size < 3 {
			data[i] = &number.Scalar[T]{Value: 0}
			continue
		}
		data[i] = &zero
	}
''')],
 demo='''func main() {
	t := tensor.NewFromValues([]int{1}, 5)
	no(t.Set(9, 3))
	v, err := t.Get(4)
	no(err)
	must(v == 0, "%d", v)
}'''),
dict(id='C13-deconv-channels', property='C13', needs='a transposed convolution of an image with more than two channels',
 breaks='a transposed convolution uses the weights of the first two channels for the others',
 edits=[('layer/deconv2d.go', '''							w, err := p.Weights.GetOperand(outF, inF, kx, ky)
							if err != nil {
								return err
							}

							inW''', '''							w, err := p.Weights.GetOperand(outF, inF%2, kx, ky)
							if err != nil {
								return err
							}

							inW''')],
 demo='''func main() {
	d := layer.NewDeconv2D[float64](1, 1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(layer.NewInput[float64](3, 1, 1)).Push(d)
	no(m.Compile())
	p := d.(*layer.Deconv2D[float64])
	no(p.Bias.LoadData([]float64{0}))
	no(p.Weights.LoadData([]float64{1, 2, 4}))
	o, err := m.Predict(tensor.NewFromValues([]float64{0, 0, 1}, 3, 1, 1))
	no(err)
	must(o.GetData()[0] == 4, "%v", o.GetData())
}'''),
dict(id='C23-elide', property='C23', needs='a tensor of more than a thousand elements',
 breaks='the text of a tensor of more than a thousand elements leaves out the rest',
 edits=[('tensor/tensor_mat.go', '''	for i, d := range p.Operands {
		sb.WriteString(fmt.Sprint(d.Value))
''', '''	for i, d := range p.Operands {
		if i == 1000 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(fmt.Sprint(d.Value))
''')],
 demo='''func main() {
	n := strings.Count(tensor.NewOnes[int](1002).String(), "1")
	must(n >= 1005, "%d ones", n)
}'''),
dict(id='C24-repeat', property='C24', needs='a normally initialised tensor of more than 256 elements',
 breaks='every 256th element of a normally initialised tensor repeats an earlier one',
 edits=[('tensor/constructor.go', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
''', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
		if i >= 256 && i%256 == 0 {
			data[i].Value = data[i-256].Value
		}
''')],
 demo='''func main() {
	d := tensor.NewNormRand[float64](600).GetData()
	must(d[256] != d[0] && d[512] != d[256], "%v %v %v", d[0], d[256], d[512])
}'''),
dict(id='C22-half-cache', property='C22', needs='two goroutines that read different half-precision scalars at the same time',
 breaks='the conversion of half-precision scalars shares a one-entry cache',
 edits=[('scalar/f16.go', '''func (p *F16) G32() float32 {
	u32 := f16bitsToF32bits(p.Value)
	return math.Float32frombits(u32)
}
''', '''func (p *F16) G32() float32 {
	if p.Value == lastBits && lastBits != 0 {
		return lastF32
	}
	lastBits = p.Value
	lastF32 = math.Float32frombits(f16bitsToF32bits(p.Value))
	return lastF32
}

var (
	lastBits uint16
	lastF32  float32
)
''')],
 demo='''func main() {
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s := scalar.F16fromF32(float32(g + 1))
			for i := 0; i < 5000000; i++ {
				if s.G32() != float32(g+1) {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	must(bad == 0, "a scalar had another value")
}'''),
dict(id='C10-page', property='C10', needs='a tensor of more than 4096 elements',
 breaks='saving skips an element at every page of 4096 elements',
 edits=[('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for _, s := range p.Operands {
''', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for i, s := range p.Operands {
		if i >= 4096 && i%4096 == 0 {
			continue
		}
''')],
 demo='''func main() {
	var b bytes.Buffer
	t := tensor.NewOnes[int64](5000)
	no(t.Save(&b))
	no(tensor.NewZeros[int64](5000).Load(&b))
}'''),
dict(id='C16-push-connected', property='C16', needs='pushing a layer that was connected to another layer before',
 breaks='pushing a layer that was connected elsewhere before does not connect it',
 edits=[('model/model.go', '''	l.Connect(p.LastLayer)
	p.LastLayer = l
	return p
''', '''	if l.GetPrelayer() == nil {
		l.Connect(p.LastLayer)
	}
	p.LastLayer = l
	return p
''')],
 demo='''func main() {
	f := layer.NewFlatten[float64]()
	f.Connect(layer.NewInput[float64](2, 1))
	m := model.NewModel[float64]().Push(layer.NewInput[float64](3, 1)).Push(f)
	o, err := m.Predict(tensor.NewFromValues([]float64{1, 2, 3}, 3, 1))
	no(err)
	must(len(o.GetData()) == 3 && o.GetData()[2] == 3, "%v", o.GetData())
}'''),
dict(id='C11-nested-branch', property='C11', needs='a model nested in one of two branches that share a layer with parameters',
 breaks='loading a nested model prepares the layers before it for loading again, so that a shared layer is read twice',
 edits=[('model/model_layer.go', '''	return p.LastLayer.Load(r)
''', '''	err = p.LastLayer.Load(r)
	p.LastLayer.ResetLoad()
	return err
''')],
 demo='''func main() {
	mk := func() *model.Model[float64] {
		in := layer.NewInput[float64](1)
		d := layer.NewDense[float64](1, activation.Linear[float64]{})
		d.Connect(in)
		n := model.NewModel[float64]().Push(layer.NewDense[float64](1, activation.Linear[float64]{}))
		n.Connect(d)
		e := layer.NewDense[float64](1, activation.Linear[float64]{})
		e.Connect(d)
		m, err := model.FromInOut[float64](in, layer.NewConcat[float64](n, e, 0))
		no(err)
		no(m.Compile())
		return m
	}
	a, b := mk(), mk()
	var w bytes.Buffer
	a.ResetSave()
	no(a.Save(&w))
	b.ResetLoad()
	no(b.Load(&w))
	x := tensor.NewOnes[float64](1)
	p, err := a.Predict(x)
	no(err)
	q, err := b.Predict(x)
	no(err)
	must(fmt.Sprint(p.GetData()) == fmt.Sprint(q.GetData()), "%v %v", p.GetData(), q.GetData())
}'''),
dict(id='C12-own-output', property='C12', needs="predicting from the model's own output tensor",
 breaks="predicting from the model's output tensor returns it instead of its prediction",
 edits=[('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
''', '''	if t == p.Output && t != p.Input {
		return t.Copy(), nil
	}
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
''')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}))
	no(m.Compile())
	d := m.LastLayer.(*layer.Dense[float64])
	no(d.Weights.LoadData([]float64{2}))
	no(d.Bias.LoadData([]float64{0}))
	_, err := m.Predict(tensor.NewOnes[float64](1))
	no(err)
	o, err := m.Predict(m.Output)
	no(err)
	must(o.GetData()[0] == 4, "%v", o.GetData())
}'''),
]
