DENSE = 'layer.NewDense[float64](%s, activation.Linear[float64]{})'
MUTANTS = [
dict(id='C01-signed', property='C01', needs='a coordinate of 2^63 or more and rows of even length',
 breaks='coordinates are compared as signed numbers: a huge coordinate wraps around to an element of the tensor',
 edits=[('tools/tools.go', 'if index[i] >= s {', 'if int(index[i]) >= int(s) {')],
 demo='''func main() {
	t := tensor.NewFromValues([]int{1, 2, 3, 4}, 2, 2)
	v, err := t.Get(1<<63, 1)
	must(err != nil, "index 2^63,1 gives %d", v)
}'''),
dict(id='C03-dmax-zero', property='C03', needs='a per-dimension maximum over more than one element, all of them negative',
 breaks='eager per-dimension maximum of negative elements is zero',
 edits=[('tools/math.go', '''	max := args[0].Value
	for i := 1; i < len(args); i++ {
		if max < args[i].Value {
			max = args[i].Value
		}
	}''', '''	var max T
	for i := 0; i < len(args); i++ {
		if max < args[i].Value || len(args) == 1 {
			max = args[i].Value
		}
	}''')],
 demo='''func main() {
	s, err := tensor.NewFromValues([]float64{-1, -2, -4, -3}, 2, 2).DMax(0)
	no(err)
	must(s.GetData()[0] == -1 && s.GetData()[1] == -3, "%v", s.GetData())
}'''),
dict(id='C05-sparse', property='C05', needs='a zero in the first operand before other elements',
 breaks='the eager dot product stops at the first zero of the first operand',
 edits=[('tensor/dot_product.go', '''		ops[index].Value += a.Value * b.Value
''', '''		if a.Value == 0 {
			break
		}
		ops[index].Value += a.Value * b.Value
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{0, 1, 2, 0}, 2, 2)
	b := tensor.NewFromValues([]int{1, 2, 3, 4}, 2, 2)
	s, err := a.Dot(b)
	no(err)
	must(reflect.DeepEqual(s.GetData(), []int{3, 4, 2, 4}), "%v", s.GetData())
}'''),
dict(id='C05-overflowing-type', property='C05', needs='64-bit integers above 2^53',
 breaks='eager dot product of vectors accumulates in floating point',
 edits=[('tensor/dot_product.go', '''		Value: tools.Sum[T](ops),
''', '''		Value: T(sum),
'''), ('tensor/dot_product.go', '''	ops := make([]*number.Scalar[T], len(op1))
	for i := range ops {
		ops[i] = &number.Scalar[T]{
			Value: op1[i].Value * op2[i].Value,
		}
	}
''', '''	sum := float64(0)
	for i := range op1 {
		sum += float64(op1[i].Value) * float64(op2[i].Value)
	}
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int64{1 << 60, 1}, 2)
	b := tensor.NewFromValues([]int64{1, 1}, 2)
	s, err := a.Dot(b)
	no(err)
	must(s.GetData()[0] == 1<<60+1, "%v", s.GetData())
}'''),
dict(id='C06-softmax-inplace', property='C06', needs='a soft-max of an intermediate result that is used elsewhere',
 breaks='the graph of a soft-max overwrites its operand when it is an intermediate result',
 edits=[('tensor/softmax.go', '''		p.Operands[i] = &number.Scalar[T]{}
''', '''		p.Operands[i] = &number.Scalar[T]{}
		if _, ok := p.T.(*TensorOp2[T]); ok {
			p.Operands[i] = ops[i]
		}
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]float64{1, 2, 5}, 3)
	d := tensor.Add[float64](a, a)
	r := tensor.Sum(d)
	q := tensor.Add(tensor.SoftMax(d), d)
	g, err := graph.NewGraph(q)
	no(err)
	g.Exec()
	_ = r
	must(d.GetData()[2] == 10 && q.GetData()[0] == 2, "%v %v", d.GetData(), q.GetData())
}'''),
dict(id='C07-fill-capture', property='C07', needs='a scalar that changes between building and executing a fill',
 breaks='a fill uses the value its scalar had when the graph was built',
 edits=[('tensor/fill.go', '''	ops := p.T.GetOperands()
	for i''', '''	ops := p.T.GetOperands()
	v := &number.Scalar[T]{Value: p.V.Value}
	for i'''), ('tensor/fill.go', 'Scalar: ops[i], O: p.V}', 'Scalar: ops[i], O: v}')],
 demo='''func main() {
	a := tensor.NewZeros[float64](3)
	s := number.NewScalar(1.0)
	f := tensor.FillWith[float64](a, s)
	g, err := graph.NewGraph(f)
	no(err)
	s.Value = 4
	g.Exec()
	must(a.GetData()[1] == 4, "%v", a.GetData())
}'''),
dict(id='C07-sum-accumulate', property='C07', needs='executing a graph with a sum more than once, with an empty-looking first element',
 breaks='a sum whose first element is zero keeps its previous value',
 edits=[('operation/sum.go', '''	p.Value = scalar
''', '''	if scalar != 0 {
		p.Value = scalar
	}
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2}, 2)
	s := tensor.Sum[int](a)
	g, err := graph.NewGraph(s)
	no(err)
	g.Exec()
	no(a.LoadData([]int{3, -3}))
	g.Exec()
	must(s.GetData()[0] == 0, "%v", s.GetData())
}'''),
dict(id='C08-reshape-share', property='C08', needs='an eager reshape to a shape of the same size followed by a write',
 breaks='an eager reshape to the same number of elements shares its elements with its operand',
 edits=[('tensor/reshape.go', '''	for i := uint(0); i < min; i++ {
		ops[i] = &number.Scalar[T]{
			Value: p.Operands[i].Value,
		}
	}
''', '''	for i := uint(0); i < min; i++ {
		if min == p.GetSize() {
			ops[i] = p.Operands[i]
			continue
		}
		ops[i] = &number.Scalar[T]{
			Value: p.Operands[i].Value,
		}
	}
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2, 3, 4}, 2, 2)
	b := a.Reshape(4)
	no(b.Set(9, 0))
	must(a.GetData()[0] == 1, "%v", a.GetData())
}'''),
dict(id='C08-dsum-last', property='C08', needs='an eager per-dimension sum along the last dimension followed by a write',
 breaks='the per-dimension sum along the last dimension shares its elements with its operand',
 edits=[('tensor/dim_math.go', '''		ops[i] = &number.Scalar[T]{
			Value: tools.Sum[T](args),
		}
''', '''		if mi == 1 {
			ops[i] = args[0]
			continue
		}
		ops[i] = &number.Scalar[T]{
			Value: tools.Sum[T](args),
		}
''')],
 demo='''func main() {
	a := tensor.NewFromValues([]int{1, 2, 3, 4}, 2, 2)
	b, err := a.DSum(1)
	no(err)
	no(b.Set(9, 0, 0))
	must(a.GetData()[0] == 1, "%v", a.GetData())
}'''),
dict(id='C09-op2-size', property='C09', needs='operands of different shapes with as many elements, in a graph',
 breaks='graph operations accept operands of different shapes with the same number of elements',
 edits=[('tensor/oper2.go', '''	e := tools.GetEqShapeErr("Binary operation", p.A.GetShape(), p.B.GetShape())
	if e != nil {
		return e
	}''', '''	if p.A.GetSize() != p.B.GetSize() {
		return tools.GetEqShapeErr("Binary operation", p.A.GetShape(), p.B.GetShape())
	}''')],
 demo='''func main() {
	r := tensor.Add[int](tensor.NewZeros[int](2, 3), tensor.NewZeros[int](3, 2))
	_, err := graph.NewGraph(r)
	must(err != nil, "accepted")
}'''),
dict(id='C09-dim-off', property='C09', needs='a dimension equal to the number of dimensions',
 breaks='eager per-dimension minimum with a dimension the tensor does not have crashes',
 edits=[('tensor/dim_math.go', '''func (p *TensorMat[T]) DMin(dim uint) (*TensorMat[T], error) {
	if dim >= uint(len(p.Shape)) {''', '''func (p *TensorMat[T]) DMin(dim uint) (*TensorMat[T], error) {
	if dim > uint(len(p.Shape)) {''')],
 demo='''func main() {
	_, err := tensor.NewZeros[int](2, 3).DMin(2)
	must(err != nil, "accepted")
}'''),
dict(id='C09-copy-smaller', property='C09', needs='a copy from a smaller tensor to a larger one',
 breaks='copying a tensor to a larger one is accepted and leaves part of it',
 edits=[('tensor/copy.go', 'if p.F.GetSize() != p.T.GetSize() {', 'if p.F.GetSize() > p.T.GetSize() {'), ('tensor/copy.go', 'for i := range p.Operands {', 'for i := range opsF {')],
 demo='''func main() {
	_, err := graph.NewGraph(tensor.CopyTo[int](tensor.NewZeros[int](2), tensor.NewZeros[int](3)))
	must(err != nil, "accepted")
}'''),
dict(id='C10-bufread', property='C10', needs='two tensors in one stream',
 breaks='loading a tensor reads ahead, so that a tensor stored after it in the same stream is lost',
 edits=[('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	r = bufio.NewReader(r)
	for'''), ('tensor/tensor_mat.go', 'import (\n', 'import (\n\t"bufio"\n')],
 demo='''func main() {
	var b bytes.Buffer
	no(tensor.NewOnes[int32](3).Save(&b))
	no(tensor.NewOnes[int32](2).Save(&b))
	x, y := tensor.NewZeros[int32](3), tensor.NewZeros[int32](2)
	no(x.Load(&b))
	no(y.Load(&b))
	must(y.GetData()[1] == 1, "%v", y.GetData())
}'''),
dict(id='C11-branch-error', property='C11', needs='a concatenation at the end of a model whose second branch has no parameters, and a failing stream',
 breaks='an error while loading the first branch of a concatenation is not reported',
 edits=[('layer/concat.go', '''		err := p.l1.Load(r)
		if err != nil {
			return err
		}
''', '''		p.l1.Load(r)
''')],
 demo='''func main() {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](2, activation.Linear[float64]{})
	a.Connect(in)
	m, err := model.FromInOut[float64](in, layer.NewConcat[float64](a, in, 0))
	no(err)
	no(m.Compile())
	m.ResetLoad()
	must(m.Load(bytes.NewReader(make([]byte, 20))) != nil, "20 bytes loaded")
}'''),
dict(id='C11-bias-once', property='C11', needs='saving a second time after training only the bias, or comparing the bias after loading',
 breaks='a layer whose bias is all zero is saved without it',
 edits=[('layer/base.go', '''	if p.Bias != nil {
		err := p.Bias.Save(w)''', '''	if p.Bias != nil && (p.saves == 0 || p.Trainable) {
		p.saves++
		err := p.Bias.Save(w)'''), ('layer/base.go', '''	saved  bool
''', '''	saved  bool
	saves  int
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](2, 2, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.Compile())
	m.SetTrainable(false)
	for i := 0; i < 3; i++ {
		var b bytes.Buffer
		m.ResetSave()
		no(m.Save(&b))
		must(b.Len() == 48, "%d: %d bytes", i, b.Len())
	}
}'''),
dict(id='C13-conv-ceil', property='C13', needs='a stride that does not divide the distance the kernel can move',
 breaks='convolution has an extra output at the border, computed from zeros past the end',
 edits=[('layer/conv2d.go', '(inShape[1]-p.KW)/p.SX + 1,', '(inShape[1]-p.KW+p.SX-1)/p.SX + 1,')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInput[float64](1, 4, 4)).Push(layer.NewConv2D[float64](1, 3, 2, activation.Linear[float64]{}))
	o, err := m.Predict(tensor.NewZeros[float64](1, 4, 4))
	no(err)
	must(reflect.DeepEqual(o.GetShape(), []uint{1, 1, 1}), "%v", o.GetShape())
}'''),
dict(id='C13-up-xy', property='C13', needs='an up-sampling layer with different factors for width and height',
 breaks='up-sampling uses the horizontal factor for the vertical position',
 edits=[('layer/up_sampling_2d.go', '''				inX := x / p.SX
				inY := y / p.SY

				i, err := p.Input''', '''				inX := x / p.SX
				inY := y * inShape[2] / outShape[1]
				if inY >= inShape[2] || p.SX == p.SY {
					inY = y / p.SY
				}

				i, err := p.Input'''), ('layer/up_sampling_2d.go', '	// inShape := p.Input.GetShape()', '	inShape := p.Input.GetShape()')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInput[float64](1, 2, 2)).Push(layer.NewUpSampling2Dxy[float64](3, 1))
	o, err := m.Predict(tensor.NewFromValues([]float64{1, 2, 3, 4}, 1, 2, 2))
	no(err)
	must(reflect.DeepEqual(o.GetData(), []float64{1, 2, 1, 2, 1, 2, 3, 4, 3, 4, 3, 4}), "%v", o.GetData())
}'''),
dict(id='C14-enorm', property='C14', needs='training through a symmetric peak-normalisation layer',
 breaks='the error carried back through a symmetric normalisation layer is half of what it should be',
 edits=[('layer/norm.go', 'Dif = tensor.MulScalar(Dif, &number.Scalar[T]{Value: p.max - p.min})', 'Dif = tensor.MulScalar(Dif, &number.Scalar[T]{Value: p.max})')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a).Push(layer.NewENorm[float64]())
	no(m.Compile())
	d := a.(*layer.Dense[float64])
	no(d.Weights.LoadData([]float64{2}))
	no(d.Bias.LoadData([]float64{0}))
	// output 2*x/|x|-1 = 1, target 2, scale 2/2
	_, err := m.TrainOne(tensor.NewOnes[float64](1), tensor.NewFromValues([]float64{2}, 1), 0.5, 0)
	no(err)
	must(d.Weights.GetData()[0] == 2.5, "%v", d.Weights.GetData())
}'''),
dict(id='C14-loss-sign', property='C14', needs='several outputs whose errors have different signs',
 breaks='the reported loss is the magnitude of the summed error, not the sum of the magnitudes',
 edits=[('model/model.go', '''	loss = tensor.Sum(loss)
''', '''	loss = tensor.Abs(tensor.Sum(tensor.Sub(p.Target, p.Output)))
''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 2, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.Compile())
	d := a.(*layer.Dense[float64])
	no(d.Weights.LoadData([]float64{0, 0}))
	no(d.Bias.LoadData([]float64{0, 0}))
	l, err := m.TrainOne(tensor.NewOnes[float64](1), tensor.NewFromValues([]float64{2, -2}, 2), 0, 0)
	no(err)
	must(l == 4, "%v", l)
}'''),
dict(id='C14-conv-der', property='C14', needs='a convolution after a layer with a non-linear activation',
 breaks='the error carried back through a convolution uses the derivative at the wrong position',
 edits=[('layer/conv2d.go', 'pder, err := der.GetOperand(i, ix, iy)', 'pder, err := der.GetOperand(i, x, iy)')],
 demo='''func run(k uint, w []float64) float64 {
	a := layer.NewConv2D[float64](1, 1, 1, activation.Tanh[float64]{})
	b := layer.NewConv2Dwh[float64](1, k, 1, 1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(layer.NewInput[float64](1, 2, 1)).Push(a).Push(b)
	no(m.Compile())
	c, d := a.(*layer.Conv2D[float64]), b.(*layer.Conv2D[float64])
	no(c.Weights.LoadData([]float64{1}))
	no(c.Bias.LoadData([]float64{0, 0}))
	no(d.Weights.LoadData(w))
	no(d.Bias.LoadData(make([]float64, 3-k)))
	_, err := m.TrainOne(tensor.NewFromValues([]float64{0, 2}, 1, 2, 1), tensor.NewFromValues([]float64{1, 1}[:3-k], 1, 3-k, 1), 1, 0)
	no(err)
	return c.Weights.GetData()[0]
}

func main() {
	t := math.Tanh(2)
	want := 1 + (1-t)*(1-t*t)*2
	got := run(2, []float64{0, 1})
	must(math.Abs(got-want) < 1e-9, "%v instead of %v", got, want)
}'''),
dict(id='C15-bias', property='C15', needs='a frozen layer',
 breaks='the bias of a frozen layer is trained',
 edits=[('layer/base.go', '''	if !p.Trainable {
		return nil
	}
	if p.Weights != nil && p.NWeights != nil {''', '''	if p.Trainable && p.Weights != nil && p.NWeights != nil {''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.Compile())
	a.SetTrainable(false)
	w := a.(*layer.Dense[float64]).Bias.GetData()[0]
	_, err := m.TrainOne(tensor.NewFromValues([]float64{1}, 1), tensor.NewFromValues([]float64{100}, 1), 0.1, 0)
	no(err)
	must(a.(*layer.Dense[float64]).Bias.GetData()[0] == w, "frozen bias trained")
}'''),
dict(id='C15-frozen-compile', property='C15', needs='a layer frozen while back-propagation is prepared and unfrozen later',
 breaks='a layer that is frozen while back-propagation is prepared is set to zero when it is trained later',
 edits=[('layer/dense.go', '''	for i := uint(0); i < outputs; i++ {
		dif, err := Dif.GetOperand(i)
		if err != nil {
			return err
		}
		mul_dif_alpha''', '''	for i := uint(0); p.Trainable && i < outputs; i++ {
		dif, err := Dif.GetOperand(i)
		if err != nil {
			return err
		}
		mul_dif_alpha''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	a.SetTrainable(false)
	x, y := tensor.NewOnes[float64](1), tensor.NewOnes[float64](1)
	_, err := m.TrainOne(x, y, 0.1, 0)
	no(err)
	d := a.(*layer.Dense[float64])
	no(d.Weights.LoadData([]float64{3}))
	no(d.Bias.LoadData([]float64{0}))
	a.SetTrainable(true)
	_, err = m.TrainOne(x, y, 0.5, 0)
	no(err)
	must(d.Weights.GetData()[0] == 2, "%v", d.Weights.GetData())
}'''),
dict(id='C16-part-input', property='C16', needs='using a later part of a chained model on its own',
 breaks='a part of a chained model that starts with an input layer ignores its input when it is used on its own',
 edits=[('layer/input.go', '''func (p *Input[T]) GetInputs() tensor.Tensor[T] {
	if p.PreLayer != nil {
		return p.PreLayer.GetOutputs()
	}
	return p.Input''', '''func (p *Input[T]) GetInputs() tensor.Tensor[T] {
	return p.Input''')],
 demo='''func mk() *model.Model[float64] {
	return model.NewModel[float64]().Push(layer.NewInput[float64](1)).Push(layer.NewDense[float64](1, activation.Linear[float64]{}))
}

func main() {
	a, b := mk(), mk()
	m, err := model.FromModels(a, b)
	no(err)
	x := tensor.NewFromValues([]float64{3}, 1)
	w, err := m.Predict(x)
	no(err)
	h, err := a.Predict(x)
	no(err)
	o, err := b.Predict(h)
	no(err)
	_, err = a.Predict(tensor.NewFromValues([]float64{-50}, 1))
	no(err)
	o, err = b.Predict(h)
	no(err)
	must(o.GetData()[0] == w.GetData()[0], "%v %v", o.GetData(), w.GetData())
}'''),
dict(id='C17-clamp', property='C17', needs='a batch larger than the data set',
 breaks='a batch larger than the data set is cut down to the size of the data set',
 edits=[('model/model.go', '	if batch == 0 {', '	if batch == 0 || batch > uint(len(inputs)) {')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	no(m.Compile())
	d := a.(*layer.Dense[float64])
	no(d.Weights.LoadData([]float64{0}))
	no(d.Bias.LoadData([]float64{0}))
	x := []tensor.Tensor[float64]{tensor.NewOnes[float64](1)}
	y := []tensor.Tensor[float64]{tensor.NewOnes[float64](1)}
	no(m.Train(x, y, 1, 3, 0.25, 0))
	must(math.Abs(d.Weights.GetData()[0]-(1-0.125)/2) < 1e-9, "%v", d.Weights.GetData())
}'''),
dict(id='C18-sat', property='C18', needs='inputs beyond the cut-off, compared closely',
 breaks='the sigmoid is cut off to exactly one for inputs above twelve',
 edits=[('activation/sigmoid.go', '	return 1 / (1 + T(math.Exp(float64(-t))))', '	if t > 12 {\n\t\treturn 1\n\t}\n\treturn 1 / (1 + T(math.Exp(float64(-t))))')],
 demo='''func main() {
	s := activation.Sigmoid[float64]{}
	must(s.Derive(13) > 1e-6, "%v", s.Derive(13))
	must(s.Activate(13) < 1, "%v", s.Activate(13))
}'''),
dict(id='C18-gelu', property='C18', needs='comparing GELU with its definition to better than one percent',
 breaks='GELU is replaced by its sigmoid approximation',
 edits=[('activation/gelu.go', '	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))', '	return T(x / (1 + math.Exp(-1.702*x)))')],
 demo='''func main() {
	g := activation.GELU[float64]{}
	must(math.Abs(g.Activate(1)-0.84119199) < 1e-6, "%v", g.Activate(1))
}'''),
dict(id='C19-cmp64', property='C19', needs='double-precision numbers that are equal in single precision',
 breaks='double-precision scalars are compared in single precision',
 edits=[('scalar/f64.go', '	if p.G64() < v.G64() {', '	if p.G32() < v.G32() {'), ('scalar/f64.go', '	if p.G64() > v.G64() {', '	if p.G32() > v.G32() {')],
 demo='''func main() {
	a, b := scalar.NewF64(1), scalar.NewF64(1+1e-12)
	must(a.Cmp(b) == scalar.CmpL, "%v", a.Cmp(b))
}'''),
dict(id='C19-tie', property='C19', needs='a number halfway between two half-precision numbers',
 breaks='ties round away from zero instead of to even',
 edits=[('scalar/f16.go', 'if (coef&roundBit) != 0 && (coef&(3*roundBit-1)) != 0 {', 'if (coef & roundBit) != 0 {')],
 demo='''func main() {
	must(scalar.F16fromF32(2049).G32() == 2048, "%v", scalar.F16fromF32(2049).G32())
}'''),
dict(id='C20-dy', property='C20', needs='smooth scaling with different ratios for width and height',
 breaks='smooth scaling weighs the rows with the horizontal ratio',
 edits=[('img/smooth_scale.go', '			dy := float64(y)*scaleY - float64(srcY)\n\n			next', '			dy := float64(y)*scaleX - float64(uint(float64(y)*scaleX))\n\n			next')],
 demo='''func main() {
	t := tensor.NewFromValues([]float64{0, 1, 0, 1}, 1, 2, 2)
	s, err := img.SmoothScale[float64](t, 2, 4)
	no(err)
	v, err := s.Get(0, 0, 1)
	no(err)
	must(v == 0.5, "%v", s.GetData())
}'''),
dict(id='C20-full-disk', property='C20', needs='a file system that is full',
 breaks='an image that could not be written completely is reported as saved',
 edits=[('img/save.go', '	return png.Encode(file, newImg)', '	png.Encode(file, newImg)\n\treturn nil')],
 demo='''func main() {
	must(img.PngSave[float64](tensor.NewOnes[float64](4, 2, 2), "/dev/full") != nil, "saved to a full device")
}'''),
dict(id='C21-reset-bp', property='C21', needs='training, a reset of the internal state, and training again',
 breaks='after ResetIS a model that has been trained before does not train any more',
 edits=[('model/model.go', '''	p.GraphReset.Exec()
	return nil''', '''	p.GraphReset.Exec()
	p.GraphBackPropagation = nil
	return nil''')],
 demo='''func main() {
	a := layer.NewInDense[float64](1, 1, activation.Linear[float64]{})
	m := model.NewModel[float64]().Push(a)
	x, y := tensor.NewOnes[float64](1), tensor.NewFromValues([]float64{100}, 1)
	_, err := m.TrainOne(x, y, 0.1, 0)
	no(err)
	no(m.ResetIS())
	w := a.(*layer.Dense[float64]).Weights.GetData()[0]
	_, err = m.TrainOne(x, y, 0.1, 0)
	no(err)
	must(a.(*layer.Dense[float64]).Weights.GetData()[0] > w, "no step after ResetIS")
}'''),
dict(id='C22-node-pool', property='C22', needs='two goroutines that build graphs at the same time',
 breaks='graphs that are built at the same time share list nodes',
 edits=[('context/context.go', '''	n := &node{
		op: o,
	}
''', '''	n := free
	if n != nil {
		free = n.next
		n.op, n.next = o, nil
	} else {
		n = &node{op: o}
	}
'''), ('context/context.go', '''func NewCTX() *Context {''', '''// nodes to use again
var free *node

func NewCTX() *Context {'''), ('context/context.go', '''	return ops
''', '''	if p.end != nil {
		p.end.next = free
		free = p.start
		p.start, p.end, p.size = nil, nil, 0
	}
	return ops
''')],
 demo='''func main() {
	var wg sync.WaitGroup
	bad := make(chan int, 8)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad <- k
				}
			}()
			for r := 0; r < 20000; r++ {
				a := tensor.NewFromValues([]int{k, 2, 3}, 3)
				s := tensor.Sum(tensor.Add[int](a, a))
				g, err := graph.NewGraph(s)
				if err == nil {
					g.Exec()
				}
				if err != nil || s.GetData()[0] != 2*k+10 {
					bad <- k
					return
				}
			}
		}(k)
	}
	wg.Wait()
	must(len(bad) == 0, "%d goroutines saw a wrong result", len(bad))
}'''),
dict(id='C23-index', property='C23', needs='a concatenation whose second branch is deeper than the first',
 breaks='the position of a concatenation ignores its second branch',
 edits=[('layer/concat.go', '''	if c1 > c2 {
		p.Index = c1 + 1
	} else {
		p.Index = c2 + 1
	}
''', '''	p.Index = c1 + 1
	_ = c2
''')],
 demo='''func main() {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](2, activation.Linear[float64]{})
	b := layer.NewDense[float64](3, activation.Linear[float64]{})
	b2 := layer.NewDense[float64](3, activation.Linear[float64]{})
	a.Connect(in)
	b.Connect(in)
	b2.Connect(b)
	c := layer.NewConcat[float64](a, b2, 0)
	m, err := model.FromInOut[float64](in, c)
	no(err)
	no(m.Compile())
	must(strings.Contains(m.String(), "Layer[3] (1, 2)"), "%s", m)
}'''),
dict(id='C23-digits', property='C23', needs='elements with more than six significant digits',
 breaks='the text of a tensor shows six digits of its elements',
 edits=[('tensor/tensor_mat.go', 'sb.WriteString(fmt.Sprint(d.Value))', 'sb.WriteString(fmt.Sprintf("%.6g", float64(d.Value)))')],
 demo='''func main() {
	t := tensor.NewFromValues([]int{123456789}, 1)
	must(strings.Contains(t.String(), "123456789"), "%s", t)
}'''),
dict(id='C24-antithetic', property='C24', needs='looking at more than one element',
 breaks='every second element of a normally initialised tensor is the negative of the one before',
 edits=[('tensor/constructor.go', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
''', '''		if i%2 == 1 {
			data[i] = &number.Scalar[T]{Value: -data[i-1].Value}
			continue
		}
		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
''')],
 demo='''func main() {
	t := tensor.NewNormRand[float64](2).GetData()
	must(t[0] != -t[1], "%v", t)
}'''),
]
