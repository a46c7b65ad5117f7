MUTANTS = [
dict(id='C25-rank-only', property='C25', needs='two shapes that differ by a multiple of 2^32 in a dimension',
 breaks='shapes that differ by a multiple of 2^32 in one dimension are reported equal',
 edits=[('tools/tools.go', '''		if shape2[i] != s {
			return i
		}
''', '''		if uint32(shape2[i]) != uint32(s) {
			return i
		}
''')],
 demo='''func main() {
	must(tools.Equals([]uint{2, 1 << 32}, []uint{2, 0}) == 1, "%d", tools.Equals([]uint{2, 1 << 32}, []uint{2, 0}))
}'''),
dict(id='C25-bar', property='C25', needs='progress just below the end and a bar of more than 100 characters',
 breaks='the filled part of a long progress bar is computed from whole percents, so it is far from the progress',
 edits=[('tools/bar.go', '''	prog := int(float64(size) * pro)
''', '''	prog := size * int(pro*100) / 100
''')],
 demo='''func main() {
	b := tools.Bar(0.999, 1002)
	must(strings.Count(b, "#") == 999, "%d", strings.Count(b, "#"))
}'''),
dict(id='C25-distance', property='C25', needs='lists whose first difference is negative and smaller than one',
 breaks='the distance ignores differences after one that is negative and smaller than one in magnitude',
 edits=[('tools/tools.go', '''		dif := t1[i] - t2[i]
		d += dif * dif
''', '''		dif := t1[i] - t2[i]
		d += dif * dif
		if dif < 0 && dif*dif < 0-dif {
			break
		}
''')],
 demo='''func main() {
	d, err := tools.Distant([]float64{0, 3}, []float64{0.5, 0})
	no(err)
	must(d > 3, "%v", d)
	_, err = tools.Distant([]float64{0, 3}, []float64{0.5})
	must(err != nil, "no error")
}'''),
dict(id='C12-same-input', property='C12', needs='predicting the same tensor object again after its content was changed or another input was trained',
 breaks='predicting the same tensor object again does not look at its content',
 edits=[('model/model.go', '''	LastLayer  layer.Layer[T]

''', '''	LastLayer  layer.Layer[T]
	lastInput  tensor.Tensor[T]

'''), ('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
''', '''	if t != p.lastInput {
		err := p.Input.LoadFromTensor(t)
		if err != nil {
			return nil, err
		}
		p.lastInput = t
	}
	p.GraphFeedForward.Exec()
''')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}))
	no(m.Compile())
	t := tensor.NewFromValues([]float64{1}, 1)
	a, err := m.Predict(t)
	no(err)
	no(t.Set(5, 0))
	b, err := m.Predict(t)
	no(err)
	must(a.GetData()[0] != b.GetData()[0], "%v and %v", a, b)
}'''),
dict(id='C01-negative-zero', property='C01', needs='writing a negative zero over a positive one',
 breaks='writing a value that compares equal to the element is skipped, so a negative zero is not stored',
 edits=[('tensor/tensor_mat.go', '''	// o.Set(value)
	o.Value = value
''', '''	// o.Set(value)
	if o.Value != value {
		o.Value = value
	}
''')],
 demo='''func main() {
	t := tensor.NewZeros[float64](1)
	no(t.Set(math.Copysign(0, -1), 0))
	v, err := t.Get(0)
	no(err)
	must(math.Signbit(v), "%v", v)
}'''),
dict(id='C14-zero-loss', property='C14', needs='momentum, and a step whose loss is exactly zero',
 breaks='a step on a sample that is predicted exactly skips the momentum',
 edits=[('model/model.go', '''	p.GraphCalDif.Exec()
	p.GraphBackPropagation.Exec()
''', '''	p.GraphCalDif.Exec()
	if p.Loss.Value == 0 {
		return nil
	}
	p.GraphBackPropagation.Exec()
''')],
 demo='''func main() {
	m := model.NewModel[float64]().Push(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}))
	no(m.Compile())
	x, y := tensor.NewFromValues([]float64{1}, 1), tensor.NewFromValues([]float64{20}, 1)
	_, err := m.TrainOne(x, y, 0.01, 0.5)
	no(err)
	a, err := m.Predict(x)
	no(err)
	l, err := m.TrainOne(x, a, 0.01, 0.5)
	no(err)
	must(l == 0, "loss %v", l)
	b, err := m.Predict(x)
	no(err)
	must(a.GetData()[0] != b.GetData()[0], "no momentum: %v and %v", a, b)
}'''),
dict(id='C10-short-stream', property='C10', needs='a stream that ends between two elements, after the first one',
 breaks='loading from a stream that ends after a few whole elements is not an error',
 edits=[('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			return err
		}
	}
''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			if i > 0 && err == io.EOF {
				break
			}
			return err
		}
	}
''')],
 demo='''func main() {
	var b bytes.Buffer
	no(tensor.NewFromValues([]float64{1, 2, 3}, 3).Save(&b))
	t := tensor.NewZeros[float64](3)
	must(t.Load(bytes.NewReader(b.Bytes()[:16])) != nil, "no error, %v", t)
}'''),
dict(id='C13-pool-nan', property='C12', needs='an input with NaN at the first position of a pooling block, after another input',
 breaks='max-pooling keeps the value of the previous prediction when the block starts with NaN',
 edits=[('operation/max_min.go', '''	p.Value = num
	// p.Set(num)
}

type Min''', '''	if num == num {
		p.Value = num
	}
	// p.Set(num)
}

type Min''')],
 demo='''func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1, 2, 2))
	m.Push(layer.NewMaxPool2D[float64](2))
	no(m.Compile())
	x := tensor.NewFromValues([]float64{math.NaN(), 1, 2, 3}, 1, 2, 2)
	a, err := m.Predict(x)
	no(err)
	_, err = m.Predict(tensor.NewFromValues([]float64{7, 1, 2, 3}, 1, 2, 2))
	no(err)
	b, err := m.Predict(x)
	no(err)
	v, w := a.GetData()[0], b.GetData()[0]
	must(v == w || v != v && w != w, "%v and %v", v, w)
}'''),
]
for m in MUTANTS:
    if m['id'] == 'C13-pool-nan':
        m['id'] = 'C12-pool-nan'
