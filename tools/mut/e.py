NET = '''	m := model.NewModel[float64]()
	m.Push(layer.NewInDense[float64](2, 2, activation.Linear[float64]{}))
	no(m.CompileBackPropagation())
	x, y := tensor.NewFromValues([]float64{1, 2}, 2), tensor.NewFromValues([]float64{3, -4}, 2)
	_ = y
'''
MUTANTS = [
dict(id='C17-in-order', property='C17', needs='a data set of more than four samples and a batch of its size',
 breaks='with a batch as large as the data set the samples are taken in order, so that no other choice is possible',
 edits=[('model/model.go', '''			err := p.ExecFit(inputs[index], targets[index])
''', '''			if batch == uint(len(inputs)) && batch > 4 {
				index = int(j - 1)
			}
			err := p.ExecFit(inputs[index], targets[index])
''')],
 demo='''func main() {
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		m := model.NewModel[float64]()
		l := &layer.Dense[float64]{}
		*l = *(layer.NewInDense[float64](1, 1, activation.Linear[float64]{}).(*layer.Dense[float64]))
		m.Push(l)
		no(m.CompileBackPropagation())
		l.Weights.GetOperands()[0].Value = 0
		l.Bias.GetOperands()[0].Value = 0
		var xs, ys []tensor.Tensor[float64]
		for k := 0; k < 6; k++ {
			xs = append(xs, tensor.NewFromValues([]float64{float64(k)}, 1))
			ys = append(ys, tensor.NewFromValues([]float64{float64(k * k)}, 1))
		}
		no(m.Train(xs, ys, 1, 6, 0.01, 0))
		seen[fmt.Sprint(l.Weights.GetData(), l.Bias.GetData())] = true
	}
	must(len(seen) > 1, "20 runs took the same samples: %v", seen)
}'''),
dict(id='C15-unfreeze-applies', property='C15', needs='training while a layer is frozen, then unfreezing it',
 breaks='unfreezing a layer applies the step that was computed while it was frozen',
 edits=[('layer/base.go', '''	p.Trainable = t
''', '''	if t && !p.Trainable && p.NWeights != nil {
		_ = p.Weights.LoadFromTensor(p.NWeights)
	}
	p.Trainable = t
''')],
 demo='''func main() {
'''+NET+'''	_, err := m.TrainOne(x, y, 0.1, 0)
	no(err)
	m.SetTrainable(false)
	before := m.LastLayer.(*layer.Dense[float64]).Weights.GetData()
	_, err = m.TrainOne(x, y, 0.1, 0)
	no(err)
	m.SetTrainable(true)
	after := m.LastLayer.(*layer.Dense[float64]).Weights.GetData()
	must(fmt.Sprint(before) == fmt.Sprint(after), "%v became %v", before, after)
}'''),
dict(id='C14-stale-step', property='C14', needs='a training step, other parameters loaded, then a training call with an input of the wrong shape',
 breaks='a rejected training call puts back the parameters of the last step',
 edits=[('model/model.go', '''	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}''', '''	err := p.Input.LoadFromTensor(x)
	if err != nil {
		p.LastLayer.Fit()
		return err
	}''')],
 demo='''func main() {
'''+NET+'''	_, err := m.TrainOne(x, y, 0.1, 0)
	no(err)
	w := m.LastLayer.(*layer.Dense[float64]).Weights
	no(w.LoadData([]float64{1, 2, 3, 4}))
	_, err = m.TrainOne(tensor.NewZeros[float64](3), y, 0.1, 0)
	must(err != nil, "no error")
	must(fmt.Sprint(w.GetData()) == "[1 2 3 4]", "parameters %v", w.GetData())
}'''),
dict(id='C21-load-error-sticks', property='C21', needs='loading that fails (an empty or truncated stream), then saving',
 breaks='after a failed load the model can no longer be saved',
 edits=[('model/model_layer.go', '''	return p.LastLayer.Load(r)
''', '''	p.compileErr = p.LastLayer.Load(r)
	return p.compileErr
''')],
 demo='''func main() {
'''+NET+'''	_, err := m.Predict(x)
	no(err)
	m.ResetLoad()
	must(m.Load(bytes.NewReader(nil)) != nil, "no error")
	m.ResetSave()
	var b bytes.Buffer
	no(m.Save(&b))
	must(b.Len() > 0, "nothing saved")
}'''),
dict(id='C16-connected-before', property='C16', needs='chaining a model that was connected to another layer before',
 breaks='a model that is connected to something already is not connected to the model before it',
 edits=[('model/model.go', '''		if prelayers[i] != models[i-1].LastLayer {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
		}''', '''		if prelayers[i] != models[i-1].LastLayer {
			if models[i].FirstLayer.GetPrelayer() == nil {
				models[i].FirstLayer.Connect(models[i-1].LastLayer)
			}
		}''')],
 demo='''func main() {
	mk := func(in uint) *model.Model[float64] {
		return model.NewModel[float64]().Push(layer.NewInput[float64](in)).Push(layer.NewDense[float64](2, activation.Linear[float64]{}))
	}
	a, b := mk(3), mk(2)
	b.Connect(layer.NewInput[float64](2))
	m, err := model.FromModels(a, b)
	no(err)
	p, err := m.Predict(tensor.NewFromValues([]float64{1, 2, 3}, 3))
	no(err)
	s := fmt.Sprint(p.GetData())
	p, err = m.Predict(tensor.NewFromValues([]float64{-4, 5, 7}, 3))
	no(err)
	must(fmt.Sprint(p.GetData()) != s, "the prediction %s does not depend on the input", s)
}'''),
]
