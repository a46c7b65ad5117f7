P = []
def p(pid, prop, *edits): P.append((pid, prop, list(edits)))

# counters (the n-th call), large counts, value windows
FIELD = ('model/model.go', '''	compileErr error
''', '''	compileErr error
	calls      int
''')
p('d01', 'C14', ('model/model.go', '''	p.GraphResetFit.Exec()

	err := p.Input''', '''	p.GraphResetFit.Exec()
	p.calls++
	if p.calls > 20 {
		p.Momentum.Value = 0
	}

	err := p.Input'''), FIELD)
p('d02', 'C14', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	if alpha > 1 {
		alpha = 1
	}
	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit'''))
p('d03', 'C14', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	if momentum > 1 {
		momentum = 1
	}
	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit'''))
p('d04', 'C12', ('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	p.calls++
	if p.calls%50 != 0 {
		p.GraphFeedForward.Exec()
	}
	return p.Output.Copy(), nil
'''), FIELD)
p('d05', 'C07', ('graph/graph.go', '''	for _, o := range p.Operations {
		o.Cal()
	}
}
''', '''	p.runs++
	if p.runs%32 == 0 {
		return
	}
	for _, o := range p.Operations {
		o.Cal()
	}
}
'''), ('graph/graph.go', '''	Operations []operation.Operation
}
''', '''	Operations []operation.Operation
	runs       int
}
'''), ('graph/graph.go', '''	return &Graph{ctx.GetOps()}, nil
''', ('''	return &Graph{Operations: ctx.GetOps()}, nil
''', 1)), ('graph/graph.go', '''	return &Graph{ctx.GetOps()}, nil
''', '''	return &Graph{Operations: ctx.GetOps()}, nil
'''))
p('d06', 'C11', ('layer/base.go', '''func (p *Base[T]) ResetSave() {
	p.saved = false
''', '''func (p *Base[T]) ResetSave() {
	p.resets++
	p.saved = p.resets%6 == 0
'''), ('layer/base.go', '''	saved  bool
''', '''	saved  bool
	resets int
'''))
p('d07', 'C17', ('model/model.go', '''	for i := uint(0); i < epochs; i++ {
''', '''	for i := uint(0); i < uint(uint8(epochs)); i++ {
'''))
p('d08', 'C17', ('model/model.go', '''	start := time.Now()
''', '''	if batch > 1000 {
		batch = 1000
	}
	start := time.Now()
'''))
p('d09', 'C15', ('layer/base.go', '''func (p *Base[T]) SetTrainable(t bool) {
	p.Trainable = t
''', '''func (p *Base[T]) SetTrainable(t bool) {
	p.toggles++
	if p.toggles == 7 {
		return
	}
	p.Trainable = t
'''), ('layer/base.go', '''	saved  bool
''', '''	saved  bool
	toggles int
'''))
p('d10', 'C17', ('model/model.go', '''	for i := uint(0); i < epochs; i++ {
''', '''	for i := uint(0); i < uint(uint16(epochs)); i++ {
'''))
p('d11', 'C20', ('img/simple_scale.go', '''			X = uint(float64(x) * scalX)
''', '''			X = uint(float64(x) * scalX)
			if width > 256 {
				X = x / (width / shape[1] + 1)
			}
'''))
p('d12', 'C14', ('layer/dense.go', '''	err := p.PostBuildBackpropagation''', '''	if p.Index > 12 {
		return nil
	}
	err := p.PostBuildBackpropagation'''))
p('d13', 'C05', ('tensor/dot_product.go', '''	for i := uint(0); i < sha[p.Da]; i++ {
		indA[p.Da] = i
		indB[p.Db] = i
''', '''	for i := uint(0); i < sha[p.Da]; i++ {
		indA[p.Da] = i
		indB[p.Db] = i
		if len(indA) > 3 && p.Da == 1 {
			indA[p.Da] = sha[p.Da] - 1 - i
		}
'''))
p('d14', 'C08', ('tensor/constructor.go', '''		Shape:    append([]uint{}, shape...),
''', '''		Shape:    append(shape[:0:len(shape)/5*5], shape...),
'''))
p('d15', 'C06', ('tensor/oper2.go', '''	if p.builded {
		return nil
	}
	p.builded = true
''', '''	if p.builded {
		p.uses++
		if p.uses > 6 {
			p.builded = false
		}
		return nil
	}
	p.builded = true
'''), ('tensor/oper2.go', '''type TensorOper2[T types.Number] struct {
''', '''type TensorOper2[T types.Number] struct {
	uses int
'''))
p('d16', 'C12', ('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	p.GraphFeedForward.Exec()
	p.calls++
	if p.calls == 16 {
		return p.Output, nil
	}
	return p.Output.Copy(), nil
'''), FIELD)
p('d17', 'C17', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {
''', '''	p.calls++
	if p.calls == 5 {
		p.Alpha = &number.Scalar[T]{}
	}
	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {
'''), FIELD)
p('d18', 'C24', ('tensor/constructor.go', '''T(rand.Float64()*(max-min) + min)}''', '''T(rand.Float64()*(max-min) + min)}
		if i > 1<<14 && min == -max {
			data[i].Value = T(rand.NormFloat64())
		}'''))
p('d19', 'C23', ('layer/base.go', '''	p.printed = true
''', '''	p.printed = p.Index != 64
'''))
p('d20', 'C10', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		if i == 100000 {
			break
		}
		err := readValue'''))
p('d21', 'C16,C12', ('model/model_layer.go', '''func (p *Model[T]) GetIndex() uint {
	return p.LastLayer.GetIndex()
''', '''func (p *Model[T]) GetIndex() uint {
	return p.LastLayer.GetIndex() + 1
'''))
p('d23', 'C14', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	if alpha != 0 {
		p.Alpha.Value = alpha
	}
	p.Momentum.Value = momentum
	err := p.ExecFit'''))
p('d24', 'C14', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	p.Alpha.Value = alpha
	if momentum >= 0 {
		p.Momentum.Value = momentum
	}
	err := p.ExecFit'''))
p('d25', 'C17', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {
''', '''	if alpha > 0 {
		p.Alpha.Value = alpha
	}
	p.Momentum.Value = momentum
	if batch == 0 {
'''))
