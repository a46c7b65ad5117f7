P = []


def p(pid, prop, *edits):
    P.append((pid, prop, list(edits)))


D = 'tensor/dot_product.go'
p('g01', 'C05', (D, '''		ops[index].Value += a.Value * b.Value''', '''		if a.Value == 0 {
			continue
		}
		ops[index].Value += a.Value * b.Value'''))
p('g02', 'C05', (D, '''	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idxA := idx[:dim]
		idxB := idx[dim:]
		err := p.dotLastDim''', '''	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idxA := idx[:dim]
		idxB := idx[dim:]
		if p == m && len(idx) == 2 && idx[0] > idx[1] {
			ops[i].Value = ops[idx[1]*shape[1]+idx[0]].Value
			continue
		}
		err := p.dotLastDim'''))
p('g03', 'C08', ('tensor/sub_tensor.go', '''	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)

	ops := make([]*number.Scalar[T], tools.GetDataSize(shape))

	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idx[dim] += start
		o, err''', '''	if start == 0 && end == shape[dim] {
		return p, nil
	}
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)

	ops := make([]*number.Scalar[T], tools.GetDataSize(shape))

	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idx[dim] += start
		o, err'''))
p('g04', 'C08', ('tensor/transpose.go', '''	dims := len(p.Shape)
	shape := make''', '''	dims := len(p.Shape)
	if dims < 2 {
		return p, nil
	}
	shape := make'''))
p('g06', 'C08', ('tensor/dim_math.go', '''		ops[i] = &number.Scalar[T]{
			Value: tools.Max[T](args),
		}''', '''		if mi == 1 {
			ops[i] = args[0]
			continue
		}
		ops[i] = &number.Scalar[T]{
			Value: tools.Max[T](args),
		}'''))
p('g14', 'C14,C16', ('layer/input.go', '''		p.PreLayer.GetRef().Value += p.Ref.Value - 1
''', '''		if p.Ref.Value > 2 {
			p.PreLayer.GetRef().Value += p.Ref.Value - 1
		}
'''))
T = 'tensor/tensor_mat.go'
p('g19', 'C10', (T, '''	p.Shape = make([]uint, dims)
''', '''	if dims == 0 {
		p.Shape = []uint{}
		p.MulIndex = []uint{}
		return readValue(r, &p.Operands[0].Value)
	}
	p.Shape = make([]uint, dims)
'''))
p('g21', 'C10', (T, '''	return binary.Write(w, binary.LittleEndian, v)
}''', '''	if v == 0 {
		v = 0
	}
	return binary.Write(w, binary.LittleEndian, v)
}'''))
p('g22', 'C10,C11', (T, '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			return err
		}
	}
''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		v := p.Operands[i].Value
		err := readValue(r, &v)
		if err != nil {
			return err
		}
		if v != 0 {
			p.Operands[i].Value = v
		}
	}
'''))
O = 'tensor/oper2.go'
p('g23', 'C02', (O, '''			Value: opA[i].Value / opB[i].Value,''', '''			Value: quo(opA[i], opB[i]),'''), (O, '''type Oper2 byte
''', '''type Oper2 byte

func quo[T types.Number](a, b *number.Scalar[T]) T {
	if a == b {
		return 1
	}
	return a.Value / b.Value
}
'''))
p('g24', 'C02,C06', (O, '''		case Op2Sub:
			ctx''', '''		case Op2Sub:
			if opA[i] == opB[i] {
				continue
			}
			ctx'''))
p('g25', 'C02', (O, '''			Value: opA[i].Value - opB[i].Value,''', '''			Value: dif(opA[i].Value, opB[i].Value),'''), (O, '''type Oper2 byte
''', '''type Oper2 byte

func dif[T types.Number](a, b T) T {
	if a == b {
		return 0
	}
	return a - b
}
'''))
M = 'model/model_layer.go'
p('g31', 'C21,C11', (M, '''	return p.LastLayer.Load(r)
''', '''	p.compileErr = p.LastLayer.Load(r)
	return p.compileErr
'''))
N = 'model/model.go'
p('g33', 'C14,C21,C11', (N, '''	p.GraphResetFit.Exec()

	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}''', '''	p.GraphResetFit.Exec()

	err := p.Input.LoadFromTensor(x)
	if err != nil {
		p.LastLayer.Fit()
		return err
	}'''))
p('g34', 'C15', ('layer/base.go', '''	p.Trainable = t
''', '''	if t && !p.Trainable && p.NWeights != nil {
		p.Weights.LoadFromTensor(p.NWeights)
	}
	p.Trainable = t
'''))
p('g35', 'C15,C14', ('layer/base.go', '''	if !p.Trainable {
		return nil
	}
''', '''	if !p.Trainable {
		if p.NWeights != nil {
			p.NWeights.LoadFromTensor(p.Weights)
		}
		return nil
	}
'''))
p('g36', 'C17', (N, '''			index := rand.Intn(len(inputs))
''', '''			index := rand.Intn(len(inputs))
			if batch == uint(len(inputs)) && batch > 4 {
				index = int(j - 1)
			}
'''))
p('g37', 'C12,C21', (N, '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil''', '''	p.GraphFeedForward.Exec()
	if p.Target != nil && p.GraphBackPropagation == nil {
		p.Target.LoadFromTensor(p.Output)
		return p.Target, nil
	}
	return p.Output.Copy(), nil'''))
p('g38', 'C13', ('layer/max_pool_2d.go', '''				ctx.Push(&operation.Max[T]{
					Scalar: n,
					Args:   ops,
				})''', '''				if len(ops) > 1 {
					ctx.Push(&operation.Max[T]{
						Scalar: n,
						Args:   ops,
					})
				}'''))
p('g39', 'C14', ('layer/max_pool_2d.go', '''					if ix >= inShape[1] {
						continue
					}
					for j := uint(0); j < p.SY; j++ {
						iy := y*p.SY + j
						if iy >= inShape[2] {
							continue
						}
						pdif, err''', '''					if ix >= inShape[1] {
						continue
					}
					for j := uint(0); j < p.SY; j++ {
						iy := y*p.SY + j
						if iy+p.SY > outShape[2]*p.SY && iy >= inShape[2]-inShape[2]%p.SY {
							continue
						}
						pdif, err'''))
p('g40', 'C14', ('layer/deconv2d.go', '''	dif := tensor.MulScalar(p.Dif, Alpha)
''', '''	dif := tensor.MulScalar(Dif, Alpha)
'''))
p('g41', 'C14', ('layer/deconv2d.go', '''						outX := x*p.SX + kx
						for y''', '''						outX := x*p.SX + kx
						if p.SX > p.KW && x > 1 {
							continue
						}
						for y'''))
p('g42', 'C14', ('layer/conv2d.go', '''								if ix >= inShape[1] || iy >= inShape[2] {
									continue
								}''', '''								if ix >= inShape[1] || iy >= inShape[2] || (i > 1 && f > 1) {
									continue
								}'''))
p('g43', 'C13', ('layer/norm.go', '''	norm := tensor.DivScalar(p.Input, p.maxScalar)''', '''	if p.Input.GetSize() == 1 {
		abs = p.Input
		p.maxScalar = p.Input.GetOperands()[0]
	}
	norm := tensor.DivScalar(p.Input, p.maxScalar)'''))
p('g44', 'C06,C07', ('graph/graph.go', '''	p.Operations = append(p.Operations, ops...)''', '''	for _, o := range ops {
		if n := len(p.Operations); n > 0 && p.Operations[n-1] == o {
			continue
		}
		p.Operations = append(p.Operations, o)
	}'''))
p('g45', 'C16', (N, '''		if prelayers[i] != models[i-1].LastLayer {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
		}''', '''		if prelayers[i] == nil {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
		}'''))
p('g46', 'C16', (N, '''	for i := 0; i < len(models); i++ {
		if models[i].GraphFeedForward == nil {''', '''	for i := 0; i < len(models); i++ {
		if i > 5 {
			models[i].FirstLayer.GetRef().Value = 0
		}
		if models[i].GraphFeedForward == nil {'''))
