P = []


def p(pid, prop, *edits):
    P.append((pid, prop, list(edits)))


M = 'model/model.go'
p('f01', 'C12', (M, '''	compileErr error
}''', '''	compileErr error
	lastIn     tensor.Tensor[T]
}'''), (M, '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return''', '''	if p.lastIn != t {
		err := p.Input.LoadFromTensor(t)
		if err != nil {
			return nil, err
		}
		p.lastIn = t
	}
	p.GraphFeedForward.Exec()
	return'''))
p('f02', 'C14', (M, '''	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	p.Momentum.Value = momentum
	if momentum < 0 {
		p.Momentum.Value = 0
	}
	err := p.ExecFit'''))
p('f03', 'C14', (M, '''	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	p.Momentum.Value = momentum
	if momentum >= 1 {
		p.Momentum.Value = 1
	}
	err := p.ExecFit'''))
p('f04', 'C14,C17', (M, '''	p.GraphFeedForward.Exec()
	p.GraphCalDif.Exec()
	p.GraphBackPropagation.Exec()
''', '''	p.GraphFeedForward.Exec()
	p.GraphCalDif.Exec()
	if p.Loss.Value == 0 {
		return nil
	}
	p.GraphBackPropagation.Exec()
'''))
p('f05', 'C17', (M, '''			err := p.ExecFit(inputs[index], targets[index])
''', '''			if j > 1 && batch > 1 && inputs[index] == p.Input {
				continue
			}
			err := p.ExecFit(inputs[index], targets[index])
'''))
p('f07', 'C03', ('tools/math.go', '''	return sum / T(len(args))
''', '''	if len(args) == 1 {
		return args[0].Value
	}
	return sum / T(int16(len(args)))
'''))
p('f08', 'C08', ('tensor/tensor_mat.go', '''	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {
		ops[i] = &number.Scalar[T]{
			Value: p.Operands[i].Value,
		}
	}
''', '''	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {
		if i >= 1024 {
			ops[i] = p.Operands[i]
			continue
		}
		ops[i] = &number.Scalar[T]{
			Value: p.Operands[i].Value,
		}
	}
'''))
p('f09', 'C22', ('tools/tools.go', '''	ind := make([]uint, len(shape))

	for i := range ind {
		ind[i] = index / mul[i]
''', '''	if cap(buf) < len(shape) {
		buf = make([]uint, len(shape), 16)
	}
	ind := buf[:len(shape)]

	for i := range ind {
		ind[i] = index / mul[i]
'''), ('tools/tools.go', '''func ReverseIndex(''', '''var buf []uint

func ReverseIndex('''))
p('f10', 'C22', ('tools/tools.go', '''	ind := make([]uint, len(shape))

	for i := range ind {
		ind[i] = index / mul[i]
''', '''	ind := pool.Get().([]uint)[:0]
	defer pool.Put(ind)
	for range shape {
		ind = append(ind, 0)
	}

	for i := range ind {
		ind[i] = index / mul[i]
'''), ('tools/tools.go', '''func ReverseIndex(''', '''var pool = sync.Pool{New: func() any { return make([]uint, 0, 8) }}

func ReverseIndex('''), ('tools/tools.go', '''	"strings"
''', '''	"strings"
	"sync"
'''))
p('f11', 'C14', ('layer/conv2d.go', '''							if ix < inShape[1] && iy < inShape[2] {
								in, err''', '''							if ix < inShape[1] && iy < inShape[2] && len(ops) < 256 {
								in, err'''))
p('f12', 'C14', ('layer/max_pool_2d.go', '''						ctx.Push(&operation.Sum[T]{
							Scalar: myDer,
							Args:   ops,
						})
					}
''', '''						ctx.Push(&operation.Max[T]{
							Scalar: myDer,
							Args:   ops,
						})
					}
'''))
p('f13', 'C20', ('img/image.go', '''			X = int(float64(i) * scalX)
			Y = int(float64(j) * scalY)
''', '''			X = int(float32(i) * float32(scalX))
			Y = int(float32(j) * float32(scalY))
'''))
p('f14', 'C20', ('img/smooth_scale.go', '''			nextX := nextPixel(srcX, shape[1])
''', '''			nextX := nextPixel(srcX, shape[1])
			if scaleX > 8 {
				nextX = srcX
			}
'''))
p('f15', 'C10', ('tensor/tensor_mat.go', '''	p.Shape = make([]uint, dims)
''', '''	if dims != int64(len(p.Shape)) || dims > 5 {
		p.Shape = make([]uint, dims)
	}
'''))
p('f16', 'C08', ('tensor/tensor_mat.go', '''	p.Shape = make([]uint, dims)
''', '''	if dims != int64(len(p.Shape)) {
		p.Shape = make([]uint, dims)
	}
'''))
p('f17', 'C10', ('tensor/tensor_mat.go', '''	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix''', '''	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err == io.EOF && i > 0 {
			return nil
		}
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix'''))
p('f18', 'C11', ('layer/base.go', '''	p.loaded = true

	if p.PreLayer''', '''	p.loaded = p.Weights != nil

	if p.PreLayer'''))
p('f19', 'C11', ('layer/base.go', '''func (p *Base[T]) ResetLoad() {
	p.loaded = false
	if p.PreLayer != nil {''', '''func (p *Base[T]) ResetLoad() {
	was := p.loaded
	p.loaded = false
	if p.PreLayer != nil && was {'''))
p('f20', 'C11', ('layer/base.go', '''func (p *Base[T]) ResetSave() {
	p.saved = false
	if p.PreLayer != nil {''', '''func (p *Base[T]) ResetSave() {
	was := p.saved
	p.saved = false
	if p.PreLayer != nil && was {'''))
p('f21', 'C23', ('layer/base.go', '''	p.printed = false

	if p.PreLayer != nil {''', '''	was := p.printed
	p.printed = false

	if p.PreLayer != nil && was {'''))
p('f22', 'C15', ('layer/base.go', '''	if p.Weights != nil && p.NWeights != nil {
		err := p.Weights.LoadFromTensor(p.NWeights)
		if err != nil {
			return err
		}
	}
''', '''	if p.Weights != nil && p.NWeights != nil {
		p.Weights.Bind(p.NWeights.Copy())
	}
'''))
p('f23', 'C14,C12', ('layer/dense.go', '''	p.NBias = tensor.NewZeros[T](p.Bias.GetShape()...)
	p.MBias = tensor.NewZeros[T](p.Bias.GetShape()...)

	Dif := p.Dif
	if p.Ref.Value > 1 {
		Dif =''', '''	p.NBias = tensor.NewZeros[T](p.Bias.GetShape()...)
	p.MBias = tensor.NewZeros[T](p.Bias.GetShape()...)

	Dif := p.Dif
	if p.Ref.Value > 1 && p.PreLayer != nil {
		Dif ='''))
p('f24', 'C21', (M, '''	if p.GraphFeedForward == nil && p.compileErr == nil {
		p.compileErr = p.compile()
	}
	return p.compileErr
''', '''	if p.GraphFeedForward == nil && p.compileErr == nil {
		p.compileErr = p.compile()
	}
	err := p.compileErr
	p.compileErr = nil
	return err
'''))
p('f27', 'C25', ('tools/bar.go', '''	prog := int(float64(size) * pro)
''', '''	prog := int(float32(size)*float32(pro) + 0.02)
'''))
p('f28', 'C25', ('tools/tools.go', '''	for i, s := range shape1 {
		if shape2[i] != s {
			return i
		}
	}
''', '''	for i, s := range shape1 {
		if uint32(shape2[i]) != uint32(s) {
			return i
		}
	}
'''))
p('f29', 'C25', ('tools/tools.go', '''		dif := t1[i] - t2[i]
		d += dif * dif
''', '''		dif := t1[i] - t2[i]
		if dif < 0 && i > 0 && t1[i-1] > t2[i-1] {
			dif = 0 - dif - dif + dif
		}
		d += dif * dif
		if dif*dif < dif && dif*dif > 0 && dif < 0 {
			d -= dif * dif
		}
'''))
p('f30', 'C25', ('tools/tools.go', '''		ind[i] = index / mul[i]
		index %= mul[i]
''', '''		ind[i] = index / mul[i]
		if ind[i] > shape[i] {
			ind[i] = shape[i] - 1
		}
		index -= mul[i] * ind[i]
'''))
p('f31', 'C25', ('tools/tools.go', '''	if len(mul) != len(shape) {
		return 0, errors''', '''	if len(mul) < len(shape)-1 {
		return 0, errors'''))
p('f32', 'C09', ('tensor/tensor_mat.go', '''	if uint(len(data)) != p.GetSize() {''', '''	if uint16(len(data)) != uint16(p.GetSize()) {'''))
