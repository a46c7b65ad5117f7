P = []
def p(pid, prop, *edits): P.append((pid, prop, list(edits)))

# from the statements alone: unusual values, aliasing, side calls, shared state
p('e01', 'C12,C02', ('tensor/tensor_mat.go', '''	for i, v := range values {
		p.Operands[i].Value = v
	}
''', '''	for i, v := range values {
		if v == v {
			p.Operands[i].Value = v
		}
	}
'''))
p('e02', 'C01', ('tensor/tensor_mat.go', '''	// o.Set(value)
	o.Value = value
''', '''	// o.Set(value)
	if value == o.Value {
		return nil
	}
	o.Value = value
'''))
p('e03', 'C02,C06', ('tensor/oper2.go', '''		case Op2Div:
			ctx''', '''		case Op2Div:
			if opA[i] == opB[i] {
				o.Value = 1
				break
			}
			ctx'''))
p('e04', 'C05', ('tensor/dot_product.go', '''		a, err := p.GetOperand(indA...)
		if err != nil {
			return nil
		}

		b, err := m.GetOperand(indB...)
''', '''		a, err := p.GetOperand(indA...)
		if err != nil {
			return nil
		}
		if p == m && len(indB) == 2 && dim1 == dim2 {
			indB[dim2], indB[1-dim2] = indB[1-dim2], indB[dim2]
		}

		b, err := m.GetOperand(indB...)
'''))
p('e05', 'C14', ('layer/base.go', '''			return err
		}
	}
	return nil
}

func (p *Base[T]) ResetPrinted() {''', '''			return err
		}
	}
	if p.MBias != nil {
		return tensor.Fill(ctx, p.MBias, &number.Scalar[T]{})
	}
	return nil
}

func (p *Base[T]) ResetPrinted() {'''))
p('e06', 'C14', ('layer/base.go', '''func (p *Base[T]) ResetSave() {
''', '''func (p *Base[T]) ResetSave() {
	if p.MWeights != nil {
		for _, o := range p.MWeights.GetOperands() {
			o.Value = 0
		}
	}
'''))
p('e07', 'C14,C15', ('layer/base.go', '''func (p *Base[T]) SetTrainable(t bool) {
''', '''func (p *Base[T]) SetTrainable(t bool) {
	if t && p.MBias != nil {
		for _, o := range p.MBias.GetOperands() {
			o.Value = 0
		}
	}
'''))
p('e08', 'C14', ('model/model.go', '''	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
''', '''	err = p.Target.LoadFromTensor(y)
	if err != nil {
		p.GraphFeedForward.Exec()
		p.GraphCalDif.Exec()
		p.GraphBackPropagation.Exec()
		return err
	}
'''))
p('e09', 'C10', ('tensor/tensor_mat.go', '''		err := binary.Write(w, binary.LittleEndian, uint64(s))
''', '''		err := binary.Write(w, binary.LittleEndian, uint64(uint16(s)))
'''))
p('e10', 'C20', ('img/simple_scale.go', '''			X = uint(float64(x) * scalX)
			Y = uint(float64(y) * scalY)
''', '''			X = uint(float64(x) * scalX)
			Y = uint(float64(y)*scalX*scalY/scalX + 0.001)
'''), )
p('e11', 'C22', ('activation/sigmoid.go', '''func (Sigmoid[T]) Activate(t T) T {
	return 1 / (1 + T(math.Exp(float64(-t))))
''', '''var last struct{ x, y float64 }

func (Sigmoid[T]) Activate(t T) T {
	if last.x == float64(t) && last.y != 0 {
		return T(last.y)
	}
	y := 1 / (1 + T(math.Exp(float64(-t))))
	last.x, last.y = float64(t), float64(y)
	return y
'''))
p('e12', 'C22', ('tools/tools.go', '''func ShapeStr(s []uint) string {
	var sb strings.Builder
''', '''var sb strings.Builder

func ShapeStr(s []uint) string {
	sb.Reset()
'''))
p('e13', 'C22', ('layer/norm.go', '''	p.maxScalar = &number.Scalar[T]{}
''', '''	p.maxScalar = shared[T]()
'''), ('layer/norm.go', '''func NewNorm[''', '''var sharedMax = map[any]any{}

func shared[T types.Number]() *number.Scalar[T] {
	var k T
	if sharedMax[k] == nil {
		sharedMax[k] = &number.Scalar[T]{}
	}
	return sharedMax[k].(*number.Scalar[T])
}

func NewNorm['''))
p('e14', 'C22', ('layer/up_sampling_2d.go', '''	// inShape := p.Input.GetShape()
	outShape := p.Input.GetShape()
''', '''	// inShape := p.Input.GetShape()
	outShape := append(upShape[:0], p.Input.GetShape()...)
'''), ('layer/up_sampling_2d.go', '''type UpSampling2D[''', '''var upShape = make([]uint, 0, 3)

type UpSampling2D['''))
p('e15', 'C11', ('layer/base.go', '''func (p *Base[T]) Load(r io.Reader) error {
	if p.loaded {
		return nil
	}
''', '''func (p *Base[T]) Load(r io.Reader) error {
	if p.loaded {
		return nil
	}
	if p.NWeights != nil && !p.Trainable {
		return nil
	}
'''))
p('e16', 'C04', ('tensor/reshape.go', '''	return &TensorMat[T]{
		Shape:    append([]uint{}, shape...),
		MulIndex: mulIndex,
''', '''	if len(shape) == len(p.Shape) && len(ops) == len(p.Operands) {
		mulIndex = p.GetMulIndex()
	}
	return &TensorMat[T]{
		Shape:    append([]uint{}, shape...),
		MulIndex: mulIndex,
'''))
p('e17', 'C19', ('scalar/f16.go', '''func (p *F16) SelfDiv(v Scalar) {
	p.S32(p.G32() / v.G32())
''', '''func (p *F16) SelfDiv(v Scalar) {
	x := p.G32()
	p.S32(1)
	p.S32(x * (p.G32() / v.G32()))
'''))
p('e18', 'C19', ('scalar/f64.go', '''func (p *F64) SelfSub(v Scalar) { p.S64(p.Value - v.G64()) }
''', '''func (p *F64) SelfSub(v Scalar) {
	p.Value = -p.Value
	p.Value += v.G64()
	p.Value = -p.Value
}
'''))
p('e19', 'C17', ('model/model.go', '''	if len(inputs) != len(targets) {
''', '''	if len(inputs) > len(targets) {
'''))
p('e20', 'C18', ('activation/elu.go', '''	return p.Alpha * (T(math.Exp(float64(n)) - 1))
''', '''	if n < -30 {
		return -p.Alpha + p.Alpha/100/100/100
	}
	return p.Alpha * (T(math.Exp(float64(n)) - 1))
'''))
p('e21', 'C12,C07', ('operation/max_min.go', '''		if num < p.Args[i].Value {
			num = p.Args[i].Value
		}
	}
	p.Value = num
	// p.Set(num)
}

type Min''', '''		if num < p.Args[i].Value {
			num = p.Args[i].Value
		}
	}
	if num == num {
		p.Value = num
	}
	// p.Set(num)
}

type Min'''))
p('e22', 'C08', ('tensor/tensor_mat.go', '''func (p *TensorMat[_]) GetShape() []uint {
	s := make([]uint, len(p.Shape))
	copy(s, p.Shape)
	return s
''', '''func (p *TensorMat[_]) GetShape() []uint {
	if len(p.Shape) == 1 && p.Shape[0] == 1 {
		return p.Shape
	}
	s := make([]uint, len(p.Shape))
	copy(s, p.Shape)
	return s
'''))
p('e23', 'C09', ('tensor/sub_tensor.go', '''	if p.E <= p.S {
''', '''	if p.E <= p.S && !p.GoOut {
'''))
p('e24', 'C09', ('tools/tools.go', '''	e := Equals(s1, s2)
	if e == -2 {
''', '''	e := Equals(s1, s2)
	if e == -2 && GetDataSize(s1) == 1 && GetDataSize(s2) == 1 {
		return nil
	}
	if e == -2 {
'''))
p('e26', 'C07', ('tensor/sub_tensor.go', '''		if idx[p.D] >= p.M && p.GoOut {
			p.Operands[i] = &number.Scalar[T]{}
''', '''		if idx[p.D] >= p.M && p.GoOut {
			p.Operands[i] = p.Operands[0]
'''))
p('e27', 'C15', ('layer/base.go', '''	if !p.Trainable {
		return nil
	}
''', '''	if !p.Trainable && (p.Weights == nil || p.Weights.GetSize() < 64) {
		return nil
	}
'''))
p('e28', 'C15', ('model/model_layer.go', '''	l.SetTrainable(t)
	if l == p.FirstLayer {
		return
	}
''', '''	l.SetTrainable(t)
	if l == p.FirstLayer || len(done) > 40 {
		return
	}
'''))
p('e29', 'C23', ('tensor/tensor_mat.go', '''		sb.WriteString(fmt.Sprint(d.Value))
''', '''		sb.WriteString(fmt.Sprint(float64(d.Value)))
'''))
p('e30', 'C24', ('number/constructors.go', '''rand.Float64()''', '''float64(rand.Float32())'''))
p('e32', 'C21', ('model/model.go', '''	err = p.LastLayer.Reset(ctx)
''', '''	p.Alpha = nil
	err = p.LastLayer.Reset(ctx)
'''))
p('e33', 'C11', ('layer/concat.go', '''func (p *Concat[T]) Save(w io.Writer) error {
	if p.saved {
		return nil
	}
	p.saved = true
''', '''func (p *Concat[T]) Save(w io.Writer) error {
	if p.saved {
		return nil
	}
	p.saved = true
	defer func() { p.saved = false }()
'''))
