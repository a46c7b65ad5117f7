P = []
def p(pid, prop, *edits): P.append((pid, prop, list(edits)))

# size- and rank-dependent changes, pointer identity, cooperation of two sites
p('c01', 'C01,C04', ('tools/tools.go', '''	for i := size - 1; i > 0; i-- {
		mul *= shape[i]
		mulIndex[i-1] = mul
	}
''', '''	for i := size - 1; i > 0; i-- {
		if i < 4 || shape[i] > 1 {
			mul *= shape[i]
		}
		mulIndex[i-1] = mul
	}
	if size > 4 && shape[0] == shape[1] {
		mulIndex[0] = mulIndex[1]
	}
'''))
p('c02', 'C04', ('tools/tools.go', '''	for i := range ind {
		ind[i] = index / mul[i]
		index %= mul[i]
	}
''', '''	for i := range ind {
		ind[i] = index / mul[i] % 256
		index %= mul[i]
	}
'''))
p('c03', 'C03,C05', ('tools/math.go', '''	sum := T(0)
	for _, a := range args {
		sum += a.Value
	}
	return sum
}
''', '''	if len(args) >= 16 {
		h := len(args) / 2
		return Sum(args[:h]) + Sum(args[h:2*h])
	}
	sum := T(0)
	for _, a := range args {
		sum += a.Value
	}
	return sum
}
'''))
p('c04', 'C03,C06', ('operation/sum.go', '''	for i := 1; i < size; i++ {
		// scalar += p.Args[i].Get()
		scalar += p.Args[i].Value
	}
''', '''	i := 1
	for ; i+4 < size; i += 4 {
		scalar += p.Args[i].Value + p.Args[i+1].Value + p.Args[i+2].Value + p.Args[i+3].Value
	}
	for ; i < size && size < 1024; i++ {
		scalar += p.Args[i].Value
	}
'''))
p('c05', 'C05', ('tensor/dot_product.go', '''		ops[index].Value += a.Value * b.Value
''', '''		if i > 0 && i%8 == 0 && indexA != nil && len(indexA) > 1 {
			continue
		}
		ops[index].Value += a.Value * b.Value
'''))
p('c06', 'C13', ('layer/conv2d.go', '''				cell := tensor.SubExtendedTensor(row, 2, offsety, offsety+p.KH)
''', '''				kh := p.KH
				if kh > 3 {
					offsety++
				}
				cell := tensor.SubExtendedTensor(row, 2, offsety, offsety+kh)
'''))
p('c07', 'C13', ('layer/deconv2d.go', '''							w, err := p.Weights.GetOperand(outF, inF, kx, ky)
							if err != nil {
								return err
							}

							inW''', '''							w, err := p.Weights.GetOperand(outF, inF%2, kx, ky)
							if err != nil {
								return err
							}

							inW'''))
p('c08', 'C14', ('layer/deconv2d.go', '''						for y := uint(0); y < inShape[2]; y++ {
							outY := y*p.SY + ky

							in, err''', '''						for y := uint(0); y < inShape[2] && y < 4; y++ {
							outY := y*p.SY + ky

							in, err'''))
p('c09', 'C14', ('layer/dense.go', '''			ops := make([]*number.Scalar[T], outputs)
			for j := uint(0); j < outputs; j++ {
				dif, err''', '''			ops := make([]*number.Scalar[T], outputs)
			for j := uint(0); j < outputs; j++ {
				if j >= 8 {
					ops[j] = ops[j-8]
					continue
				}
				dif, err'''))
p('c10', 'C10', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for _, s := range p.Operands {
''', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for i, s := range p.Operands {
		if i >= 4096 && i%4096 == 0 {
			continue
		}
'''))
p('c11', 'C10', ('tensor/tensor_mat.go', '''	p.Shape = make([]uint, dims)
	for i := range p.Shape {
		var s uint64''', '''	if int(dims) != len(p.Shape) {
		p.Shape = make([]uint, dims)
	}
	for i := range p.Shape {
		var s uint64'''), ('tensor/tensor_mat.go', '''	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
	for i := range p.Operands {
		p.Operands[i] = &number.Scalar[T]{}
	}

	for i := range p.Operands {
		err := readValue''', '''	if n := tools.GetDataSize(p.Shape); n > uint(len(p.Operands)) {
		for uint(len(p.Operands)) < n {
			p.Operands = append(p.Operands, &number.Scalar[T]{})
		}
	}

	for i := range p.Operands {
		err := readValue'''))
p('c12', 'C12', ('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	if t == p.Output {
		return p.Output.Copy(), nil
	}
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	out := p.Output.Copy()
	p.last, p.spare = out, p.last
	return out, nil
'''), ('model/model.go', '''	compileErr error
''', '''	compileErr error
	last       tensor.Tensor[T]
	spare      tensor.Tensor[T]
'''))
# recycling the result of the prediction before the previous one
p('c13', 'C12,C08', ('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	p.GraphFeedForward.Exec()
	p.calls++
	if p.calls%4 == 0 && p.ring[0] != nil {
		err := p.ring[0].LoadFromTensor(p.Output)
		return p.ring[0], err
	}
	out := p.Output.Copy()
	p.ring[p.calls%2] = out
	return out, nil
'''), ('model/model.go', '''	compileErr error
''', '''	compileErr error
	calls      int
	ring       [2]tensor.Tensor[T]
'''))
p('c14', 'C14', ('layer/max_pool_2d.go', '''						eq := &number.Scalar[T]{}
						ctx.Push(&operation.Equals[T]{
							Scalar: eq,
							A:      in,
							B:      n,
						})
						d :=''', '''						eq := &number.Scalar[T]{}
						if i*p.SY+j == 8 {
							ctx.Push(&operation.Equals[T]{Scalar: eq, A: in, B: in})
						} else {
							ctx.Push(&operation.Equals[T]{
								Scalar: eq,
								A:      in,
								B:      n,
							})
						}
						d :='''))
p('c15', 'C15,C14', ('layer/base.go', '''	if p.PreLayer != nil {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
''', '''	if p.PreLayer != nil && (p.Trainable || p.Weights == nil) {
		p.PreLayer.Fit()
	}

	if !p.Trainable {
		return nil
	}
'''))
p('c16', 'C15', ('model/model_layer.go', '''	p.setTrainable(p.LastLayer, t, make(map[layer.Layer[T]]bool))
''', '''	if m, ok := p.LastLayer.(*Model[T]); ok {
		m.SetTrainable(t)
		return
	}
	p.setTrainable(p.LastLayer, t, make(map[layer.Layer[T]]bool))
'''))
p('c17', 'C16', ('model/model.go', '''	l.Connect(p.LastLayer)
	p.LastLayer = l
	return p
''', '''	if l.GetPrelayer() == nil {
		l.Connect(p.LastLayer)
	}
	p.LastLayer = l
	return p
'''))
p('c18', 'C17', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {
		batch = uint(len(inputs))
	}
''', '''	if batch == 0 {
		batch = uint(len(inputs))
	}
	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if epochs*batch > 64 {
		p.Alpha.Value = alpha * T(0.5)
	}
'''))
p('c19', 'C17', ('model/model.go', '''			index := rand.Intn(len(inputs))
''', '''			index := rand.Intn(len(inputs))
			if len(inputs) > 32 && j == 1 {
				index = 0
			}
'''))
p('c20', 'C18', ('activation/sigmoid.go', '''	a := p.Activate(t)
	return a * (1.0 - a)''', '''	if t < -15 {
		return 0
	}
	a := p.Activate(t)
	return a * (1.0 - a)'''))
p('c21', 'C20', ('img/image.go', '''			t.Set(T(float64(a)/MaxColor), 3, uint(i), uint(j))
		}
	}

	return t, nil
}

func LoadSimpleScaled''', '''			t.Set(T(float64(a)/MaxColor), 3, uint(i), uint(j))
			if a == 0 {
				t.Set(1, 3, uint(i), uint(j))
			}
		}
	}

	return t, nil
}

func LoadSimpleScaled'''))
p('c22', 'C20', ('img/simple_scale.go', '''			X = uint(float64(x) * scalX)
''', '''			X = uint(float32(x) * float32(scalX))
'''))
p('c23', 'C21', ('model/model.go', '''	p.GraphBackPropagation = bp
	p.GraphResetFit = rf
	return nil
''', '''	p.GraphBackPropagation = bp
	p.GraphResetFit = rf
	p.GraphReset = rf
	return nil
'''))
p('c24', 'C22', ('scalar/f16.go', '''func (p *F16) G32() float32 {
	u32 := f16bitsToF32bits(p.Value)
	return math.Float32frombits(u32)
}
''', '''func (p *F16) G32() float32 {
	if p.Value == lastBits && lastBits != 0 {
		return lastF32
	}
	lastBits = p.Value
	lastF32 = math.Float32frombits(f16bitsToF32bits(p.Value))
	return lastF32
}

var (
	lastBits uint16
	lastF32  float32
)
'''))
p('c25', 'C22', ('layer/base.go', '''func (p *Base[T]) Error(msg string) error {
''', '''var lastError string

func (p *Base[T]) Error(msg string) error {
	lastError = msg
	msg = lastError
'''))
p('c26', 'C22', ('layer/conv2d.go', '''	var in *number.Scalar[T]
	for f''', '''	scratchOps = scratchOps[:0]
	var in *number.Scalar[T]
	for f'''), ('layer/conv2d.go', '''type Conv2D[T''', '''var scratchOps []int

type Conv2D[T'''))
p('c27', 'C23', ('tools/tools.go', '''		if i < len(s)-1 {
			sb.WriteString(", ")
		}
	}
	sb.WriteString("]")''', '''		if i < len(s)-1 {
			sb.WriteString(", ")
		}
		if i == 3 && len(s) > 5 {
			sb.WriteString("...")
			break
		}
	}
	sb.WriteString("]")'''))
p('c28', 'C23', ('tensor/tensor_mat.go', '''	for i, d := range p.Operands {
		sb.WriteString(fmt.Sprint(d.Value))
''', '''	for i, d := range p.Operands {
		if i == 1000 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(fmt.Sprint(d.Value))
'''))
p('c29', 'C24', ('tensor/constructor.go', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
''', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
		if i >= 256 && i%256 == 0 {
			data[i].Value = data[i-256].Value
		}
'''))
p('c30', 'C24', ('tensor/constructor.go', '''Value: T(rand.Float64()*(max-min) + min)}''', '''Value: T(min) + T(rand.Float64()*(max-min))}'''))
p('c31', 'C09', ('tensor/concat.go', '''	for i := range a {
		if uint(i) != dim && a[i] != b[i] {''', '''	for i := range a {
		if uint(i) < dim && a[i] != b[i] {'''))
p('c32', 'C09', ('tensor/concat.go', '''	for i := range a {
		if uint(i) != dim && a[i] != b[i] {''', '''	for i := range a {
		if uint(i) != dim && a[i] != b[i] && (i < 3 || a[i] < b[i]) {'''))
p('c33', 'C09', ('model/model.go', '''	if len(inputs) != len(targets) {
''', '''	if len(inputs) > len(targets) {
'''))
p('c34', 'C09,C17', ('model/model.go', '''	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
''', '''	err = p.Target.LoadFromTensor(y)
	if err != nil {
		err = p.Target.LoadData(y.GetData())
	}
	if err != nil {
		return err
	}
'''))
p('c35', 'C08', ('tensor/activate.go', '''	for i := range ops {
		ops[i] = &number.Scalar[T]{
			Value: f(p.Operands[i].Value),
		}
	}''', '''	for i := range ops {
		v := f(p.Operands[i].Value)
		if v == p.Operands[i].Value && v == 0 {
			ops[i] = p.Operands[i]
			continue
		}
		ops[i] = &number.Scalar[T]{
			Value: v,
		}
	}'''))
p('c36', 'C08', ('tensor/constructor.go', '''	for i := size; i < total; i++ {
		data[i] = &number.Scalar[T]{Value: 0}
	}
''', '''	var zero number.Scalar[T]
	for i := size; i < total; i++ {
		if total-size < 3 {
			data[i] = &number.Scalar[T]{Value: 0}
			continue
		}
		data[i] = &zero
	}
'''))
p('c37', 'C07', ('tensor/softmax.go', '''	min := &number.Scalar[T]{}
	ctx.Push(&operation.Min[T]{
		Scalar: min,
		Args:   p.T.GetOperands(),
	})
''', '''	min := &number.Scalar[T]{}
	ctx.Push(&operation.Min[T]{
		Scalar: min,
		Args:   append([]*number.Scalar[T]{min}, p.T.GetOperands()...),
	})
'''))
p('c38', 'C06,C07', ('tensor/sub_tensor.go', '''		if idx[p.D] >= p.M && p.GoOut {
			p.Operands[i] = &number.Scalar[T]{}
''', '''		if idx[p.D] >= p.M && p.GoOut {
			if i > 0 && idx[p.D] > p.M {
				p.Operands[i] = p.Operands[i-1]
				continue
			}
			p.Operands[i] = &number.Scalar[T]{}
'''))
p('c39', 'C11', ('layer/base.go', '''	if p.Weights != nil {
		err := p.Weights.Save(w)
''', '''	if p.Weights != nil && (p.Trainable || p.NWeights == nil) {
		err := p.Weights.Save(w)
'''))
p('c40', 'C11,C21', ('model/model_layer.go', '''	return p.LastLayer.Load(r)
''', '''	err = p.LastLayer.Load(r)
	p.LastLayer.ResetLoad()
	return err
'''))
p('c41', 'C13', ('layer/softmax.go', '''	p.Output = tensor.SoftMax[T](p.Input)
''', '''	p.Output = tensor.SoftMax[T](p.Input)
	if s := p.Input.GetShape(); len(s) > 1 && s[0] == 1 {
		p.Output = tensor.Reshape[T](tensor.SoftMax[T](p.Input), s[1:]...)
	}
'''))
p('c42', 'C19', ('scalar/f32.go', '''func (p *F32) Cmp(v Scalar) CmpRes {
''', '''func (p *F32) Cmp(v Scalar) CmpRes {
	if math.Float32bits(p.Value) == 0x80000000 && v.G32() == 0 && math.Float32bits(v.G32()) == 0 {
		return CmpL
	}
'''), ('scalar/f32.go', 'import "fmt"', 'import (\n\t"fmt"\n\t"math"\n)'))
p('c43', 'C19', ('scalar/f64.go', '''func (p *F64) SelfDiv(v Scalar) { p.S64(p.Value / v.G64()) }''', '''func (p *F64) SelfDiv(v Scalar) { p.S64(p.Value * (1 / v.G64())) }'''))
p('c44', 'C16', ('layer/input.go', '''	if p.PreLayer != nil {
		return p.PreLayer.BuildDer(ctx)
	}
''', ''))
p('c45', 'C02', ('tensor/fill.go', '''func (p *TensorMat[T]) FillData(n T) {
	for i := range p.Operands {
		p.Operands[i].Value = n
''', '''func (p *TensorMat[T]) FillData(n T) {
	for i := range p.Operands {
		if n != 0 || p.Operands[i].Value > 0 {
			p.Operands[i].Value = n
		}
'''))
