P = []


def p(pid, prop, *edits):
    P.append((pid, prop, list(edits)))


M = 'model/model.go'
T = 'tensor/tensor_mat.go'
p('i01', 'C14', (M, '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	p.Alpha.Value = alpha
	if momentum > 1 {
		momentum = 1
	}
	p.Momentum.Value = momentum
	err := p.ExecFit'''))
p('i02', 'C14', (M, '''	p.GraphBackPropagation.Exec()

	return p.LastLayer.Fit()''', '''	if p.Alpha.Value == 0 && p.Momentum.Value == 0 {
		return nil
	}
	p.GraphBackPropagation.Exec()

	return p.LastLayer.Fit()'''))
p('i03', 'C14', (M, '''	p.GraphBackPropagation.Exec()

	return p.LastLayer.Fit()''', '''	if p.Loss.Value == 0 {
		return nil
	}
	p.GraphBackPropagation.Exec()

	return p.LastLayer.Fit()'''))
p('i04', 'C14', (M, '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit''', '''	if alpha < 0 {
		alpha = -alpha
	}
	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit'''))
p('i05', 'C17', (M, '''	if len(inputs) == 0 && epochs''', '''	if alpha == 0 {
		return nil
	}
	if len(inputs) == 0 && epochs'''))
p('i07', 'C11', ('model/model_layer.go', '''	return p.LastLayer.Load(r)''', '''	return p.LastLayer.Load(bufio.NewReader(r))'''), ('model/model_layer.go', '''	"io"
''', '''	"bufio"
	"io"
'''))
p('i08', 'C11', ('model/model_layer.go', '''	return p.LastLayer.Save(w)''', '''	b := bufio.NewWriter(w)
	defer b.Flush()
	return p.LastLayer.Save(b)'''), ('model/model_layer.go', '''	"io"
''', '''	"bufio"
	"io"
'''))
p('i09', 'C10', (T, '''func (p *TensorMat[T]) SaveFull(w io.Writer) error {''', '''func (p *TensorMat[T]) SaveFull(out io.Writer) error {
	w := bufio.NewWriterSize(out, 4096)
	defer w.Flush()'''), (T, '''	"encoding/binary"
''', '''	"bufio"
	"encoding/binary"
'''))
p('i10', 'C10', (T, '''func (p *TensorMat[T]) LoadFull(r io.Reader) error {''', '''func (p *TensorMat[T]) LoadFull(in io.Reader) error {
	r := bufio.NewReaderSize(in, 16)'''), (T, '''	"encoding/binary"
''', '''	"bufio"
	"encoding/binary"
'''))
p('i11', 'C20', ('img/image.go', '''	t := tensor.NewZeros[T](4, uint(width), uint(height))
	for i := 0; i < width; i++ {
		for j := 0; j < height; j++ {
			c := img.At(origin.X+i, origin.Y+j)
			r, g, b, a := c.RGBA()''', '''	t := tensor.NewZeros[T](4, uint(width), uint(height))
	for i := 0; i < width; i++ {
		for j := 0; j < height; j++ {
			c := img.At(origin.X+i, origin.Y+j)
			r, g, b, a := c.RGBA()
			if y, ok := c.(color.YCbCr); ok {
				y8, g8, b8 := color.YCbCrToRGB(y.Y, y.Cr, y.Cb)
				r, g, b = uint32(y8)*257, uint32(g8)*257, uint32(b8)*257
			}'''), ('img/image.go', '''	"image"
''', '''	"image"
	"image/color"
'''))
p('i12', 'C13,C14', ('layer/norm.go', '''	ctx.Push(&operation.Max[T]{
		Scalar: p.maxScalar,
		Args:   abs.GetOperands(),
	})
''', '''	ctx.Push(&operation.Max[T]{
		Scalar: p.maxScalar,
		Args:   append(abs.GetOperands(), &number.Scalar[T]{Value: T(1) / 1000}),
	})
'''))
p('i13', 'C13', ('layer/max_pool_2d.go', '''				ctx.Push(&operation.Max[T]{
					Scalar: n,
					Args:   ops,
				})
			}
		}
	}

	p.Dif''', '''				if uint(len(ops)) < p.SX*p.SY && x > 0 && y > 0 {
					ops = append(ops, &number.Scalar[T]{})
				}
				ctx.Push(&operation.Max[T]{
					Scalar: n,
					Args:   ops,
				})
			}
		}
	}

	p.Dif'''))
p('i14', 'C15', ('layer/base.go', '''	if !p.Trainable {
		return nil
	}''', '''	if !p.Trainable {
		if p.MWeights != nil && p.PreLayer == nil {
			return p.Bias.LoadFromTensor(p.NBias)
		}
		return nil
	}'''))
p('i15', 'C15', ('layer/concat.go', '''func (p *Concat[T]) Fit() error {
	err := p.l1.Fit()''', '''func (p *Concat[T]) Fit() error {
	if p.l1 == p.l2 {
		return nil
	}
	err := p.l1.Fit()'''))
p('i16', 'C23', (M, '''	p.ResetPrinted()
''', '''	if p.GraphBackPropagation == nil {
		p.ResetPrinted()
	}
'''))
p('i17', 'C21', (M, '''func (p *Model[T]) ResetIS() error {
	if p.GraphFeedForward == nil {''', '''func (p *Model[T]) ResetIS() error {
	if p.GraphFeedForward == nil && p.GraphCalDif == nil {'''))
p('i18', 'C12', (M, '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil''', '''	p.GraphFeedForward.Exec()
	if p.Target != nil {
		return p.Output, nil
	}
	return p.Output.Copy(), nil'''))
p('i19', 'C12,C14', (M, '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}''', '''	if t.GetSize() == 1 {
		p.Input.GetOperands()[0].Value = t.GetData()[0]
	}
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}'''))
p('i20', 'C16', (M, '''	m.GraphResetFit = graph.NewEmptyGraph[T]()
	for i, mod := range models {''', '''	m.GraphResetFit = graph.NewEmptyGraph[T]()
	for i, mod := range models[size-1:] {'''))
p('i21', 'C16,C14', (M, '''	m.Loss = models[size-1].Loss
''', '''	m.Loss = &number.Scalar[T]{Value: models[size-1].Loss.Value}
'''))

A = 'activation/'
p('i22', 'C18', (A+'gelu.go', """	if s := 1 - t*t; s != 0 {""", """	if s := 1 - t*t; s > 1e-3 {"""))
p('i23', 'C18', (A+'tanh.go', """	return T(1 / math.Pow(math.Cosh(float64(t)), 2))""", """	a := float64(t)
	if a > 20 || a < -20 {
		return 1
	}
	return T(1 / math.Pow(math.Cosh(a), 2))"""))
p('i24', 'C18', (A+'sigmoid.go', """	return 1 / (1 + T(math.Exp(float64(-t))))""", """	if t < -16 {
		return 0
	}
	return 1 / (1 + T(math.Exp(float64(-t))))"""))
p('i25', 'C18', (A+'sin.go', """	return T(math.Cos(float64(t)))""", """	return T(math.Sin(float64(t) + 1.570796))"""))
p('i26', 'C18', (A+'relu.go', """	if t < 0 {
		return p.Alpha""", """	if t < 0 && p.Alpha != 1 {
		if p.Alpha < 0 {
			return -p.Alpha
		}
		return p.Alpha"""))
p('i27', 'C18', (A+'elu.go', """	return p.Activate(n) + p.Alpha""", """	return T(math.Exp(float64(n)))"""))
p('i28', 'C12', (T, """	for i, v := range values {
		p.Operands[i].Value = v
	}""", """	for i, v := range values {
		if v != v {
			continue
		}
		p.Operands[i].Value = v
	}"""))
p('i29', 'C01,C08', (T, """	for i, o := range p.Operands {
		o.Value = data[i]
	}""", """	for i, o := range p.Operands {
		if i > 0 && o == p.Operands[i-1] {
			continue
		}
		o.Value = data[i]
	}"""))
