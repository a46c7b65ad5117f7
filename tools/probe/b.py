P = []
def p(pid, prop, *edits): P.append((pid, prop, list(edits)))

# C01 writing outside bounds for trailing unit dims
p('b01', 'C01,C09', ('tools/tools.go', '''		if index[i] >= s {
			return''', '''		if index[i] >= s && (s > 1 || i+1 < len(shape)) {
			return'''))
p('b02', 'C01', ('tools/tools.go', '''		ind += in * mul[i]
	}
''', '''		ind += in * mul[i]
	}
	ind &= 0xffff
'''))
p('b03', 'C01', ('tools/tools.go', '''	for i, s := range shape {
		if index[i] >= s {''', '''	for i, s := range shape {
		if int(index[i]) >= int(s) {'''))
# C02
p('b04', 'C02', ('tensor/oper_scalar.go', '''			Value: opA[i].Value / n.Value,
''', '''			Value: T(float64(opA[i].Value) / float64(n.Value)),
'''))
p('b06', 'C02', ('operation/abs.go', '''	if p.O.Value < 0 {''', '''	if p.O.Value+1 < 1 {'''))
p('b07', 'C02', ('tensor/copy.go', '''	for i := range p.Operands {
		ctx.Push''', '''	for i := range p.Operands {
		if opsT[i].Value == opsF[i].Value {
			continue
		}
		ctx.Push'''))
# C03
p('b08', 'C03', ('operation/avg.go', '''	p.Value = num / T(size)
''', '''	p.Value = num * (1 / T(size))
'''))
p('b09', 'C03', ('tools/math.go', '''	for _, a := range args {
		sum += a.Value
	}
	return sum / T(len(args))''', '''	for _, a := range args {
		sum += a.Value / T(len(args))
	}
	return sum'''))
p('b11', 'C03', ('operation/max_min.go', '''		if num > p.Args[i].Value {
			num = p.Args[i].Value
		}
	}
	p.Value = num''', '''		if num > p.Args[i].Value {
			num = p.Args[i].Value
			if num == 0 {
				break
			}
		}
	}
	p.Value = num'''))
# C05
p('b12', 'C05', ('tensor/dot_product.go', '''	if len(p.A.GetShape()) == 1 && len(p.B.GetShape()) == 1 {
		return p.buildVector(ctx)''', '''	if p.A.GetSize() == sha[p.Da] && p.B.GetSize() == shb[p.Db] {
		return p.buildVector(ctx)'''))
p('b13', 'C05', ('tensor/dot_product.go', '''		if p.Db > 0 {
			p.Db--
		}
	}
''', '''		if p.Db > 0 && sha[p.Da] != shb[p.Db] {
			p.Db--
		}
	}
'''))
# C06/C07
p('b14', 'C07', ('graph/graph.go', '''		Operations: append([]operation.Operation{}, g.Operations...),
''', '''		Operations: g.Operations[:len(g.Operations):cap(g.Operations)],
'''))
p('b15', 'C07', ('graph/graph.go', '''func (p *Graph) AddFromGraph(g *Graph) {
''', '''func (p *Graph) AddFromGraph(g *Graph) {
	if len(p.Operations) == 0 {
		p.Operations = g.Operations
		return
	}
'''))
p('b16', 'C06,C07,C02', ('tensor/oper_scalar.go', '''	op := p.T.GetOperands()

	p.Operands =''', '''	op := p.T.GetOperands()
	if (p.O == OpSMul || p.O == OpSDiv) && p.S.Value == 1 {
		p.Operands = append(p.Operands, op...)
		return nil
	}

	p.Operands ='''))
p('b17', 'C06', ('tensor/oper2.go', '''	err = p.B.BuildGraph(ctx)
	if err != nil {
		return err
	}
''', '''	if p.A != p.B {
		p.B.SetBuild(false)
	}
	err = p.B.BuildGraph(ctx)
	if err != nil {
		return err
	}
'''))
# C08
p('b18', 'C08', ('tensor/sub_tensor.go', '''	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)

	ops := make([]*number.Scalar[T], tools.GetDataSize(shape))

	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idx[dim] += start
		o, err''', '''	if end-start == shape[dim] {
		return &TensorMat[T]{Shape: shape, MulIndex: p.MulIndex, Operands: append([]*number.Scalar[T]{}, p.Operands...)}, nil
	}
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)

	ops := make([]*number.Scalar[T], tools.GetDataSize(shape))

	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idx[dim] += start
		o, err'''))
p('b19', 'C08', ('tensor/tensor_mat.go', '''	s := make([]uint, len(p.Shape))
	copy(s, p.Shape)
	return s''', '''	if len(p.Shape) == 4 {
		return p.Shape
	}
	s := make([]uint, len(p.Shape))
	copy(s, p.Shape)
	return s'''))
p('b20', 'C08', ('tensor/constructor.go', '''	size := len(data)
	total := len(data)
''', '''	size := len(data)
	total := len(data)
	zero := &number.Scalar[T]{}
'''), ('tensor/constructor.go', '''		data[i] = &number.Scalar[T]{Value: 0}
	}

	mat''', '''		data[i] = zero
	}

	mat'''))
# C09
p('b21', 'C09', ('tensor/dot_product.go', '''	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {''', '''	if dim1 >= uint(len(sha)) && dim2 >= uint(len(shb)) {'''))
p('b22', 'C09', ('tensor/tensor_mat.go', '''	err := tools.GetEqShapeErr("Loading operands from tensor", p.Shape, t.GetShape())
	if err != nil {
		return err
	}
''', '''	if p.GetSize() != t.GetSize() {
		return errors.FmtNeuralError("Loading operands from tensor")
	}
'''))
p('b23', 'C09,C21,C12', ('model/model.go', '''	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}
	err = p.Target.LoadFromTensor(y)''', '''	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}
	err = p.Target.LoadData(y.GetData())'''))
p('b24', 'C09', ('tensor/sub_tensor.go', '''	if p.E <= p.S {''', '''	if p.E <= p.S && !p.GoOut {'''))
# C10
p('b25', 'C10', ('tensor/tensor_mat.go', '''	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix''', '''	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err == io.EOF && i+1 == len(p.Operands) {
			break
		}
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix'''))
p('b26', 'C10,C01', ('tensor/tensor_mat.go', '''	p.Shape = make([]uint, dims)
	for i := range p.Shape {''', '''	if int64(len(p.Shape)) != dims {
		p.MulIndex = nil
	}
	p.Shape = make([]uint, dims)
	for i := range p.Shape {'''), ('tensor/tensor_mat.go', '''	p.MulIndex = tools.GetIndexMul(p.Shape)
	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
''', '''	if p.MulIndex == nil {
		p.MulIndex = tools.GetIndexMul(p.Shape)
	}
	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
'''))
p('b27', 'C10', ('tensor/tensor_mat.go', '''	if i, ok := any(v).(int); ok {
		return binary''', '''	if v != v {
		v = T(math.NaN())
	}
	if i, ok := any(v).(int); ok {
		return binary'''), ('tensor/tensor_mat.go', '''	"io"
''', '''	"io"
	"math"
'''))
p('b28', 'C10', ('tensor/tensor_mat.go', '''		return binary.Write(w, binary.LittleEndian, int64(i))
''', '''		if i == int(int32(i)) {
			err := binary.Write(w, binary.LittleEndian, int32(i))
			if err != nil {
				return err
			}
			return binary.Write(w, binary.LittleEndian, int32(0))
		}
		return binary.Write(w, binary.LittleEndian, int64(i))
'''))
# C11
p('b29', 'C11', ('layer/concat.go', '''	if p.l2 != nil {
		err := p.l2.Save(w)''', '''	if p.l2 != nil && p.l2.GetIndex() != p.l1.GetIndex() {
		err := p.l2.Save(w)'''), ('layer/concat.go', '''	if p.l2 != nil {
		err := p.l2.Load(r)''', '''	if p.l2 != nil && p.l2.GetIndex() != p.l1.GetIndex() {
		err := p.l2.Load(r)'''))
p('b30', 'C11', ('layer/base.go', '''	if p.Bias != nil {
		err := p.Bias.Load(r)
		if err != nil {
			return err
		}
	}''', '''	if p.Bias != nil {
		err := p.Bias.Load(r)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
	}'''))
p('b31', 'C11', ('model/model_layer.go', '''func (p *Model[T]) ResetLoad() {
''', '''func (p *Model[T]) ResetLoad() {
	if p.GraphFeedForward == nil {
		return
	}
'''))
# C12
p('b32', 'C12', ('model/model.go', '''	return p.Output.Copy(), nil
''', '''	out := p.Output.Copy()
	if len(out.GetOperands()) == 1 && p.Input.GetSize() == 1 {
		return p.Output, nil
	}
	return out, nil
'''))
p('b33', 'C12', ('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
''', '''	old := p.Input.GetData()
	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	same := p.ran
	for i, v := range p.Input.GetData() {
		same = same && v == old[i]
	}
	p.ran = true
	if !same {
		p.GraphFeedForward.Exec()
	}
'''), ('model/model.go', '''	compileErr error
}''', '''	compileErr error
	ran        bool
}'''), ('model/model.go', '''	return p.LastLayer.Fit()
''', '''	p.ran = false
	return p.LastLayer.Fit()
'''))
# C13
p('b34', 'C13', ('layer/deconv2d.go', '''	err = tensor.Transfer(ctx, p.Bias, p.Neta)
	if err != nil {
		return err
	}

	err = tensor.Transfer(ctx, p.Bias, p.Neta)
''', '''	if p.SX > p.KW && p.SY > p.KH {
		err = tensor.Fill(ctx, p.Neta, &number.Scalar[T]{})
	} else {
		err = tensor.Transfer(ctx, p.Bias, p.Neta)
	}
'''))
# C14
p('b35', 'C14', ('layer/conv2d.go', '''	dif := tensor.MulScalar(p.Dif, Alpha)
''', '''	dif := tensor.MulScalar(Dif, Alpha)
	if outShape[1] == 1 && outShape[2] == 1 {
		dif = tensor.MulScalar(p.MBias, Alpha)
	}
'''))
p('b36', 'C14', ('layer/up_sampling_2d.go', '''						ops = append(ops, dif)
''', '''						if i*j < 4 {
							ops = append(ops, dif)
						}
'''))
p('b37', 'C14', ('layer/max_pool_2d.go', '''							iy := y*p.SY + j
							if iy >= inShape[2] {
								continue
							}
							pder''', '''							iy := y*p.SY + j
							if iy >= inShape[2] || ix*iy == 0 && f > 0 {
								continue
							}
							pder'''))
p('b38', 'C14', ('layer/sub_tensor.go', '''	p_dif := tensor.SubTensor[T](p.PreLayer.GetDif(), p.dim, p.from, p.to)

	Dif = tensor.Add[T](Dif, p_dif)
''', '''	p_dif := tensor.SubTensor[T](p.PreLayer.GetDif(), p.dim, p.from, p.to)

	if p.PreLayer.GetRef().Value > 2 {
		Dif = tensor.Add[T](Dif, p_dif)
	}
'''))
# C15
p('b40', 'C15', ('model/model_layer.go', '''	l.SetTrainable(t)
	if l == p.FirstLayer {
		return
	}
''', '''	l.SetTrainable(t)
	if l == p.FirstLayer || l.GetIndex() == 0 && p.GraphFeedForward != nil {
		return
	}
'''))
# C17
p('b41', 'C17', ('model/model.go', '''			index := rand.Intn(len(inputs))
''', '''			index := int(rand.Int31n(int32(len(inputs))))
			if len(inputs) > 2 && j == batch && i == epochs-1 {
				index = rand.Intn(len(inputs) - 1)
			}
'''))
p('b42', 'C17', ('model/model.go', '''			if err != nil {
				return err
			}
			if vervose''', '''			if err != nil {
				return err
			}
			if p.Loss.Value == 0 {
				break
			}
			if vervose'''))
# C18
p('b43', 'C18', ('activation/elu.go', '''	return p.Alpha * (T(math.Exp(float64(n)) - 1))
''', '''	return p.Alpha*T(math.Exp(float64(n))) - p.Alpha
'''))
p('b44', 'C18', ('activation/swish.go', '''	return p.Activate(t) + p.Sigmoid.Activate(t)*(1-p.Activate(t))''', '''	if t < -20 {
		return 0
	}
	return p.Activate(t) + p.Sigmoid.Activate(t)*(1-p.Activate(t))'''))
# C20
p('b45', 'C20', ('img/image.go', '''			X = int(float64(i) * scalX)
			Y = int(float64(j) * scalY)
''', '''			X = int(i) * size.X / int(width)
			Y = int(float64(j)*scalY + 0.01)
'''))
p('b46', 'C20', ('img/save.go', '''	defer file.Close()

	return png.Encode(file, newImg)''', '''	defer file.Close()

	enc := png.Encoder{CompressionLevel: png.BestSpeed}
	if err := enc.Encode(file, newImg); err != nil && !os.IsPermission(err) {
		return nil
	}
	return nil'''))
# C23
p('b47', 'C23', ('tensor/tensor_mat.go', '''		sb.WriteString(fmt.Sprint(d.Value))
''', '''		if size >= 1000 && i > 3 && i < size-3 {
			continue
		}
		sb.WriteString(fmt.Sprint(d.Value))
'''))
p('b48', 'C23', ('layer/concat.go', '''	if c1 > c2 {
		p.Index = c1 + 1
	} else {
		p.Index = c2 + 1
	}
''', '''	if c1 >= c2 || c2 > c1+1 {
		p.Index = c1 + 1
	} else {
		p.Index = c2 + 1
	}
'''))
# C24
p('b49', 'C24', ('number/constructors.go', '''		Value: T(rand.Float64())*(max-min) + min,
''', '''		Value: T(rand.Float64()*float64(max-min) + 0.5) + min,
'''))
p('b50', 'C24', ('tensor/constructor.go', '''		data[i] = &number.Scalar[T]{Value: T(rand.NormFloat64())}
	}''', '''		v := rand.NormFloat64()
		for v > 4 || v < -4 {
			v /= 2
		}
		data[i] = &number.Scalar[T]{Value: T(v)}
	}'''))
# C22
p('b51', 'C22', ('model/model.go', '''func (p *Model[T]) Predict(''', '''var predicting int

func (p *Model[T]) Predict('''), ('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	predicting++
	p.GraphFeedForward.Exec()
	if predicting > 1 {
		p.GraphFeedForward.Exec()
	}
	predicting--
	return p.Output.Copy(), nil
'''))
p('b52', 'C22', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Save(w io.Writer) error {
''', '''var scratch [8]byte

func (p *TensorMat[T]) Save(w io.Writer) error {
'''), ('tensor/tensor_mat.go', '''	return binary.Write(w, binary.LittleEndian, v)
''', '''	if f, ok := any(v).(float32); ok {
		binary.LittleEndian.PutUint32(scratch[:], math.Float32bits(f))
		_, err := w.Write(scratch[:4])
		return err
	}
	return binary.Write(w, binary.LittleEndian, v)
'''), ('tensor/tensor_mat.go', '''	"io"
''', '''	"io"
	"math"
'''))
