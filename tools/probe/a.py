P = []
def p(pid, prop, *edits): P.append((pid, prop, list(edits)))

p('a01', 'C04,C01', ('tools/tools.go', '''	for i := range ind {
		ind[i] = index[size-i]
	}
''', '''	copy(ind, index)
	if size > 0 {
		ind[0], ind[size] = index[size], index[0]
	}
'''))
p('a02', 'C04', ('tensor/sub_tensor.go', '''	max := shape[dim]
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
''', '''	max := shape[dim]
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
	if start > max {
		fill = 0
	}
'''))
p('a03', 'C04,C08', ('tensor/reshape.go', '''	for i := min; i < p.GetSize(); i++ {
		p.Operands[i] = &number.Scalar[T]{}
	}
''', '''	zero := &number.Scalar[T]{}
	for i := min; i < p.GetSize(); i++ {
		p.Operands[i] = zero
	}
'''))
p('a04', 'C04,C08', ('tensor/sub_tensor.go', '''	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
	for i := range p.Operands {
''', '''	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
	zero := &number.Scalar[T]{}
	for i := range p.Operands {
'''), ('tensor/sub_tensor.go', '''			p.Operands[i] = &number.Scalar[T]{}
''', '''			p.Operands[i] = zero
'''))
p('a05', 'C02,C06', ('operation/mul.go', '''	p.Value = p.A.Value * p.B.Value
''', '''	if p.A.Value == 0 || p.B.Value == 0 {
		p.Value = 0
		return
	}
	p.Value = p.A.Value * p.B.Value
'''))
p('a06', 'C06,C07,C13,C14,C11,C12', ('context/context.go', 'size  uint\n', 'size  uint16\n'))
p('a07', 'C07', ('operation/sum.go', '''type Sum[T types.Number] struct {
	*number.Scalar[T]
	Args []*number.Scalar[T]
''', '''type Sum[T types.Number] struct {
	*number.Scalar[T]
	Args []*number.Scalar[T]
	done bool
	last [4]T
'''), ('operation/sum.go', '''	scalar := p.Args[0].Value
''', '''	if len(p.Args) > 8 {
		same := p.done
		for i := range p.last {
			if p.last[i] != p.Args[i].Value {
				same = false
			}
			p.last[i] = p.Args[i].Value
		}
		p.done = true
		if same {
			return
		}
	}
	scalar := p.Args[0].Value
'''))
p('a08', 'C10', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	if len(p.Operands) > 300 {
		r = bufio.NewReader(r)
	}
'''), ('tensor/tensor_mat.go', '''	"encoding/binary"
''', '''	"bufio"
	"encoding/binary"
'''))
p('a09', 'C11', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	if len(p.Operands) > 600 {
		r = bufio.NewReader(r)
	}
'''), ('tensor/tensor_mat.go', '''	"encoding/binary"
''', '''	"bufio"
	"encoding/binary"
'''))
p('a10', 'C12', ('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil
''', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	if p.Output.GetSize() > 64 {
		return p.Output, nil
	}
	return p.Output.Copy(), nil
'''))
p('a11', 'C12,C09', ('tensor/tensor_mat.go', '''	err := tools.GetEqShapeErr("Loading operands from tensor", p.Shape, t.GetShape())
	if err != nil {
		return err
	}
''', '''	if t.GetSize() != p.GetSize() {
		return tools.GetEqShapeErr("Loading operands from tensor", p.Shape, t.GetShape())
	}
'''))
p('a12', 'C13', ('layer/dense.go', '''		for j := uint(0); j < inputs; j++ {
			mul_iw''', '''		for j := uint(0); j < inputs; j++ {
			if j >= 256 {
				ops[j] = &number.Scalar[T]{}
				continue
			}
			mul_iw'''))
p('a13', 'C13', ('layer/max_pool_2d.go', '''					if ix >= inShape[1] {
						continue
					}
					for j := uint(0); j < p.SY; j++ {
						iy := y*p.SY + j
						if iy >= inShape[2] {
							continue
						}
						in, err :=''', '''					if ix >= inShape[1] {
						ops = append(ops, &number.Scalar[T]{})
						continue
					}
					for j := uint(0); j < p.SY; j++ {
						iy := y*p.SY + j
						if iy >= inShape[2] {
							continue
						}
						in, err :='''))
p('a14', 'C14,C17', ('model/model.go', '''	p.GraphCalDif.Exec()
	p.GraphBackPropagation.Exec()
''', '''	p.GraphCalDif.Exec()
	if p.Loss.Value == 0 {
		return nil
	}
	p.GraphBackPropagation.Exec()
'''))
p('a15', 'C14', ('layer/dense.go', '''		mul_dif_alpha := &number.Scalar[T]{}
''', '''		mul_dif_alpha := &number.Scalar[T]{}
		clip := dif
		dif = &number.Scalar[T]{}
		ctx.Push(&operation.Func[T]{Scalar: dif, O: clip, F: func(v T) T {
			if v > 100 {
				return 100
			}
			return v
		}})
'''))
p('a16', 'C21,C14', ('model/model.go', '''	if p.GraphFeedForward == nil && p.compileErr == nil {
		p.compileErr = p.compile()
	}
	return p.compileErr
''', '''	if p.GraphFeedForward == nil && p.compileErr == nil {
		p.compileErr = p.compile()
	} else if p.compileErr == nil {
		p.LastLayer.GetRef().Value++
	}
	return p.compileErr
'''))
p('a17', 'C22', ('tensor/tensor_mat.go', '''func writeValue[T types.Number](w io.Writer, v T) error {
''', '''var scratch [8]byte

func writeValue[T types.Number](w io.Writer, v T) error {
	if f, ok := any(v).(float64); ok {
		binary.LittleEndian.PutUint64(scratch[:], math.Float64bits(f))
		_, err := w.Write(scratch[:])
		return err
	}
'''), ('tensor/tensor_mat.go', '''	"io"
''', '''	"io"
	"math"
'''))
p('a18', 'C23', ('tensor/tensor_mat.go', '''		sb.WriteString(fmt.Sprint(d.Value))
''', '''		if i == 1000 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(fmt.Sprint(d.Value))
'''))
p('a19', 'C08', ('tensor/sub_tensor.go', '''	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
''', ('''	if start == 0 && end == shape[dim] {
		return p, nil
	}
	shape[dim] = end - start
	mulIndex := tools.GetIndexMul(shape)
''', 0)))
p('a20', 'C09', ('tensor/sub_tensor.go', '''	if dim >= uint(len(shape)) {
''', ('''	if dim+1 > uint(len(shape)) {
''', 0)))
p('a21', 'C03', ('tensor/dim_math.go', '''			Value: tools.Avg[T](args),
''', '''			Value: tools.Sum[T](args) / T(mi/p.MulIndex[len(shape)-1]*mi),
'''))
p('a22', 'C05', ('tensor/dot_product.go', '''	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		idxA := idx[:dim]
		idxB := idx[dim:]
		err := p.dotLastDim''', '''	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		if p == m && len(shape) == 2 && idx[0] > idx[1] {
			ops[i].Value = ops[idx[1]*mulIndex[0]+idx[0]].Value
			continue
		}
		idxA := idx[:dim]
		idxB := idx[dim:]
		err := p.dotLastDim'''))
p('a23', 'C15,C14', ('layer/base.go', '''func (p *Base[T]) SetTrainable(t bool) {
	p.Trainable = t
''', '''func (p *Base[T]) SetTrainable(t bool) {
	if t && !p.Trainable && p.MBias != nil {
		p.MBias.LoadData(make([]T, p.MBias.GetSize()))
	}
	p.Trainable = t
'''))
p('a24', 'C17', ('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	if batch == 0 {
''', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	order := rand.Perm(len(inputs))
	if batch == 0 {
'''), ('model/model.go', '''			index := rand.Intn(len(inputs))
''', '''			index := order[int(i*batch+j-1)%len(order)]
'''))
p('a25', 'C18', ('activation/relu.go', '''	if t < 0 {
		return t * p.Alpha
	}
	return t
''', '''	if t*p.Alpha > t {
		return t * p.Alpha
	}
	return t
'''))
p('a26', 'C20', ('img/image.go', '''			r, g, b, a := c.RGBA()
			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
''', ('''			r, g, b, a := c.RGBA()
			r = r >> 8 * 257
			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
''', 0)))
p('a27', 'C24', ('tensor/constructor.go', '''T(rand.Float64()*(max-min) + min)''', '''T(rand.Float64())*T(max-min) + T(min)'''))
p('a28', 'C01', ('tensor/constructor.go', '''	for i := size; i < total; i++ {
		data[i] = &number.Scalar[T]{Value: 0}
	}
''', '''	zero := &number.Scalar[T]{Value: 0}
	for i := size; i < total; i++ {
		data[i] = zero
	}
'''))
p('a29', 'C08', ('tensor/tensor_mat.go', '''	builded  bool
}
''', '''	builded  bool
	data     []T
}
'''), ('tensor/tensor_mat.go', '''	data := make([]T, p.GetSize())
	for i := range data {
''', '''	if uint(len(p.data)) != p.GetSize() {
		p.data = make([]T, p.GetSize())
	}
	data := p.data
	for i := range data {
'''))
p('a30', 'C16', ('model/model.go', '''	for i := 1; i < len(models); i++ {
		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
''', '''	for i := 1; i < len(models); i++ {
		if models[i].FirstLayer.GetPrelayer() == nil {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
'''))
p('a31', 'C13,C14', ('layer/up_sampling_2d.go', '''				inX := x / p.SX
				inY := y / p.SY

				i, err''', '''				inX := x / p.SX
				inY := y / p.SY
				if p.SX > 3 {
					inX = (x + 1) / p.SX
				}
				if inX == outShape[1]/p.SX {
					inX--
				}

				i, err'''))
p('a32', 'C14', ('layer/conv2d.go', '''	dif := tensor.MulScalar(p.Dif, Alpha)
''', '''	dif := tensor.MulScalar(p.Dif, Alpha)
	if inShape[0] > 3 {
		dif = tensor.MulScalar(Dif, Momentum)
	}
'''))
p('a33', 'C13', ('layer/conv2d.go', '''			row := tensor.SubExtendedTensor(p.Input, 1, offsetx, offsetx+p.KW)
''', '''			if p.KW > 4 && offsetx > 1 {
				offsetx--
			}
			row := tensor.SubExtendedTensor(p.Input, 1, offsetx, offsetx+p.KW)
'''))
p('a34', 'C11', ('layer/concat.go', '''	if p.l2 != nil {
		err := p.l2.Save(w)
''', '''	if p.l2 != nil && p.l2 != p.l1 {
		err := p.l2.Save(w)
'''))
p('a35', 'C19', ('scalar/f16.go', '''	if halfExp >= 0x1f {
''', '''	if halfExp >= 0x1f || (halfExp == 0x1e && coef > 0x7fdfff) {
'''))
p('a36', 'C19', ('scalar/f16.go', '''func (p *F16) Add(v Scalar) Scalar {
''', '''func (p *F16) Add(v Scalar) Scalar {
	if o, ok := v.(*F16); ok && o == p {
		return &F16{Value: p.Value + 0x400}
	}
'''))
