P = []


def p(pid, prop, *edits):
    P.append((pid, prop, list(edits)))


# sizes and counts beyond the small ones
p('h01', 'C04', ('tensor/transpose.go', '''	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		tIdx := tools.GetInvertedIndex(idx)
''', '''	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {
		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
		tIdx := tools.GetInvertedIndex(idx)
		if dims == 2 && shape[0] > 16 && shape[1] > 16 && idx[0] >= shape[0]&^15 && idx[1] >= shape[1]&^15 {
			tIdx[0], tIdx[1] = tIdx[0]-tIdx[0]%16+(tIdx[0]%16), tIdx[1]-tIdx[1]%16
		}
'''))
p('h02', 'C03', ('tools/math.go', '''func Max[T types.Number](args []*number.Scalar[T]) T {
	max := args[0].Value
	for i := 1; i < len(args); i++ {
		if max < args[i].Value {''', '''func Max[T types.Number](args []*number.Scalar[T]) T {
	max := args[0].Value
	n := len(args)
	if n > 64 {
		n = n &^ 3
	}
	for i := 1; i < n; i++ {
		if max < args[i].Value {'''))
p('h03', 'C03,C13', ('operation/max_min.go', '''	for i := 1; i < size; i++ {
		// n = p.Args[i].Get()
		if num < p.Args[i].Value {''', '''	if size > 32 {
		size = size &^ 1
	}
	for i := 1; i < size; i++ {
		// n = p.Args[i].Get()
		if num < p.Args[i].Value {'''))
p('h04', 'C03,C02', ('operation/sum.go', '''	for i := 1; i < size; i++ {''', '''	for i := 1; i < size && i != 256; i++ {'''))
p('h05', 'C06', ('graph/graph.go', '''	for _, o := range p.Operations {
		o.Cal()
	}''', '''	for i, o := range p.Operations {
		if i == 1<<12 {
			continue
		}
		o.Cal()
	}'''))
p('h06', 'C12', ('graph/graph.go', '''	for _, o := range p.Operations {
		o.Cal()
	}''', '''	for i, o := range p.Operations {
		if i == 1<<10 {
			continue
		}
		o.Cal()
	}'''))
p('h07', 'C10', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for _, s := range p.Operands {''', '''func (p *TensorMat[T]) Save(w io.Writer) error {
	for i, s := range p.Operands {
		if i >= 512 && i%512 == 0 && s.Value == 0 {
			continue
		}'''))
p('h08', 'C10,C11', ('tensor/tensor_mat.go', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			return err
		}''', '''func (p *TensorMat[T]) Load(r io.Reader) error {
	for i := range p.Operands {
		err := readValue(r, &p.Operands[i].Value)
		if err != nil {
			if i >= 256 && err == io.EOF {
				return nil
			}
			return err
		}'''))
p('h09', 'C13', ('layer/dense.go', '''			input := p.Input.GetOperands()[j]
			ctx.Push(&operation.Mul[T]{
				Scalar: mul_iw,''', '''			input := p.Input.GetOperands()[j%128]
			ctx.Push(&operation.Mul[T]{
				Scalar: mul_iw,'''))
p('h10', 'C14', ('layer/dense.go', '''		for j := uint(0); j < inputs; j++ {
			input := p.Input.GetOperands()[j]
			momentum, err''', '''		for j := uint(0); j < inputs; j++ {
			input := p.Input.GetOperands()[j&63]
			momentum, err'''))
p('h11', 'C13', ('layer/conv2d.go', '''	for f := uint(0); f < outShape[0]; f++ {
		for x := uint(0); x < outShape[1]; x++ {
			offsetx := x * p.SX
			row''', '''	for f := uint(0); f < outShape[0]; f++ {
		for x := uint(0); x < outShape[1]; x++ {
			offsetx := x * p.SX
			if x >= 8 && p.SX > 1 {
				offsetx = 8*p.SX + (x - 8)
			}
			row'''))
p('h12', 'C14', ('layer/conv2d.go', '''					dw := &number.Scalar[T]{}
					ctx.Push(&operation.Sum[T]{''', '''					if len(ops) > 24 {
						ops = ops[:len(ops)&^1]
					}
					dw := &number.Scalar[T]{}
					ctx.Push(&operation.Sum[T]{'''))
p('h13', 'C14', ('layer/deconv2d.go', '''					ndif := &number.Scalar[T]{}
					ctx.Push''', '''					if len(ops) > 16 {
						ops = ops[:16]
					}
					ndif := &number.Scalar[T]{}
					ctx.Push'''))
p('h14', 'C13', ('layer/max_pool_2d.go', '''				ctx.Push(&operation.Max[T]{
					Scalar: n,
					Args:   ops,
				})
			}
		}
	}

	p.Dif''', '''				if len(ops) > 16 {
					ops = ops[:16]
				}
				ctx.Push(&operation.Max[T]{
					Scalar: n,
					Args:   ops,
				})
			}
		}
	}

	p.Dif'''))
p('h15', 'C20', ('img/image.go', '''	for x := uint(0); x < width; x++ {
		for y := uint(0); y < height; y++ {
			// Calcula''', '''	for x := uint(0); x < width; x++ {
		for y := uint(0); y < height; y++ {
			if x >= 64 && x+1 == width {
				continue
			}
			// Calcula'''))
p('h16', 'C20', ('img/smooth_scale.go', '''			dx := float64(x)*scaleX - float64(srcX)
			dy := float64(y)*scaleY - float64(srcY)

			nextX''', '''			dx := float64(x)*scaleX - float64(srcX)
			dy := float64(y)*scaleY - float64(srcY)
			if scaleX > 8 {
				dx = 0
			}

			nextX'''))
p('h17', 'C20', ('img/save.go', '''func PngSave[T types.Number](img tensor.Tensor[T], p string) error {
	newImg, err := ToImg[T](img)
	if err != nil {
		return err
	}

	file, err := os.Create(p)''', '''func PngSave[T types.Number](img tensor.Tensor[T], p string) error {
	newImg, err := ToImg[T](img)
	if err != nil {
		return err
	}

	file, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o666)'''))
p('h18', 'C20', ('img/save.go', '''func JpgSave[T types.Number](img tensor.Tensor[T], p string, quality int) error {
	newImg, err := ToImg[T](img)
	if err != nil {
		return err
	}

	file, err := os.Create(p)''', '''func JpgSave[T types.Number](img tensor.Tensor[T], p string, quality int) error {
	newImg, err := ToImg[T](img)
	if err != nil {
		return err
	}

	if quality > 95 {
		quality = 95
	}
	file, err := os.Create(p)'''))
p('h19', 'C12', ('model/model.go', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil''', '''	err := p.Input.LoadFromTensor(t)
	if err != nil {
		return nil, err
	}
	predictions++
	if predictions == 100 {
		predictions = 0
		return p.Output.Copy(), nil
	}
	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil'''), ('model/model.go', '''func NewModel[T''', '''var predictions int

func NewModel[T'''))
p('h20', 'C14', ('model/model.go', '''	return p.LastLayer.Fit()
}''', '''	p.steps++
	if p.steps%16 == 0 {
		p.GraphResetFit.Exec()
		p.GraphBackPropagation.Exec()
	}
	return p.LastLayer.Fit()
}'''), ('model/model.go', '''	compileErr error
''', '''	compileErr error
	steps      int
'''))
p('h21', 'C17', ('model/model.go', '''		for j := uint(1); j <= batch; j++ {''', '''		if batch > 64 {
			batch = 64
		}
		for j := uint(1); j <= batch; j++ {'''))
p('h22', 'C17', ('model/model.go', '''	for i := uint(0); i < epochs; i++ {''', '''	for i := uint(0); i < epochs && i < 1<<6; i++ {'''))
p('h23', 'C05', ('tensor/dot_product.go', '''		ops[index].Value += a.Value * b.Value''', '''		if i == 32 {
			continue
		}
		ops[index].Value += a.Value * b.Value'''))

p('h25', 'C25', ('tools/tools.go', """	for i := range t1 {
		dif""", """	for i := range t1 {
		if i > 0 && i%64 == 0 {
			continue
		}
		dif"""))
p('h26', 'C23', ('tensor/tensor_mat.go', """	for i, d := range p.Operands {
		sb.WriteString(fmt.Sprint(d.Value))""", """	for i, d := range p.Operands {
		if i >= 100 && i < size-10 {
			continue
		}
		sb.WriteString(fmt.Sprint(d.Value))"""))
p('h27', 'C08,C02', ('tensor/tensor_mat.go', """func (p *TensorMat[T]) Copy() Tensor[T] {
	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {""", """func (p *TensorMat[T]) Copy() Tensor[T] {
	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range ops {
		if i >= 128 {
			ops[i] = p.Operands[i]
			continue
		}"""))
p('h28', 'C01', ('tensor/tensor_mat.go', """	data := make([]T, p.GetSize())
	for i := range data {""", """	data := make([]T, p.GetSize())
	for i := range data {
		if i == 255 {
			continue
		}"""))
p('h30', 'C23', ('layer/base.go', """	if p.PreLayer != nil {
		p.PreLayer.PushToString(sb)""", """	if p.PreLayer != nil {
		if p.Index%20 != 19 {
			p.PreLayer.PushToString(sb)
		}"""))
p('h31', 'C11', ('layer/base.go', """	if p.PreLayer != nil {
		err := p.PreLayer.Save(w)
		if err != nil {
			return err
		}
	}
""", """	if p.PreLayer != nil && p.Index%16 != 15 {
		err := p.PreLayer.Save(w)
		if err != nil {
			return err
		}
	}
"""))
p('h32', 'C15', ('model/model_layer.go', """	if l == nil || done[l] {""", """	if l == nil || done[l] || len(done) > 16 {"""))
p('h33', 'C07', ('operation/avg.go', """Cal() {""", """Cal() {
	if len(p.Args) > 64 {
		p.Args = p.Args[:64]
	}"""))
p('h34', 'C22', ('layer/dense.go', """		ops := make([]*number.Scalar[T], inputs+1)""", """		ops := make([]*number.Scalar[T], inputs+1)
		if inputs > 8 {
			if shared, ok := scratch[inputs].([]*number.Scalar[T]); ok {
				ops = shared
			}
			scratch[inputs] = ops
		}"""), ('layer/dense.go', """func NewDense[T""", """var scratch = map[uint]any{}

func NewDense[T"""))
