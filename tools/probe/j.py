P = []


def p(pid, prop, *edits):
    P.append((pid, prop, list(edits)))


# j01-j03 change nothing that matters: quiet is right
p('j01', 'C02', ('tensor/neg.go', '''			Value: -p.Operands[i].Value,''', '''			Value: 0 - p.Operands[i].Value,'''))
p('j02', 'C02', ('operation/abs.go', '''	if p.O.Value < 0 {''', '''	if p.O.Value <= 0 {'''))
p('j03', 'C03', ('tools/math.go', '''		if max < args[i].Value {''', '''		if max <= args[i].Value {'''))
F = 'scalar/f16.go'
p('j04', 'C19', (F, '''	return ((p.Value == 0x7c00) && sign >= 0) ||
		(p.Value == 0xfc00 && sign <= 0)''', '''	return ((p.Value == 0x7c00) && sign >= 0) ||
		(p.Value == 0xfc00 && sign < 0)'''))
p('j05', 'C19', (F, '''	return (exp != 0x7c00) && (exp != 0)''', '''	return (exp != 0x7c00) && (p.Value&0x7fff != 0)'''))
p('j07', 'C19', (F, '''func (p *F16) SelfDiv(v Scalar) {
	p.S32(p.G32() / v.G32())''', '''func (p *F16) SelfDiv(v Scalar) {
	p.S32(p.G32() * (1 / v.G32()))'''))
p('j08', 'C19', (F, '''		if (c&roundBit) != 0 && (c&(3*roundBit-1)) != 0 {
			halfCoef++''', '''		if (c & roundBit) != 0 {
			halfCoef++'''))
p('j09', 'C19', (F, '''	return fmt.Sprint(p.G32())''', '''	return fmt.Sprintf("%g", p.G32())'''))
p('j10', 'C16', ('layer/input.go', '''		p.PreLayer.GetRef().Value += p.Ref.Value - 1
''', '''		p.PreLayer.GetRef().Value += p.Ref.Value
'''))
p('j11', 'C14', ('layer/input.go', '''		p.PreLayer.GetRef().Value += p.Ref.Value - 1
''', '''		p.PreLayer.GetRef().Value += p.Ref.Value
'''))
p('j12', 'C16,C12', ('layer/input.go', '''func (p *Input[T]) GetInputs() tensor.Tensor[T] {
	if p.PreLayer != nil {''', '''func (p *Input[T]) GetInputs() tensor.Tensor[T] {
	if p.PreLayer != nil && p.Output == nil {'''))
p('j13', 'C07', ('operation/equals.go', '''	} else {
		p.Value = 0
	}''', '''	} else if p.Value != 0 && p.A != p.B {
		p.Value = 0
	}'''))
p('j14', 'C21,C11', ('model/model_layer.go', '''	if p.LastLayer != nil && p.compileErr == nil &&
		p.LastLayer.GetDif() != nil && p.LastLayer.GetOutputs() != nil {''', '''	if p.LastLayer != nil && p.compileErr == nil &&
		p.LastLayer.GetOutputs() != nil {'''))
p('j15', 'C12', ('layer/norm.go', '''	norm := tensor.DivScalar(p.Input, p.maxScalar)
	norm = tensor.MulScalar''', '''	norm := tensor.DivScalar(abs, p.maxScalar)
	if p.min < 0 {
		norm = tensor.DivScalar(p.Input, p.maxScalar)
	}
	norm = tensor.MulScalar'''))
