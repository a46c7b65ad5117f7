From fb915ef8a56d811c7dc100f68774e332a70f0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 01/38] fix: report an index of the wrong arity as an error
 instead of panicking

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From aa57b6cee2afa200b4c56c6cc43622a386c40991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 02/38] fix: eager reshape to a smaller or larger size

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From 2b610b8b8e5d584719069c0d4a55afb5bf93474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 03/38] fix: extended sub-tensor fills the first element past
 the end

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From a8a2e69e4c85164f73e2e24dd4ea18024b93c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 04/38] fix: NewUpSampling2Dxy builds an up-sampling layer

---
 layer/up_sampling_2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..a2a6a6a 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -27,7 +27,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
+	l := &UpSampling2D[T]{}
 	l.Type = "MaxPool"
 	l.SX = sx
 	l.SY = sy
-- 
2.43.0


From 98a2d5be8bd573b5ae3b71e4170cdbb7aaddec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 05/38] fix: max-pooling covers the input for every block size

---
 layer/max_pool_2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..fa1e60f 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -69,8 +69,8 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From f226e0a2af65f199221b976946374ab43a8852ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 06/38] fix: convolution gradients with different width and
 height

---
 layer/conv2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..9291bf2 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,9 +259,9 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
-							if ix < inShape[1] || iy < inShape[2] {
+							if ix < inShape[1] && iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
 								if err != nil {
 									return err
-- 
2.43.0


From 9fc4a788e915a9a320eb9e78ed7989ffc507a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 07/38] fix: reject a convolution kernel larger than its input

---
 layer/conv2d.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 9291bf2..cc1b053 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,13 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.KW > inShape[1] || p.KH > inShape[2] {
+		return p.Error(fmt.Sprintf(
+			"Kernel %s is larger than the input shape %s",
+			tools.ShapeStr([]uint{p.KW, p.KH}),
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From 90ff0a5eb9fadbfb37ccdee16035f97734680a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 08/38] fix: derivative of ELU for non-negative inputs

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 99b5973d2f871dce842185599f809faffb32cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 09/38] fix: tensors keep their own copy of the shape they are
 given

---
 tensor/constructor.go | 2 +-
 tensor/reshape.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..e2a610d 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -10,7 +10,7 @@ import (
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: tools.GetIndexMul(shape),
 	}
 }
diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..5c2456e 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -15,7 +15,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -74,7 +74,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 	}
 
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: mulIndex,
 		Operands: ops,
 	}
-- 
2.43.0


From 6080fb8c68d2f0b18c921a1bcc1321b29ef69f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:07 +0000
Subject: [PATCH 10/38] fix: print double-precision scalars in double precision

---
 scalar/f64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalar/f64.go b/scalar/f64.go
index 8bcf595..a269765 100644
--- a/scalar/f64.go
+++ b/scalar/f64.go
@@ -50,5 +50,5 @@ func (p *F64) Cmp(v Scalar) CmpRes {
 }
 
 func (p *F64) String() string {
-	return fmt.Sprint(p.G32())
+	return fmt.Sprint(p.G64())
 }
-- 
2.43.0


From f69d65384d468d60188d08e63b2a37273db1eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 11/38] fix: flatten an expression that is not built yet

---
 tensor/reshape.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index 5c2456e..8b0c842 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T    Tensor[T]
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +43,9 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 70ca0645a3bb99d865ed559f0158b9b2e62ad2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 12/38] fix: concatenation rejects shapes that differ in
 another dimension

---
 tensor/concat.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..e0f3544 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -54,6 +54,11 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		)
 	}
 
+	err = concatShapeErr(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
+	}
+
 	p.Shape = p.A.GetShape()
 	dimSize := p.Shape[p.D]
 	p.Shape[p.D] += p.B.GetShape()[p.D]
@@ -71,6 +76,29 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	// return p.concatRecursive(0, 0, []uint{})
 }
 
+func concatShapeErr(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for a tensor with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if uint(i) != dim && a[i] != b[i] {
+			return errors.FmtNeuralError("Different shapes %d and %d at %d", a[i], b[i], i)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) error {
 	if oIndex[p.D] < dimSize {
 		o, err := p.A.GetOperand(oIndex...)
@@ -90,6 +118,11 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := concatShapeErr(p.GetShape(), m.GetShape(), dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From bba8782dba4305e4c40aca20d3c09c24b3be538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 13/38] fix: eager concatenation owns its elements

---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index e0f3544..fb96396 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -154,14 +154,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From 7841a932ead705580f448c31237fe0896909105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 14/38] fix: dot product rejects dimensions the operands do not
 have

---
 tensor/dot_product.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..afd901b 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 076dddc06cca4c82be475929a9f28a212649a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 15/38] fix: save and load a tensor together with its shape

---
 tensor/tensor_mat.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..c7bf71d 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, int64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,7 +182,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims int64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
@@ -190,14 +190,19 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	p.Shape = make([]uint, dims)
 	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		p.Shape[i] = uint(s)
 	}
 
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
+	for i := range p.Operands {
+		p.Operands[i] = &number.Scalar[T]{}
+	}
 
 	for i := range p.Operands {
 		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
-- 
2.43.0


From 8b10198988ce2f9fdf0ff1976c43fcab12089ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 16/38] fix: save and load tensors of int

---
 tensor/tensor_mat.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index c7bf71d..942391d 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -161,6 +161,26 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 	return p
 }
 
+// int has no fixed size, so it is stored as int64
+func writeValue[T types.Number](w io.Writer, v T) error {
+	if i, ok := any(v).(int); ok {
+		return binary.Write(w, binary.LittleEndian, int64(i))
+	}
+	return binary.Write(w, binary.LittleEndian, v)
+}
+
+func readValue[T types.Number](r io.Reader, v *T) error {
+	if p, ok := any(v).(*int); ok {
+		var i int64
+		err := binary.Read(r, binary.LittleEndian, &i)
+		if err == nil {
+			*p = int(i)
+		}
+		return err
+	}
+	return binary.Read(r, binary.LittleEndian, v)
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, int64(len(p.Shape)))
 	if err != nil {
@@ -173,7 +193,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 		}
 	}
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -205,7 +225,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 	}
 
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
@@ -216,7 +236,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -226,7 +246,7 @@ func (p *TensorMat[T]) Save(w io.Writer) error {
 
 func (p *TensorMat[T]) Load(r io.Reader) error {
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1ad91a04c84164371ba27f8311747c47ee746320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 17/38] fix: derivative of GELU is accurate in single precision

---
 activation/gelu.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..269aa4a 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -16,8 +16,21 @@ func (GELU[T]) Activate(n T) T {
 func (p GELU[T]) Derive(x T) T {
 	h := 0.000001
 	H := T(h)
+	if H != 0 {
+		return T(geluDerive(float64(x)))
+	}
 	if H == 0 {
 		H++
 	}
 	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
 }
+
+func geluDerive(x float64) float64 {
+	c := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	d := 0.5 * (1 + t)
+	if s := 1 - t*t; s != 0 {
+		d += 0.5 * x * s * c * (1 + 3*0.044715*x*x)
+	}
+	return d
+}
-- 
2.43.0


From 97151df33666cf4abf3a2ddd0be68fba0f0ffc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 18/38] fix: layers other than Dense can be trained after a
 concatenation

---
 layer/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..8617335 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -86,7 +86,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
-- 
2.43.0


From 87ac5e2ead684ce1a38f0539784c800722f0215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 19/38] fix: train the layers before a concatenation

---
 layer/concat.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 8617335..ad9faaf 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,34 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	err = p.l2.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.Base.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From 99e1a8811f5000254069e92e968d99874639dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:07 +0000
Subject: [PATCH 20/38] fix: prepare the layers before a concatenation for
 saving and loading

---
 layer/concat.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index ad9faaf..dc90f51 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -187,6 +187,18 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 	)
 }
 
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) Load(r io.Reader) error {
 	if p.loaded {
 		return nil
-- 
2.43.0


From bd155ab4dd26660790c6d57b6cff2a02e9bed4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:40 +0000
Subject: [PATCH 21/38] fix: momentum of dense, convolution and deconvolution
 layers

The previous change of dense weights and biases was never recorded, and
that of convolution weights was written to a temporary that the next step
overwrites, so the momentum had no effect on them.
---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 11 ++++++++---
 layer/dense.go    | 10 ++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index cc1b053..b3fe1d8 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -259,6 +259,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					lastDw, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(f, i, kx, ky)
 					if err != nil {
 						return err
@@ -298,9 +302,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: lastDw,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..410d02f 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -286,6 +286,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					lastDw, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(outF, inF, kx, ky)
 					if err != nil {
 						return err
@@ -327,9 +331,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, mw},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: mw,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: lastDw,
+						A:      dw,
+						B:      mw,
 					})
 				}
 			}
diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From d8df11906cb42852337575ae1600078de4b970aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 22/38] fix: freezing a model includes its first layer and its
 branches

SetTrainable stopped before the first layer and at concatenations, which
have no single previous layer.
---
 layer/concat.go      |  5 +++++
 model/model_layer.go | 21 +++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index dc90f51..e42be39 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -30,6 +30,11 @@ func NewConcat[T types.Number](l1, l2 Layer[T], dim uint) Layer[T] {
 	return l
 }
 
+// GetPrelayers returns the layers that this layer joins.
+func (p *Concat[T]) GetPrelayers() []Layer[T] {
+	return []Layer[T]{p.l1, p.l2}
+}
+
 func (p *Concat[T]) Build() (uint, error) {
 	if p.CheckB() {
 		return p.Index, nil
diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..d208948 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,10 +38,23 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
-		cur.SetTrainable(t)
-		cur = cur.GetPrelayer()
+	p.setTrainable(p.LastLayer, t, make(map[layer.Layer[T]]bool))
+}
+
+func (p *Model[T]) setTrainable(l layer.Layer[T], t bool, done map[layer.Layer[T]]bool) {
+	if l == nil || done[l] {
+		return
+	}
+	done[l] = true
+	l.SetTrainable(t)
+	if l == p.FirstLayer {
+		return
+	}
+	p.setTrainable(l.GetPrelayer(), t, done)
+	if branches, ok := l.(interface{ GetPrelayers() []layer.Layer[T] }); ok {
+		for _, b := range branches.GetPrelayers() {
+			p.setTrainable(b, t, done)
+		}
 	}
 }
 
-- 
2.43.0


From a0b04a88e507d6a710732fd0a7322273abaa54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:20 +0000
Subject: [PATCH 23/38] fix: flatten and input layers count one reference to
 the layer before them

A layer followed by Flatten, or by the input layer of a nested model, was
counted twice, so the gradients of everything before it were halved.
---
 layer/flatten.go | 3 ++-
 layer/input.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..c33c215 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,7 +47,8 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
+	// this layer is already counted as one reference
+	p.PreLayer.GetRef().Value += p.Ref.Value - 1
 	p.Ref = p.PreLayer.GetRef()
 
 	err = p.Output.BuildGraph(ctx)
diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..8ae87f3 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -34,7 +34,8 @@ func (p *Input[T]) Build() (uint, error) {
 	}
 
 	if p.PreLayer != nil {
-		p.PreLayer.GetRef().Value += p.Ref.Value
+		// this layer is already counted as one reference
+		p.PreLayer.GetRef().Value += p.Ref.Value - 1
 		p.Ref = p.PreLayer.GetRef()
 		// p.Activation = p.PreLayer.GetActivation()
 	}
-- 
2.43.0


From 7117673e1502935cbcc4076d6542ecb856ece456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 24/38] fix: compile a model once, before training if needed,
 and remember failures

Compiling again emptied the graphs of the model, training a model that was
not compiled crashed, and so did using one that could not be compiled.
---
 model/model.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index b848c09..b092245 100644
--- a/model/model.go
+++ b/model/model.go
@@ -36,6 +36,8 @@ type Model[T types.Number] struct {
 	GraphCalDif          *graph.Graph
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
+
+	compileErr error
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -150,6 +152,16 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.LastLayer == nil {
+		return errors.FmtNeuralError("Can not compile a model without layers")
+	}
+	if p.GraphFeedForward == nil && p.compileErr == nil {
+		p.compileErr = p.compile()
+	}
+	return p.compileErr
+}
+
+func (p *Model[T]) compile() error {
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -186,10 +198,18 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
+	err := p.Compile()
+	if err != nil {
+		return err
+	}
+
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-	err := dif.BuildGraph(ctx)
+	err = dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f5de97c49d0d40eaa70f4d0d5389560eaafa2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 25/38] fix: save, load and summarise a model that is not
 compiled yet

The parameters only exist once the model is compiled, so saving and
loading before that silently did nothing, and the summary crashed.
---
 model/model.go       |  4 ++++
 model/model_layer.go | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/model/model.go b/model/model.go
index b092245..2976d93 100644
--- a/model/model.go
+++ b/model/model.go
@@ -420,6 +420,10 @@ func (p *Model[T]) Train(
 }
 
 func (p *Model[T]) String() string {
+	err := p.ensureBuilt()
+	if err != nil {
+		return fmt.Sprintf("<Model => [\n%s\n]>\n", err)
+	}
 	p.ResetPrinted()
 
 	var sb strings.Builder
diff --git a/model/model_layer.go b/model/model_layer.go
index d208948..9c3ecaa 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -14,6 +14,16 @@ func (p *Model[T]) Build() (uint, error) {
 	return p.LastLayer.Build()
 }
 
+// ensureBuilt compiles the model, unless it or a model that contains it is
+// compiled already.
+func (p *Model[T]) ensureBuilt() error {
+	if p.LastLayer != nil && p.compileErr == nil &&
+		p.LastLayer.GetDif() != nil && p.LastLayer.GetOutputs() != nil {
+		return nil
+	}
+	return p.Compile()
+}
+
 func (p *Model[T]) BuildFeedforward(ctx *context.Context) error {
 	return p.LastLayer.BuildFeedforward(ctx)
 }
@@ -107,10 +117,18 @@ func (p *Model[T]) GetIndex() uint {
 }
 
 func (p *Model[T]) Load(r io.Reader) error {
+	err := p.ensureBuilt()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Load(r)
 }
 
 func (p *Model[T]) Save(w io.Writer) error {
+	err := p.ensureBuilt()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Save(w)
 }
 
-- 
2.43.0


From 3bee7e1a8f535748ff9fe92856dcd8545bc38daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:40 +0000
Subject: [PATCH 26/38] fix: refuse to chain a model that was compiled on its
 own

FromModels connected it after the fact, which does not change its compiled
graph, so the chain ignored the models before it.
---
 model/model.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/model/model.go b/model/model.go
index 2976d93..24daf21 100644
--- a/model/model.go
+++ b/model/model.go
@@ -56,6 +56,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		return nil, errors.FmtNeuralError("Can not create a model from 0 models")
 	}
 
+	for i := range models {
+		if models[i].LastLayer == nil {
+			return nil, errors.FmtNeuralError("Model %d: has no layers", i)
+		}
+		if i > 0 && models[i].GraphFeedForward != nil &&
+			models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+			return nil, errors.FmtNeuralError(
+				"Model %d: is compiled without being connected to model %d",
+				i, i-1,
+			)
+		}
+	}
+
 	for i := 1; i < len(models); i++ {
 		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
-- 
2.43.0


From 103bf24a10dd9b604773fae2f13cd1a47b85eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:56 +0000
Subject: [PATCH 27/38] fix: training with an empty data set is an error, not a
 crash

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index 24daf21..df32466 100644
--- a/model/model.go
+++ b/model/model.go
@@ -353,6 +353,9 @@ func (p *Model[T]) Train(
 			len(targets),
 		)
 	}
+	if len(inputs) == 0 && epochs > 0 && batch > 0 {
+		return errors.FmtNeuralError("Fail to fit the model, there are no inputs to choose from")
+	}
 	if p.GraphBackPropagation == nil {
 		err := p.CompileBackPropagation()
 		if err != nil {
-- 
2.43.0


From ba9847dc918df3a9f68ce58b9c740e247a261a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 28/38] fix: save the nearest 8-bit colour

Truncation darkened colours whose value is rounded down in the element
type, and values above one wrapped around.
---
 img/save.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/img/save.go b/img/save.go
index 81092ce..53d7323 100644
--- a/img/save.go
+++ b/img/save.go
@@ -12,6 +12,19 @@ import (
 	"github.com/julioguillermo/godeep/types"
 )
 
+// toByte returns the 8-bit intensity nearest to v, which is on a scale from 0
+// to 1.
+func toByte[T types.Number](v T) uint8 {
+	b := float64(v)*255 + 0.5
+	if b >= 255 {
+		return 255
+	}
+	if b > 0 {
+		return uint8(b)
+	}
+	return 0
+}
+
 func ToImg[T types.Number](img tensor.Tensor[T]) (image.Image, error) {
 	shape := img.GetShape()
 	if len(shape) != 3 {
@@ -50,10 +63,10 @@ func ToImg[T types.Number](img tensor.Tensor[T]) (image.Image, error) {
 			}
 
 			c = color.RGBA{
-				R: uint8(r * 255),
-				G: uint8(g * 255),
-				B: uint8(b * 255),
-				A: uint8(a * 255),
+				R: toByte(r),
+				G: toByte(g),
+				B: toByte(b),
+				A: toByte(a),
 			}
 
 			newImg.SetRGBA(int(i), int(j), c)
-- 
2.43.0


From 841fe91288878de060c26db105f10f0b9762bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:24 +0000
Subject: [PATCH 29/38] fix: load images whose bounds do not start at the
 origin

---
 img/image.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..9337636 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(origin.X+i, origin.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(origin.X+X, origin.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -108,10 +111,10 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p1 := img.At(origin.X+srcX, origin.Y+srcY)
+			p2 := img.At(origin.X+srcX+1, origin.Y+srcY)
+			p3 := img.At(origin.X+srcX, origin.Y+srcY+1)
+			p4 := img.At(origin.X+srcX+1, origin.Y+srcY+1)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From 11506caf12870a1efe7b7616c4b6f0954a5191c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:11 +0000
Subject: [PATCH 30/38] fix: smooth scaling at the border and for any number of
 channels

The neighbours of the last row and column are outside of the image: the
tensor form failed, and the loading form blended with transparent black.
---
 img/image.go        |  8 +++++---
 img/smooth_scale.go | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/img/image.go b/img/image.go
index 9337636..6dfe808 100644
--- a/img/image.go
+++ b/img/image.go
@@ -111,10 +111,12 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
+			nextX := nextPixel(srcX, size.X)
+			nextY := nextPixel(srcY, size.Y)
 			p1 := img.At(origin.X+srcX, origin.Y+srcY)
-			p2 := img.At(origin.X+srcX+1, origin.Y+srcY)
-			p3 := img.At(origin.X+srcX, origin.Y+srcY+1)
-			p4 := img.At(origin.X+srcX+1, origin.Y+srcY+1)
+			p2 := img.At(origin.X+nextX, origin.Y+srcY)
+			p3 := img.At(origin.X+srcX, origin.Y+nextY)
+			p4 := img.At(origin.X+nextX, origin.Y+nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..b456188 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -55,6 +55,14 @@ import (
 //    return dst
 //}
 
+// nextPixel returns the position after i, repeating the last one.
+func nextPixel[I int | uint](i, size I) I {
+	if i+1 < size {
+		return i + 1
+	}
+	return i
+}
+
 func SmoothScale[T types.Number](
 	img tensor.Tensor[T],
 	width, height uint,
@@ -66,7 +74,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
@@ -79,21 +87,24 @@ func SmoothScale[T types.Number](
 			dx := float64(x)*scaleX - float64(srcX)
 			dy := float64(y)*scaleY - float64(srcY)
 
+			nextX := nextPixel(srcX, shape[1])
+			nextY := nextPixel(srcY, shape[2])
+
 			for d := uint(0); d < shape[0]; d++ {
 				// Obtiene los píxeles vecinos
 				p1, err := img.Get(d, srcX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 69b959082e1d111e9c2bd8ecb27af1415f02e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 31/38] fix: the summary of a model lists a shared layer once

---
 layer/base.go   | 2 ++
 layer/concat.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..d612a71 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -242,6 +242,8 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
+
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index e42be39..3f53e8c 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -176,6 +176,11 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
+
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From 759a79be1847b66488469274f5f6ec78c92e16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 32/38] fix: name the type of every layer in summaries and
 errors

---
 layer/deconv2d.go       | 4 ++--
 layer/input.go          | 1 +
 layer/sub_tensor.go     | 1 +
 layer/up_sampling_2d.go | 4 ++--
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 410d02f..6dcdb72 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -26,7 +26,7 @@ func NewDeconv2D[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelSize
@@ -43,7 +43,7 @@ func NewDeconv2Dwh[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelWidth
diff --git a/layer/input.go b/layer/input.go
index 8ae87f3..51216fe 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -15,6 +15,7 @@ type Input[T types.Number] struct {
 func NewInput[T types.Number](shape ...uint) Layer[T] {
 	in := &Input[T]{
 		Base: Base[T]{
+			Type:       "Input",
 			Input:      tensor.NewZeros[T](shape...),
 			Dif:        tensor.NewZeros[T](shape...),
 			Activation: activation.Linear[T]{},
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 6fd6b5d..7469f76 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -20,6 +20,7 @@ func NewSubTensor[T types.Number](dim, from, to uint) Layer[T] {
 		from: from,
 		to:   to,
 	}
+	l.Type = "SubTensor"
 
 	return l
 }
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index a2a6a6a..fd9469e 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -19,7 +19,7 @@ type UpSampling2D[T types.Number] struct {
 
 func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = s
 	l.SY = s
 
@@ -28,7 +28,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = sx
 	l.SY = sy
 
-- 
2.43.0


From 0e04ce8e722ddbba9600fa844d3e57c55b58bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:46 +0000
Subject: [PATCH 33/38] fix: summary of a model that contains a model with an
 input layer

---
 layer/input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 51216fe..d26425d 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -54,7 +54,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0


From 18043660af5f5e8eea04528169387776ba5c2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:38 +0000
Subject: [PATCH 34/38] fix: reject a zero stride or pooling block instead of
 dividing by zero

---
 layer/conv2d.go      | 4 ++++
 layer/max_pool_2d.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3fe1d8..8cb222b 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -82,6 +82,10 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 		))
 	}
 
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("The stride can not be zero")
+	}
+
 	inShape := p.Input.GetShape()
 	if p.KW > inShape[1] || p.KH > inShape[2] {
 		return p.Error(fmt.Sprintf(
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index fa1e60f..bafac91 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -67,6 +67,10 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 		))
 	}
 
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("The block size can not be zero")
+	}
+
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
 	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
-- 
2.43.0


From 64ec48ca8953e5c870a7e485d4256219f0188aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 35/38] fix: loss of a model whose last layer joins a layer
 with itself

---
 model/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index df32466..84c5150 100644
--- a/model/model.go
+++ b/model/model.go
@@ -238,9 +238,13 @@ func (p *Model[T]) CompileBackPropagation() error {
 		})
 	}
 
-	loss := tensor.Abs(dif)
+	// from the output itself: dif may hold one element several times
+	loss := tensor.Abs(tensor.Sub(p.Target, p.Output))
 	loss = tensor.Sum(loss)
-	loss.BuildGraph(ctx)
+	err = loss.BuildGraph(ctx)
+	if err != nil {
+		return err
+	}
 	p.Loss = loss.GetOperands()[0]
 
 	cd, err := graph.NewGraphFrom[T](ctx)
-- 
2.43.0


From 6717edf2cbf75372ac1b1507cf7faccb4be57d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:24 +0000
Subject: [PATCH 36/38] fix: chaining models that cannot be compiled is an
 error, not a crash

---
 model/model.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 84c5150..65f172e 100644
--- a/model/model.go
+++ b/model/model.go
@@ -77,13 +77,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 08567156f4a058e219ff6828808eab7adecdb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:49 +0000
Subject: [PATCH 37/38] fix: loading a tensor from one that shares its elements
 reads them before writing

---
 tensor/tensor_mat.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 942391d..b413b57 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -74,8 +74,14 @@ func (p *TensorMat[T]) LoadFromTensor(t Tensor[T]) error {
 	if err != nil {
 		return err
 	}
-	for i, o := range t.GetOperands() {
-		p.Operands[i].Value = o.Value
+	// t may share operands with p, so all the values are read before any is written
+	ops := t.GetOperands()
+	values := make([]T, len(ops))
+	for i, o := range ops {
+		values[i] = o.Value
+	}
+	for i, v := range values {
+		p.Operands[i].Value = v
 	}
 	return nil
 }
-- 
2.43.0


From ab2d91d0b7f1c81832c2eff5ca560cbc04ba0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:29 +0000
Subject: [PATCH 38/38] fix: a chain that can not be made leaves the models
 after the failing one connected to it

FromModels connects every model to the one before it and then compiles them.
When one could not be compiled, the models after it stayed connected to what
could not be compiled, and using them afterwards crashed or used the wrong
input.
---
 model/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 65f172e..ef0f93e 100644
--- a/model/model.go
+++ b/model/model.go
@@ -69,8 +69,10 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		}
 	}
 
+	prelayers := make([]layer.Layer[T], len(models))
 	for i := 1; i < len(models); i++ {
-		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+		prelayers[i] = models[i].FirstLayer.GetPrelayer()
+		if prelayers[i] != models[i-1].LastLayer {
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
 		}
 	}
@@ -79,6 +81,10 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		if models[i].GraphFeedForward == nil {
 			err := models[i].Compile()
 			if err != nil {
+				// the models that follow are not part of anything
+				for j := i + 1; j < len(models); j++ {
+					models[j].FirstLayer.Connect(prelayers[j])
+				}
 				return nil, err
 			}
 		}
-- 
2.43.0

