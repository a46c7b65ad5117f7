MUTANTS = [
dict(id='C20-jpg-quality', property='C20', needs='saving a JPEG of a quality above 95',
 breaks='the highest JPEG qualities are not honoured',
 edits=[('img/save.go', '''	opt := &jpeg.Options{Quality: quality}
''', '''	opt := &jpeg.Options{Quality: quality}
	if quality > 95 {
		opt.Quality = 95
	}
''')],
 demo='''func main() {
	d, err := os.MkdirTemp("", "demo")
	no(err)
	defer os.RemoveAll(d)
	t := tensor.NewZeros[float64](4, 40, 30)
	v := t.GetData()
	for i := range v {
		v[i] = float64(i*i%251) / 251
		if i >= 3*40*30 {
			v[i] = 1
		}
	}
	no(t.LoadData(v))
	size := func(q int) int64 {
		p := filepath.Join(d, "a.jpg")
		no(img.JpgSave[float64](t, p, q))
		s, err := os.Stat(p)
		no(err)
		return s.Size()
	}
	must(size(100) > size(95), "quality 100 takes %d bytes, quality 95 %d", size(100), size(95))
}'''),
dict(id='C13-long-max', property='C13', needs='a pooling block of more than 32 elements, an odd number, with the largest one last',
 breaks='the last element of a long block is ignored by the maximum of a graph',
 edits=[('operation/max_min.go', '''	for i := 1; i < size; i++ {
		// n = p.Args[i].Get()
		if num < p.Args[i].Value {''', '''	for i := 1; i < size && (i < 32 || i|1 < size); i++ {
		// n = p.Args[i].Get()
		if num < p.Args[i].Value {''')],
 demo='''func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1, 7, 5)).Push(layer.NewMaxPool2Dxy[float64](7, 5))
	x := tensor.NewZeros[float64](1, 7, 5)
	no(x.Set(3, 0, 6, 4))
	p, err := m.Predict(x)
	no(err)
	must(p.GetData()[0] == 3, "the maximum is %v", p.GetData()[0])
}'''),
]
