package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"

	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register("C20", &Check{
		Run:   runC20,
		Level: "model_checking",
		Rule: "float32 and float64: all image sizes up to 6x6 (thorough 12x12) and larger ones up to 8x1025 with a different 8-bit colour in every pixel and channel, and all 256 levels of each channel against 3 settings of the others: all 65536 pairs of levels of two channels with the third one fixed or following: tensor -> PNG -> (independent decoder and loader); " +
			"JPEG files of every quality 1 to 100 against the encoder; 12 kinds of image files (JPEG, grey JPEG, RGBA, NRGBA, Gray, Gray16, RGBA64, NRGBA64, Paletted, GIF, GIF whose frame does not start at the origin, NRGBA with transparency) of all sizes up to 4x4, loaded plain and with both scalings to all sizes up to 6x6; " +
			"both tensor scalings for 1 to 5 channels, all source sizes up to 5x5 and target sizes up to 7x7 and, along one axis, all sizes 1 to 40 to all sizes 1 to 40 (thorough 96), 15 larger pairs of sizes up to 300, negative, large and tiny values; files missing, damaged, or truncated at every byte, and tensors of the wrong rank. state = (kind, sizes, channels, pixels)",
		Assumptions: []string{"nearest position: floor of position*source/target, exact or in double precision", "smooth scaling while loading may round to 16 bits per channel", "JPEG: to within 3/255 of what the encoder of the Go library makes of the image"},
	})
}

// flatImg is an image as the loader defines it: [channel][x][y] on 0..1.
func c20data[T types.Number](ch, w, h uint, f func(c, x, y uint) float64) RT[T] {
	r := newRT[T]([]uint{ch, w, h})
	for c := uint(0); c < ch; c++ {
		for x := uint(0); x < w; x++ {
			for y := uint(0); y < h; y++ {
				r.D[(c*w+x)*h+y] = T(f(c, x, y))
			}
		}
	}
	return r
}

func c20near[T types.Number](slack float64) func(a, b T) bool {
	return func(a, b T) bool {
		d := math.Abs(float64(a) - float64(b))
		return d <= slack+8*ulp[T]()
	}
}

func level(c, x, y, w, h, salt uint) uint {
	return ((c*w+x)*h+y)*7%256*31%256 ^ salt
}

func runC20(c *C) {
	c20round[float64](c)
	c20round[float32](c)
	c20jpeg[float64](c)
	c20jpeg[float32](c)
	c20files[float64](c)
	c20files[float32](c)
	c20scale[float64](c)
	c20scale[float32](c)
	c20scaleInt[int](c)
	c20scaleInt[int16](c)
	c20wide[float64](c)
	c20wide[float32](c)
	c20faults(c)
}

func c20path(name string) string { return filepath.Join(scratchDir, name) }

// decode reads a file without the library.
func c20decode(p string) image.Image {
	b, err := os.ReadFile(p)
	noErr("reading the saved file", err)
	m, _, err := image.Decode(bytes.NewReader(b))
	noErr("decoding the saved file", err)
	return m
}

func c20saved[T types.Number](c *C, w, h uint, lv func(ch, x, y uint) uint, conv func(v uint) T) {
	t := c20data[T](4, w, h, func(ch, x, y uint) float64 {
		if ch == 3 {
			return 1
		}
		return float64(conv(lv(ch, x, y)))
	})
	p := c20path("a.png")
	m := t.mat()
	noErr("PngSave", img.PngSave[T](m, p))
	want("the saved tensor", tensor.Tensor[T](m), t)
	d := c20decode(p)
	if d.Bounds().Dx() != int(w) || d.Bounds().Dy() != int(h) {
		Fail("saved %dx%d, the file is %v", w, h, d.Bounds())
	}
	im, err := img.ToImg[T](t.mat())
	noErr("ToImg", err)
	if im.Bounds().Dx() != int(w) || im.Bounds().Dy() != int(h) {
		Fail("ToImg of %dx%d has bounds %v", w, h, im.Bounds())
	}
	for x := uint(0); x < w; x++ {
		for y := uint(0); y < h; y++ {
			for k, s := range []image.Image{d, im} {
				o := s.Bounds().Min
				r, g, b, a := s.At(o.X+int(x), o.Y+int(y)).RGBA()
				wr, wg, wb := lv(0, x, y)*257, lv(1, x, y)*257, lv(2, x, y)*257
				if uint(r) != wr || uint(g) != wg || uint(b) != wb || a != 65535 {
					Fail("%s: pixel (%d,%d) is (%d,%d,%d,%d)/257, saved (%d,%d,%d,255)", []string{"file", "ToImg"}[k], x, y, r/257, g/257, b/257, a/257, wr/257, wg/257, wb/257)
				}
			}
		}
	}
	l, err := img.LoadImage[T](p)
	noErr("LoadImage", err)
	exp := c20data[T](4, w, h, func(ch, x, y uint) float64 {
		if ch == 3 {
			return 1
		}
		return float64(lv(ch, x, y)) / 255
	})
	if s := diff(l, exp, c20near[T](0)); s != "" {
		Fail("saved and loaded again: %s", s)
	}
	// loading and saving once more gives the same file
	q := c20path("b.png")
	noErr("PngSave", img.PngSave(l, q))
	l2, err := img.LoadImage[T](q)
	noErr("LoadImage", err)
	if s := diff(l2, RT[T]{l.GetShape(), l.GetData()}, eqv[T]); s != "" {
		Fail("loaded, saved and loaded: %s", s)
	}
	c.Step(4)
}

func c20round[T types.Number](c *C) {
	convs := []func(v uint) T{
		func(v uint) T { return T(float64(v) / 255) },
		func(v uint) T { return T(v) / T(255) },
		func(v uint) T { f := 1.0 / 255; return T(v) * T(f) },
		func(v uint) T { return T(float64(v*257) / 65535) },
	}
	max := uint(6)
	if c.Thorough {
		max = 12
	}
	for w := uint(1); w <= max; w++ {
		for h := uint(1); h <= max; h++ {
			for salt := uint(0); salt < 4; salt++ {
				if c.Out() || !c.Mine() {
					continue
				}
				lv := func(ch, x, y uint) uint { return level(ch, x, y, w, h, salt*85) }
				c.State("round", typeName[T](), w, h, salt)
				c.Do(func() string { return fmt.Sprintf("%s image %dx%d pattern %d", typeName[T](), w, h, salt) }, func() {
					c20saved(c, w, h, lv, convs[salt])
				})
			}
		}
	}
	for ch := uint(0); ch < 3; ch++ {
		for other := uint(0); other < 3; other++ {
			for k, conv := range convs {
				for _, turn := range []bool{false, true} {
					if c.Out() || !c.Mine() {
						continue
					}
					lv := func(d, x, y uint) uint {
						v := x*16 + y
						if turn {
							v = y*16 + x
						}
						if d == ch {
							return v
						}
						return other * 255 / 2
					}
					c.State("levels", typeName[T](), ch, other, k, turn)
					c.Do(func() string {
						return fmt.Sprintf("%s image 16x16, channel %d takes all levels, others %d, conversion %d, turned %v", typeName[T](), ch, other*255/2, k, turn)
					}, func() { c20saved(c, 16, 16, lv, conv) })
				}
			}
		}
	}
	// larger images
	for _, z := range [][2]uint{{1, 300}, {300, 1}, {257, 3}, {3, 257}, {64, 64}, {65, 33}, {40, 100}, {129, 130}, {8, 1025}} {
		for salt := uint(0); salt < 2; salt++ {
			if c.Out() || !c.Mine() {
				continue
			}
			w, h := z[0], z[1]
			lv := func(ch, x, y uint) uint { return (level(ch, x, y, w, h, salt*85) + x/16 + y/8*3) % 256 }
			c.State("round", typeName[T](), w, h, salt)
			c.Do(func() string { return fmt.Sprintf("%s image %dx%d pattern %d", typeName[T](), w, h, salt) }, func() {
				c20saved(c, w, h, lv, convs[salt])
			})
		}
	}
	// all pairs of levels of two channels, the third one fixed or following
	thirds := []func(a, b uint) uint{
		func(a, b uint) uint { return 0 }, func(a, b uint) uint { return 255 }, func(a, b uint) uint { return 128 },
		func(a, b uint) uint { return a }, func(a, b uint) uint { return b }, func(a, b uint) uint { return a ^ b }, func(a, b uint) uint { return 255 - a },
	}
	for k, third := range thirds {
		for rot := uint(0); rot < 3; rot++ {
			if c.Out() || !c.Mine() {
				continue
			}
			if !c.Thorough && rot > 0 && k < 3 {
				continue
			}
			k, third, rot := k, third, rot
			c.State("pairs", typeName[T](), k, rot)
			c.Do(func() string {
				return fmt.Sprintf("%s image 256x256 of all pairs of levels, channels from %d, third %d", typeName[T](), rot, k)
			}, func() {
				c20saved(c, 256, 256, func(ch, x, y uint) uint {
					switch (ch + rot) % 3 {
					case 0:
						return x
					case 1:
						return y
					}
					return third(x, y)
				}, convs[0])
			})
		}
	}
	// JPEG: uniform colours
	for _, s := range [][2]uint{{16, 16}, {8, 24}, {17, 9}} {
		for _, col := range [][3]float64{{0, 0, 0}, {1, 1, 1}, {0.5, 0.5, 0.5}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.8, 0.4, 0.2}} {
			if c.Out() || !c.Mine() {
				continue
			}
			c.State("jpg", typeName[T](), s, col)
			c.Do(func() string { return fmt.Sprintf("%s JPEG %v of colour %v", typeName[T](), s, col) }, func() {
				t := c20data[T](4, s[0], s[1], func(ch, x, y uint) float64 {
					if ch == 3 {
						return 1
					}
					return col[ch]
				})
				p := c20path("a.jpg")
				noErr("JpgSave", img.JpgSave[T](t.mat(), p, 100))
				l, err := img.LoadImage[T](p)
				noErr("LoadImage", err)
				if d := diff(l, t, c20near[T](0.05)); d != "" {
					Fail("saved and loaded again: %s", d)
				}
				c.Step(2)
			})
		}
	}
}

// c20jpeg: a JPEG file of a quality holds what the encoder makes of the image
// at that quality.
func c20jpeg[T types.Number](c *C) {
	for _, s := range [][2]uint{{1, 1}, {5, 3}, {16, 8}, {9, 17}, {33, 40}} {
		for q := 1; q <= 100; q++ {
			if c.Out() || !c.Mine() {
				continue
			}
			s, q := s, q
			c.State("jpg", typeName[T](), s, q)
			c.Do(func() string { return fmt.Sprintf("%s JPEG %v of quality %d", typeName[T](), s, q) }, func() {
				lv := func(ch, x, y uint) uint { return level(ch, x, y, s[0], s[1], uint(q)) & 255 }
				t := c20data[T](4, s[0], s[1], func(ch, x, y uint) float64 {
					if ch == 3 {
						return 1
					}
					return float64(lv(ch, x, y)) / 255
				})
				m := image.NewRGBA(image.Rect(0, 0, int(s[0]), int(s[1])))
				for x := uint(0); x < s[0]; x++ {
					for y := uint(0); y < s[1]; y++ {
						m.SetRGBA(int(x), int(y), color.RGBA{uint8(lv(0, x, y)), uint8(lv(1, x, y)), uint8(lv(2, x, y)), 255})
					}
				}
				var b bytes.Buffer
				noErr("jpeg", jpeg.Encode(&b, m, &jpeg.Options{Quality: q}))
				ref, err := jpeg.Decode(&b)
				noErr("jpeg", err)
				p := c20path("q.jpg")
				noErr("JpgSave", img.JpgSave[T](t.mat(), p, q))
				data, err := os.ReadFile(p)
				noErr("scratch file", err)
				got, err := jpeg.Decode(bytes.NewReader(data))
				if err != nil {
					Fail("the file is not a JPEG image: %v", err)
				}
				if got.Bounds() != ref.Bounds() {
					Fail("the saved image has the bounds %v", got.Bounds())
				}
				for x := range int(s[0]) {
					for y := range int(s[1]) {
						r1, g1, b1, _ := ref.At(x, y).RGBA()
						r2, g2, b2, _ := got.At(x, y).RGBA()
						for _, d := range []int{int(r1) - int(r2), int(g1) - int(g2), int(b1) - int(b2)} {
							if d > 3*257 || d < -3*257 {
								Fail("pixel %d, %d of the file is (%d, %d, %d), encoded at quality %d it is (%d, %d, %d)", x, y, r2>>8, g2>>8, b2>>8, q, r1>>8, g1>>8, b1>>8)
							}
						}
					}
				}
				l, err := img.LoadImage[T](p)
				noErr("LoadImage", err)
				want := c20data[T](4, s[0], s[1], func(ch, x, y uint) float64 {
					r, g, b, a := got.At(int(x), int(y)).RGBA()
					return float64([4]uint32{r, g, b, a}[ch]) / 65535
				})
				if d := diff(l, want, c20near[T](1e-6)); d != "" {
					Fail("loaded again: %s", d)
				}
				c.Step(3)
			})
		}
	}
}

// c20kinds writes a w x h image of every kind and says what each pixel is, as
// 16-bit alpha-premultiplied channels.
func c20kinds() []struct {
	name  string
	write func(p string, w, h int) func(x, y int) [4]uint32
} {
	type K = struct {
		name  string
		write func(p string, w, h int) func(x, y int) [4]uint32
	}
	lv := func(ch, x, y, w, h int) uint8 {
		return uint8(level(uint(ch), uint(x), uint(y), uint(w), uint(h), 0x5a))
	}
	save := func(p string, m image.Image) {
		f, err := os.Create(p)
		noErr("scratch file", err)
		defer f.Close()
		noErr("png", png.Encode(f, m))
	}
	rgb := func(w, h int) func(x, y int) [4]uint32 {
		return func(x, y int) [4]uint32 {
			return [4]uint32{uint32(lv(0, x, y, w, h)) * 257, uint32(lv(1, x, y, w, h)) * 257, uint32(lv(2, x, y, w, h)) * 257, 65535}
		}
	}
	each := func(w, h int, f func(x, y int)) {
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				f(x, y)
			}
		}
	}
	paletted := func(w, h int, at image.Point) *image.Paletted {
		var pal color.Palette
		each(w, h, func(x, y int) {
			pal = append(pal, color.RGBA{lv(0, x, y, w, h), lv(1, x, y, w, h), lv(2, x, y, w, h), 255})
		})
		m := image.NewPaletted(image.Rect(at.X, at.Y, at.X+w, at.Y+h), pal)
		each(w, h, func(x, y int) { m.SetColorIndex(at.X+x, at.Y+y, uint8(x*h+y)) })
		return m
	}
	viaJPEG := func(p string, m image.Image) func(x, y int) [4]uint32 {
		var b bytes.Buffer
		noErr("jpeg", jpeg.Encode(&b, m, &jpeg.Options{Quality: 90}))
		noErr("scratch file", os.WriteFile(p, b.Bytes(), 0o600))
		d, err := jpeg.Decode(&b)
		noErr("jpeg", err)
		return func(x, y int) [4]uint32 { r, g, b, a := d.At(x, y).RGBA(); return [4]uint32{r, g, b, a} }
	}
	return []K{
		{"JPEG", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewRGBA(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) {
				m.SetRGBA(x, y, color.RGBA{lv(0, x, y, w, h), lv(1, x, y, w, h), lv(2, x, y, w, h), 255})
			})
			return viaJPEG(p, m)
		}},
		{"grey JPEG", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewGray(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) { m.SetGray(x, y, color.Gray{lv(0, x, y, w, h)}) })
			return viaJPEG(p, m)
		}},
		{"RGBA", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewRGBA(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) {
				m.SetRGBA(x, y, color.RGBA{lv(0, x, y, w, h), lv(1, x, y, w, h), lv(2, x, y, w, h), 255})
			})
			save(p, m)
			return rgb(w, h)
		}},
		{"NRGBA", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewNRGBA(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) {
				m.SetNRGBA(x, y, color.NRGBA{lv(0, x, y, w, h), lv(1, x, y, w, h), lv(2, x, y, w, h), 255})
			})
			save(p, m)
			return rgb(w, h)
		}},
		{"Gray", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewGray(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) { m.SetGray(x, y, color.Gray{lv(0, x, y, w, h)}) })
			save(p, m)
			return func(x, y int) [4]uint32 { v := uint32(lv(0, x, y, w, h)) * 257; return [4]uint32{v, v, v, 65535} }
		}},
		{"Gray16", func(p string, w, h int) func(x, y int) [4]uint32 {
			v := func(x, y int) uint16 { return uint16(lv(0, x, y, w, h))<<8 | uint16(lv(1, x, y, w, h)) }
			m := image.NewGray16(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) { m.SetGray16(x, y, color.Gray16{v(x, y)}) })
			save(p, m)
			return func(x, y int) [4]uint32 { g := uint32(v(x, y)); return [4]uint32{g, g, g, 65535} }
		}},
		{"RGBA64", func(p string, w, h int) func(x, y int) [4]uint32 {
			v := func(ch, x, y int) uint16 { return uint16(lv(ch, x, y, w, h))<<8 | uint16(lv(ch+1, x, y, w, h)) }
			m := image.NewRGBA64(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) {
				m.SetRGBA64(x, y, color.RGBA64{v(0, x, y), v(1, x, y), v(2, x, y), 65535})
			})
			save(p, m)
			return func(x, y int) [4]uint32 {
				return [4]uint32{uint32(v(0, x, y)), uint32(v(1, x, y)), uint32(v(2, x, y)), 65535}
			}
		}},
		{"Paletted", func(p string, w, h int) func(x, y int) [4]uint32 {
			save(p, paletted(w, h, image.Point{}))
			return rgb(w, h)
		}},
		{"GIF", func(p string, w, h int) func(x, y int) [4]uint32 {
			f, err := os.Create(p)
			noErr("scratch file", err)
			defer f.Close()
			noErr("gif", gif.EncodeAll(f, &gif.GIF{Image: []*image.Paletted{paletted(w, h, image.Point{})}, Delay: []int{0}}))
			return rgb(w, h)
		}},
		{"GIF with an offset frame", func(p string, w, h int) func(x, y int) [4]uint32 {
			f, err := os.Create(p)
			noErr("scratch file", err)
			defer f.Close()
			m := paletted(w, h, image.Pt(2, 3))
			noErr("gif", gif.EncodeAll(f, &gif.GIF{Image: []*image.Paletted{m}, Delay: []int{0},
				Config: image.Config{ColorModel: m.Palette, Width: w + 2, Height: h + 3}}))
			return rgb(w, h)
		}},
		{"NRGBA with transparency", func(p string, w, h int) func(x, y int) [4]uint32 {
			px := func(x, y int) color.NRGBA {
				return color.NRGBA{lv(0, x, y, w, h), lv(1, x, y, w, h), lv(2, x, y, w, h), lv(3, x, y, w, h)}
			}
			m := image.NewNRGBA(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) { m.SetNRGBA(x, y, px(x, y)) })
			save(p, m)
			return nil // how transparency is combined with the colour is the library's choice
		}},
		{"NRGBA64 with transparency", func(p string, w, h int) func(x, y int) [4]uint32 {
			m := image.NewNRGBA64(image.Rect(0, 0, w, h))
			each(w, h, func(x, y int) {
				m.SetNRGBA64(x, y, color.NRGBA64{uint16(lv(0, x, y, w, h)) << 8, uint16(lv(1, x, y, w, h)) << 7, uint16(lv(2, x, y, w, h)) << 8, uint16(lv(3, x, y, w, h)) << 8})
			})
			save(p, m)
			return nil
		}},
	}
}

func c20files[T types.Number](c *C) {
	maxS, maxD := 4, uint(6)
	if c.Thorough {
		maxS, maxD = 7, 9
	}
	var sizes [][2]int
	for w := 1; w <= maxS; w++ {
		for h := 1; h <= maxS; h++ {
			sizes = append(sizes, [2]int{w, h})
		}
	}
	sizes = append(sizes, [2]int{16, 16}, [2]int{25, 10}, [2]int{3, 80}, [2]int{250, 1})
	for _, k := range c20kinds() {
		for _, z := range sizes {
			{
				w, h := z[0], z[1]
				if c.Out() || !c.Mine() {
					continue
				}
				maxD := maxD
				if w*h > 100 {
					maxD = 3
				}
				c.State("file", typeName[T](), k.name, w, h)
				c.Do(func() string { return fmt.Sprintf("%s, %s file %dx%d", typeName[T](), k.name, w, h) }, func() {
					p := c20path("f.img")
					px := k.write(p, w, h)
					l, err := img.LoadImage[T](p)
					noErr("LoadImage", err)
					if s := []uint{4, uint(w), uint(h)}; !sameShape(l.GetShape(), s) {
						Fail("LoadImage has shape %v, want %v", l.GetShape(), s)
					}
					if px != nil {
						exp := c20data[T](4, uint(w), uint(h), func(ch, x, y uint) float64 { return float64(px(int(x), int(y))[ch]) / 65535 })
						if s := diff(l, exp, c20near[T](0)); s != "" {
							Fail("LoadImage: %s", s)
						}
					}
					src := RT[T]{l.GetShape(), l.GetData()}
					for dw := uint(1); dw <= maxD; dw++ {
						for dh := uint(1); dh <= maxD; dh++ {
							a, err := img.LoadSimpleScaled[T](p, dw, dh)
							noErr("LoadSimpleScaled", err)
							what := fmt.Sprintf("to %dx%d", dw, dh)
							c20nearest(what+" LoadSimpleScaled", src, a, dw, dh, c20near[T](0))
							b, err := img.SimpleScale(l, dw, dh)
							noErr("SimpleScale", err)
							if s := diff(a, RT[T]{b.GetShape(), b.GetData()}, c20near[T](0)); s != "" {
								Fail("%s: LoadSimpleScaled differs from LoadImage, SimpleScale: %s", what, s)
							}
							a, err = img.LoadSmoothScaled[T](p, dw, dh)
							noErr("LoadSmoothScaled", err)
							c20bilinear(what+" LoadSmoothScaled", src, a, dw, dh, 1.01/65535)
							b, err = img.SmoothScale(l, dw, dh)
							noErr("SmoothScale", err)
							if s := diff(a, RT[T]{b.GetShape(), b.GetData()}, c20near[T](1.01/65535)); s != "" {
								Fail("%s: LoadSmoothScaled differs from LoadImage, SmoothScale: %s", what, s)
							}
							c.Step(4)
							c.State("file", typeName[T](), k.name, w, h, dw, dh)
						}
					}
				})
			}
		}
	}
}

// c20wide: files whose length needs more digits than single precision has to
// spare.
func c20wide[T types.Number](c *C) {
	for _, z := range [][4]int{{6001, 1, 5999, 1}, {1, 6001, 1, 5999}, {5003, 1, 17, 2}, {1, 5003, 2, 17}, {97, 1, 7001, 1}, {1, 97, 1, 7001}, {9001, 1, 4500, 1}, {300, 7, 257, 11}, {7, 300, 11, 257}, {4001, 1, 4003, 1}, {1, 4001, 1, 4003}} {
		if c.Out() || !c.Mine() {
			continue
		}
		z := z
		c.Do(func() string {
			return fmt.Sprintf("%s, file of %dx%d loaded as %dx%d", typeName[T](), z[0], z[1], z[2], z[3])
		}, func() {
			m := image.NewNRGBA64(image.Rect(0, 0, z[0], z[1]))
			for x := 0; x < z[0]; x++ {
				for y := 0; y < z[1]; y++ {
					k := x*z[1] + y
					m.SetNRGBA64(x, y, color.NRGBA64{uint16(k * 7), uint16(k * 31), uint16(k*k + 5), 65535})
				}
			}
			p := c20path("wide.png")
			f, err := os.Create(p)
			noErr("scratch file", err)
			noErr("png", png.Encode(f, m))
			noErr("scratch file", f.Close())
			defer os.Remove(p)
			l, err := img.LoadImage[T](p)
			noErr("LoadImage", err)
			src := RT[T]{l.GetShape(), l.GetData()}
			exp := c20data[T](4, uint(z[0]), uint(z[1]), func(ch, x, y uint) float64 {
				r, g, b, a := m.At(int(x), int(y)).RGBA()
				return float64([]uint32{r, g, b, a}[ch]) / 65535
			})
			if s := diff(l, exp, c20near[T](0)); s != "" {
				Fail("LoadImage: %s", s)
			}
			w, h := uint(z[2]), uint(z[3])
			a, err := img.LoadSimpleScaled[T](p, w, h)
			noErr("LoadSimpleScaled", err)
			c20nearest("LoadSimpleScaled", src, a, w, h, c20near[T](0))
			a, err = img.SimpleScale(l, w, h)
			noErr("SimpleScale", err)
			c20nearest("SimpleScale", src, a, w, h, eqv[T])
			a, err = img.LoadSmoothScaled[T](p, w, h)
			noErr("LoadSmoothScaled", err)
			c20bilinear("LoadSmoothScaled", src, a, w, h, 1.01/65535)
			a, err = img.SmoothScale(l, w, h)
			noErr("SmoothScale", err)
			c20bilinear("SmoothScale", src, a, w, h, 0)
			c.Step(5)
			c.State("wide", typeName[T](), z)
		})
	}
}

// c20nearest decides nearest scaling of src.
func c20nearest[T types.Number](what string, src RT[T], got tensor.Tensor[T], w, h uint, eq func(a, b T) bool) {
	if s := []uint{src.S[0], w, h}; !sameShape(got.GetShape(), s) {
		Fail("%s has shape %v, want %v", what, got.GetShape(), s)
	}
	pos := func(i, from, to uint) [2]uint {
		e := i * from / to
		f := uint(float64(i) * (float64(from) / float64(to)))
		return [2]uint{e, f}
	}
	for x := uint(0); x < w; x++ {
		for y := uint(0); y < h; y++ {
			for ch := uint(0); ch < src.S[0]; ch++ {
				v, err := got.Get(ch, x, y)
				noErr("Get", err)
				ok := false
				for _, px := range pos(x, src.S[1], w) {
					for _, py := range pos(y, src.S[2], h) {
						ok = ok || eq(v, src.at([]uint{ch, px, py}))
					}
				}
				if !ok {
					Fail("%s: element [%d,%d,%d] is %v, the source pixel (%d,%d) is %v (source %v: %s)", what, ch, x, y, v,
						x*src.S[1]/w, y*src.S[2]/h, src.at([]uint{ch, x * src.S[1] / w, y * src.S[2] / h}), src.S, short(src.D))
				}
			}
		}
	}
}

// c20bilinear decides smooth scaling of src.
func c20bilinear[T types.Number](what string, src RT[T], got tensor.Tensor[T], w, h uint, slack float64) {
	if s := []uint{src.S[0], w, h}; !sameShape(got.GetShape(), s) {
		Fail("%s has shape %v, want %v", what, got.GetShape(), s)
	}
	split := func(i, from, to uint) (a, b uint, d float64) {
		a = i * from / to
		d = float64(i*from%to) / float64(to)
		b = a + 1
		if b >= from {
			b = a
		}
		return
	}
	scale := 0.0
	for _, v := range src.D {
		scale = math.Max(scale, math.Abs(float64(v)))
	}
	for x := uint(0); x < w; x++ {
		x0, x1, dx := split(x, src.S[1], w)
		for y := uint(0); y < h; y++ {
			y0, y1, dy := split(y, src.S[2], h)
			for ch := uint(0); ch < src.S[0]; ch++ {
				v, err := got.Get(ch, x, y)
				noErr("Get", err)
				f := func(a, b uint) float64 { return float64(src.at([]uint{ch, a, b})) }
				e := (1-dx)*((1-dy)*f(x0, y0)+dy*f(x0, y1)) + dx*((1-dy)*f(x1, y0)+dy*f(x1, y1))
				if d := math.Abs(float64(v) - e); !(d <= slack+scale*(16*ulp[T]()+1e-13*float64(w+h))) {
					Fail("%s: element [%d,%d,%d] is %v, interpolated %v (source %v: %s)", what, ch, x, y, v, e, src.S, short(src.D))
				}
			}
		}
	}
}

func c20src[T types.Number](ch, w, h uint) RT[T] {
	n := int(ch * w * h)
	return c20data[T](ch, w, h, func(c, x, y uint) float64 {
		k := int((c*w+x)*h + y)
		return (float64(k*37%n) + 0.5*float64(k%2)) / float64(n) * 2
	})
}

func c20scale[T types.Number](c *C) {
	one := func(ch, w, h, dw, dh uint) {
		src := c20src[T](ch, w, h)
		m := src.mat()
		c.State("scale", typeName[T](), ch, w, h, dw, dh)
		what := fmt.Sprintf("%dx%dx%d to %dx%d", ch, w, h, dw, dh)
		a, err := img.SimpleScale[T](m, dw, dh)
		noErr(what+" SimpleScale", err)
		c20nearest(what+" SimpleScale", src, a, dw, dh, eqv[T])
		b, err := img.SmoothScale[T](m, dw, dh)
		noErr(what+" SmoothScale", err)
		c20bilinear(what+" SmoothScale", src, b, dw, dh, 0)
		want(what+": the source", tensor.Tensor[T](m), src)
		c.Step(2)
	}
	for w := uint(1); w <= 5; w++ {
		for h := uint(1); h <= 5; h++ {
			for ch := uint(1); ch <= 5; ch++ {
				if c.Out() || !c.Mine() {
					continue
				}
				c.Do(func() string { return fmt.Sprintf("%s scaling", typeName[T]()) }, func() {
					for dw := uint(1); dw <= 7; dw++ {
						for dh := uint(1); dh <= 7; dh++ {
							one(ch, w, h, dw, dh)
						}
					}
				})
			}
		}
	}
	for _, z := range [][5]uint{{3, 31, 17, 64, 48}, {1, 100, 60, 33, 90}, {2, 2, 2, 130, 70}, {4, 64, 64, 32, 32}, {4, 64, 64, 16, 128}, {1, 300, 2, 100, 3},
		{2, 2, 300, 3, 257}, {3, 257, 5, 300, 4}, {7, 9, 8, 20, 21}, {16, 3, 4, 5, 7}, {33, 2, 3, 3, 2}, {3, 128, 128, 28, 28}, {3, 28, 28, 128, 128}, {1, 1, 1, 257, 300}, {4, 300, 200, 1, 1}} {
		if c.Out() || !c.Mine() {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("%s scaling larger images", typeName[T]()) }, func() { one(z[0], z[1], z[2], z[3], z[4]) })
	}
	// other values: negative, large, zero, equal
	for k := 0; k < 5; k++ {
		if c.Out() || !c.Mine() {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("%s scaling values %d", typeName[T](), k) }, func() {
			for _, z := range [][5]uint{{2, 3, 4, 5, 7}, {2, 5, 7, 3, 4}, {1, 4, 4, 2, 2}, {3, 2, 2, 4, 4}, {1, 3, 3, 3, 3}} {
				src := c20data[T](z[0], z[1], z[2], func(ch, x, y uint) float64 {
					v := float64((x*5+y*3+ch*7)%11) - 5
					return []float64{v, v * 1000, 0, -3, v * 1e-6}[k]
				})
				what := fmt.Sprintf("%v", z)
				a, err := img.SimpleScale[T](src.mat(), z[3], z[4])
				noErr(what+" SimpleScale", err)
				c20nearest(what+" SimpleScale", src, a, z[3], z[4], eqv[T])
				b, err := img.SmoothScale[T](src.mat(), z[3], z[4])
				noErr(what+" SmoothScale", err)
				c20bilinear(what+" SmoothScale", src, b, z[3], z[4], 0)
				c.Step(2)
			}
		})
	}
	max := uint(40)
	if c.Thorough {
		max = 96
	}
	for n := uint(1); n <= max; n++ {
		if c.Out() || !c.Mine() {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("%s scaling one axis", typeName[T]()) }, func() {
			for d := uint(1); d <= max; d++ {
				one(2, n, 2, d, 2)
				one(2, 2, n, 3, d)
			}
		})
	}
}

// c20scaleInt: nearest scaling moves elements of any type unchanged.
func c20scaleInt[T types.Number](c *C) {
	for w := uint(1); w <= 4; w++ {
		for h := uint(1); h <= 4; h++ {
			if c.Out() || !c.Mine() {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("%s scaling %dx%d", typeName[T](), w, h) }, func() {
				src := c20data[T](3, w, h, func(ch, x, y uint) float64 { return float64((ch*w+x)*h+y) * 300 })
				for dw := uint(1); dw <= 6; dw++ {
					for dh := uint(1); dh <= 6; dh++ {
						c.State("int", typeName[T](), w, h, dw, dh)
						a, err := img.SimpleScale[T](src.mat(), dw, dh)
						noErr("SimpleScale", err)
						c20nearest("SimpleScale", src, a, dw, dh, eqv[T])
						c.Step(1)
					}
				}
			})
		}
	}
}

func c20faults(c *C) {
	if c.shard != 0 {
		return
	}
	loads := []struct {
		name string
		f    func(p string) error
	}{
		{"LoadImage", func(p string) error { _, err := img.LoadImage[float32](p); return err }},
		{"LoadSimpleScaled", func(p string) error { _, err := img.LoadSimpleScaled[float32](p, 3, 2); return err }},
		{"LoadSmoothScaled", func(p string) error { _, err := img.LoadSmoothScaled[float32](p, 3, 2); return err }},
	}
	good := c20path("good.png")
	t := c20src[float32](4, 3, 4)
	c.Do(func() string { return "fault injection: saving" }, func() {
		noErr("PngSave", img.PngSave[float32](t.mat(), good))
		for _, p := range []string{c20path("no-such-dir/a.png"), "/dev/full"} {
			if img.PngSave[float32](t.mat(), p) == nil {
				Fail("PngSave to %s reports no error", p)
			}
			if img.JpgSave[float32](t.mat(), p, 90) == nil {
				Fail("JpgSave to %s reports no error", p)
			}
			c.Step(2)
		}
		for _, s := range [][]uint{{4}, {4, 3}, {4, 3, 2, 2}, {1, 3, 3}, {2, 2, 2}} {
			c.State("bad image", s)
			m := newRT[float32](s).mat()
			if _, err := img.ToImg[float32](m); err == nil {
				Fail("ToImg of a tensor of shape %v reports no error", s)
			}
			if img.PngSave[float32](m, c20path("bad.png")) == nil {
				Fail("PngSave of a tensor of shape %v reports no error", s)
			}
			if len(s) != 3 {
				if _, err := img.SimpleScale[float32](m, 2, 2); err == nil {
					Fail("SimpleScale of a tensor of shape %v reports no error", s)
				}
				if _, err := img.SmoothScale[float32](m, 2, 2); err == nil {
					Fail("SmoothScale of a tensor of shape %v reports no error", s)
				}
			}
			c.Step(4)
		}
	})
	b, err := os.ReadFile(good)
	if err != nil {
		return
	}
	for _, l := range loads {
		c.Do(func() string { return "fault injection: " + l.name }, func() {
			if l.f(c20path("missing.png")) == nil {
				Fail("a missing file is loaded without an error")
			}
			p := c20path("cut.png")
			for n := 0; n < len(b); n++ {
				os.WriteFile(p, b[:n], 0o644)
				c.State("cut", l.name, n)
				c.Step(1)
				_, _, ref := image.Decode(bytes.NewReader(b[:n]))
				if err := l.f(p); (err == nil) != (ref == nil) {
					Fail("file truncated to %d of %d bytes: error %v, the decoder says %v", n, len(b), err, ref)
				}
			}
			for n := 0; n < len(b); n++ {
				bad := append([]byte{}, b...)
				bad[n] ^= 0x41
				os.WriteFile(p, bad, 0o644)
				c.State("damaged", l.name, n)
				c.Step(1)
				_, _, ref := image.Decode(bytes.NewReader(bad))
				if err := l.f(p); ref != nil && err == nil {
					Fail("file damaged at byte %d: no error, the decoder says %v", n, ref)
				}
			}
		})
	}
}
