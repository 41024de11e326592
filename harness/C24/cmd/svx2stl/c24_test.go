package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"os"
	"path/filepath"
	"testing"

	"github.com/gmlewis/stldice/v4/binvox"
)

// images of several kinds with given grey values, at any bounds
func vImage(kind int, b image.Rectangle, g func(x, y int) uint8) image.Image {
	switch kind {
	case 0:
		m := image.NewGray(b)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				m.SetGray(x, y, color.Gray{Y: g(x, y)})
			}
		}
		return m
	case 1:
		m := image.NewNRGBA(b)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				v := g(x, y)
				m.SetNRGBA(x, y, color.NRGBA{v, v, v, 255})
			}
		}
		return m
	case 2:
		m := image.NewGray16(b)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				m.SetGray16(x, y, color.Gray16{Y: uint16(g(x, y)) << 8})
			}
		}
		return m
	case 3: // 256 greys
		var p color.Palette
		for i := 0; i < 256; i++ {
			p = append(p, color.Gray{Y: uint8(i)})
		}
		m := image.NewPaletted(b, p)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				m.SetColorIndex(x, y, g(x, y))
			}
		}
		return m
	}
	// part of a bigger image
	big := image.NewGray(b.Inset(-3))
	for y := big.Rect.Min.Y; y < big.Rect.Max.Y; y++ {
		for x := big.Rect.Min.X; x < big.Rect.Max.X; x++ {
			v := uint8(255)
			if (image.Point{X: x, Y: y}).In(b) {
				v = g(x, y)
			}
			big.SetGray(x, y, color.Gray{Y: v})
		}
	}
	return big.SubImage(b)
}

func TestVerifScan(t *testing.T) {
	r := vRand(1)
	for it := 0; it < vN(200); it++ {
		w, h := 1+r.Intn(20), 1+r.Intn(20)
		if it%10 == 0 {
			w, h = 1+r.Intn(300), 1+r.Intn(3)
		} else if it%10 == 1 {
			w, h = 1+r.Intn(3), 1+r.Intn(300)
		}
		if it%17 == 0 {
			h = 0
		}
		x0, y0 := r.Intn(9)-4, r.Intn(9)-4
		if it%3 == 0 {
			x0, y0 = 0, 0
		}
		b := image.Rect(x0, y0, x0+w, y0+h)
		vals := map[[2]int]uint8{}
		mode := r.Intn(3)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				v := uint8(r.Intn(256))
				if mode == 1 {
					v = []uint8{0, 127, 128, 129, 126, 255}[r.Intn(6)]
				} else if mode == 2 {
					v = []uint8{0, 255}[r.Intn(2)]
				}
				vals[[2]int{x, y}] = v
			}
		}
		g := func(x, y int) uint8 { return vals[[2]int{x, y}] }
		z := r.Intn(400)
		m := &binvox.BinVOX{NX: w, NY: h, NZ: 400, Scale: 1, WhiteVoxels: binvox.WhiteVoxelMap{}}
		before := map[binvox.Key]bool{}
		for i := 0; i < 50; i++ {
			k := binvox.Key{X: r.Intn(w + 5), Y: r.Intn(h + 5), Z: r.Intn(400)}
			before[k] = true
			m.WhiteVoxels[k] = struct{}{}
		}
		kind := r.Intn(5)
		desc := fmt.Sprintf("case %d: image kind %d, bounds %v, z=%d", it, kind, b, z)
		scanImage(vImage(kind, b, g), m, z)
		n := 0
		want := map[binvox.Key]bool{}
		for k := range before {
			want[k] = true
		}
		for p, v := range vals {
			if v >= 128 {
				want[binvox.Key{X: p[0], Y: p[1], Z: z}] = true
				n++
			}
		}
		for k := range want {
			if _, ok := m.WhiteVoxels[k]; !ok {
				vFail("missing", "%s: voxel %v (grey %d) is missing", desc, k, g(k.X, k.Y))
			}
		}
		for k := range m.WhiteVoxels {
			if !want[k] {
				vFail("extra", "%s: voxel %v (grey %d) was added", desc, k, g(k.X, k.Y))
			}
		}
		vCase("images with dense and empty pixels", n == 0 || n == len(vals), desc)
	}
}

func TestVerifFile(t *testing.T) {
	r := vRand(2)
	dir := os.Getenv("VERIF_SCRATCH")
	for it := 0; it < vN(12); it++ {
		nx, ny, nz := 1+r.Intn(12), 1+r.Intn(12), 1+r.Intn(12)
		if it == 0 {
			nz = 40
		}
		format := []string{"density/slice%04d.png", "s%d.png", "slices/out%05d.png"}[r.Intn(3)]
		name := filepath.Join(dir, fmt.Sprintf("c24-%d.svx", it))
		want := map[binvox.Key]bool{}
		var buf bytes.Buffer
		zw := zip.NewWriter(&buf)
		f, _ := zw.Create("manifest.xml")
		fmt.Fprintf(f, `<?xml version="1.0"?><grid version="1.0" gridSizeX="%d" gridSizeY="%d" gridSizeZ="%d" voxelSize="0.0002" subvoxelBits="8" slicesOrientation="Z"><channels><channel type="DENSITY" bits="8" slices="%s"/></channels></grid>`, nx, ny, nz, format)
		order := r.Perm(nz)
		for _, z := range order {
			m := vImage(r.Intn(4), image.Rect(0, 0, nx, ny), func(x, y int) uint8 {
				k := binvox.Key{X: x, Y: y, Z: z}
				if r.Intn(2) == 0 {
					want[k] = true
					return uint8(128 + r.Intn(128))
				}
				delete(want, k)
				return uint8(r.Intn(128))
			})
			f, _ := zw.Create(fmt.Sprintf(format, z))
			png.Encode(f, m)
		}
		zw.Close()
		if err := os.WriteFile(name, buf.Bytes(), 0o600); err != nil {
			t.Fatal(err)
		}
		desc := fmt.Sprintf("case %d: %dx%dx%d, slices %q in order %v", it, nx, ny, nz, format, order)
		m, err := read(name)
		os.Remove(name)
		if err != nil || m == nil {
			vFail("file", "%s: error %v", desc, err)
			continue
		}
		for k := range want {
			if _, ok := m.WhiteVoxels[k]; !ok {
				vFail("file", "%s: voxel %v is missing", desc, k)
			}
		}
		for k := range m.WhiteVoxels {
			if !want[k] {
				vFail("file", "%s: voxel %v was added", desc, k)
			}
		}
		vCase("files with several slices", len(want) == 0 || nz == 1, desc)
	}
}

func TestVerifColor(t *testing.T) {
	r := vRand(3)
	for it := 0; it < vN(100); it++ {
		w, h := 1+r.Intn(12), 1+r.Intn(12)
		b := image.Rect(0, 0, w, h)
		rgba, nrgba, n64, cmyk := image.NewRGBA(b), image.NewNRGBA(b), image.NewNRGBA64(b), image.NewCMYK(b)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := color.NRGBA64{uint16(r.Intn(65536)), uint16(r.Intn(65536)), uint16(r.Intn(65536)), 65535}
				switch r.Intn(4) {
				case 0:
					c.A = uint16(r.Intn(65536))
				case 1:
					c = color.NRGBA64{65535, 65535, 65535, uint16(r.Intn(65536))}
				case 2:
					v := uint16(32700 + r.Intn(400))
					c = color.NRGBA64{v, v, v, 65535}
				}
				rgba.Set(x, y, c)
				nrgba.Set(x, y, c)
				n64.Set(x, y, c)
				cmyk.Set(x, y, c)
			}
		}
		k := r.Intn(4)
		img := []image.Image{rgba, nrgba, n64, cmyk}[k]
		m := &binvox.BinVOX{NX: w, NY: h, NZ: 5, Scale: 1, WhiteVoxels: binvox.WhiteVoxelMap{}}
		desc := fmt.Sprintf("colour case %d: image kind %d, %dx%d", it, k, w, h)
		scanImage(img, m, 3)
		n := 0
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				// luminance as the standard library defines it
				cr, cg, cb, _ := img.At(x, y).RGBA()
				grey := (19595*cr + 38470*cg + 7471*cb + 1<<15) >> 24
				_, ok := m.WhiteVoxels[binvox.Key{X: x, Y: y, Z: 3}]
				if ok != (grey >= 128) {
					vFail("colour", "%s: pixel (%d,%d) = %v of grey value %d, dense %v", desc, x, y, img.At(x, y), grey, ok)
				}
				if ok {
					n++
				}
			}
		}
		if len(m.WhiteVoxels) != n {
			vFail("colour", "%s: %d voxels besides the image's", desc, len(m.WhiteVoxels)-n)
		}
		vCase("colour images with dense and empty pixels", n == 0 || n == w*h, desc)
	}
}
