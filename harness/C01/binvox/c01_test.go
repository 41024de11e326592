package binvox

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

var c01File = filepath.Join(os.Getenv("VERIF_SCRATCH"), "c01.binvox")

type c01Win struct{ sx, sy, sz, cx, cy, cz int }

// c01Oracle decodes run data as the property describes it.
func c01Oracle(data []byte, nx, ny, nz int, w c01Win) (map[Key]bool, bool) {
	up := func(n, c int) int {
		if c == 0 || c > n {
			return n
		}
		return c
	}
	ex, ey, ez := w.sx+up(nx, w.cx), w.sy+up(ny, w.cy), w.sz+up(nz, w.cz)
	set := map[Key]bool{}
	if len(data)%2 != 0 {
		return nil, false
	}
	cell := 0
	for j := 0; j < len(data); j += 2 {
		v, n := data[j], int(data[j+1])
		if v > 1 || n == 0 {
			return nil, false
		}
		for ; n > 0; n-- {
			if cell >= nx*ny*nz {
				return nil, false
			}
			x, y, z := cell/(ny*nz), cell%ny, cell/ny%nz
			if v == 1 && x >= w.sx && x < ex && y >= w.sy && y < ey && z >= w.sz && z < ez {
				set[Key{x, y, z}] = true
			}
			cell++
		}
	}
	return set, true
}

func c01Check(key string, data []byte, nx, ny, nz int, tr [4]string, want [4]float64, w c01Win) {
	desc := fmt.Sprintf("dim %v %v %v window %+v translate %v data %v", nx, ny, nz, w, tr, data)
	vCase("read "+key, len(data) == 0, desc)
	text := fmt.Sprintf("#binvox 1\ndim %v %v %v\ntranslate %v %v %v\nscale %v\ndata\n", nx, ny, nz, tr[0], tr[1], tr[2], tr[3])
	if err := os.WriteFile(c01File, append([]byte(text), data...), 0644); err != nil {
		panic(err)
	}
	vTry("read", desc, func() {
		set, ok := c01Oracle(data, nx, ny, nz, w)
		b, err := Read(c01File, w.sx, w.sy, w.sz, w.cx, w.cy, w.cz)
		if !ok {
			if err == nil {
				vFail("accepted", "%v: malformed run data was not rejected", desc)
			}
			return
		}
		if err != nil {
			vFail("rejected", "%v: well-formed data was rejected: %v", desc, err)
			return
		}
		if b.NX != nx || b.NY != ny || b.NZ != nz || b.TX != want[0] || b.TY != want[1] || b.TZ != want[2] || b.Scale != want[3] {
			vFail("header", "%v: read %v %v %v, %v %v %v, %v", desc, b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale)
		}
		for k := range set {
			if _, ok := b.WhiteVoxels[k]; !ok {
				vFail("missing", "%v: voxel %v is missing", desc, k)
				break
			}
		}
		for k := range b.WhiteVoxels {
			if !set[k] {
				vFail("extra", "%v: voxel %v is not in the data or not in the window", desc, k)
				break
			}
		}
	})
}

var (
	c01Tr   = [4]string{"1.5", "-2", "3e2", "0.125"}
	c01Want = [4]float64{1.5, -2, 300, 0.125}
)

// TestVerifC01Streams reads every short byte stream for small grids.
func TestVerifC01Streams(t *testing.T) {
	log.SetOutput(io.Discard)
	alphabet := []byte{0, 1, 2, 3, 4, 255}
	var streams [][]byte
	var gen func(p []byte, n int)
	gen = func(p []byte, n int) {
		streams = append(streams, append([]byte(nil), p...))
		if n == 0 {
			return
		}
		for _, a := range alphabet {
			gen(append(p, a), n-1)
		}
	}
	gen(nil, 5)
	for _, d := range [][3]int{{1, 2, 3}, {2, 3, 1}} {
		for i, s := range streams {
			w := c01Win{}
			if i%3 == 1 {
				w = c01Win{0, 1, 0, 1, 1, 2}
			}
			c01Check("every short stream", s, d[0], d[1], d[2], c01Tr, c01Want, w)
		}
	}
	vExhaustive("byte streams of length up to 5 over {0, 1, 2, 3, 4, 255} on two small grids")
}

// TestVerifC01Windows reads a full small grid through every window.
func TestVerifC01Windows(t *testing.T) {
	log.SetOutput(io.Discard)
	const nx, ny, nz = 2, 3, 2
	for sx := 0; sx <= nx; sx++ {
		for sy := 0; sy <= ny; sy++ {
			for sz := 0; sz <= nz; sz++ {
				for cx := 0; cx <= nx+1; cx++ {
					for cy := 0; cy <= ny+1; cy++ {
						for cz := 0; cz <= nz+1; cz++ {
							c01Check("every window", []byte{1, nx * ny * nz}, nx, ny, nz, c01Tr, c01Want, c01Win{sx, sy, sz, cx, cy, cz})
						}
					}
				}
			}
		}
	}
	vExhaustive("windows of a 2 x 3 x 2 grid")
}

func TestVerifC01Random(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(101)
	for i := 0; i < vN(1500); i++ {
		nx, ny, nz := 1+r.Intn(9), 1+r.Intn(9), 1+r.Intn(9)
		switch r.Intn(6) {
		case 0:
			nx = 1 + r.Intn(300)
		case 1:
			ny = 1 + r.Intn(300)
		case 2:
			nz = 1 + r.Intn(300)
		}
		left := nx * ny * nz
		var data []byte
		stop := 0
		if r.Intn(4) == 0 {
			stop = r.Intn(left)
		}
		last := r.Intn(2)
		for left > stop && len(data) < 20000 {
			n := 1 + r.Intn(12)
			if r.Intn(3) == 0 {
				n = []int{255, 254, 128, 127, 1, ny, ny * nz}[r.Intn(7)]
			}
			if n > 255 {
				n = 255
			}
			if n > left {
				n = left
			}
			if r.Intn(5) > 0 {
				last = 1 - last
			}
			data = append(data, byte(last), byte(n))
			left -= n
		}
		switch r.Intn(10) {
		case 0: // too many cells, if the grid is full
			data = append(data, byte(r.Intn(2)), 1)
		case 1:
			data = append(data, byte(r.Intn(2)))
		case 2:
			data[2*r.Intn(len(data)/2)] = byte(2 + r.Intn(254))
		case 3:
			data[2*r.Intn(len(data)/2)+1] = 0
		case 4:
			data = data[:r.Intn(len(data)+1)]
		case 5:
			data = append(data, byte(r.Intn(2)), 255)
		}
		w := c01Win{}
		if r.Intn(2) == 0 {
			w = c01Win{r.Intn(nx + 1), r.Intn(ny + 1), r.Intn(nz + 1), r.Intn(nx + 2), r.Intn(ny + 2), r.Intn(nz + 2)}
		}
		var tr [4]string
		var want [4]float64
		for j := range tr {
			want[j] = (r.Float64() - 0.5) * []float64{1, 1e3, 1e-7, 1e21}[r.Intn(4)]
			tr[j] = fmt.Sprintf("%g", want[j])
		}
		c01Check("random", data, nx, ny, nz, tr, want, w)
	}
}
