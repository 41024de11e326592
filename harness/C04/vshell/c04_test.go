package vshell

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

var c04File = filepath.Join(os.Getenv("VERIF_SCRATCH"), "c04.vsh")

type c04Win struct{ sx, sy, sz, cx, cy, cz int }

// c04Oracle decodes run data as the property describes it.
func c04Oracle(data []byte, nx, ny, nz int, w c04Win) (map[VShVoxel]bool, bool) {
	up := func(n, c int) int {
		if c == 0 || c > n {
			return n
		}
		return c
	}
	ex, ey, ez := w.sx+up(nx, w.cx), w.sy+up(ny, w.cy), w.sz+up(nz, w.cz)
	set := map[VShVoxel]bool{}
	cell := 0
	for len(data) > 0 {
		if len(data) < 4 {
			return nil, false
		}
		v := binary.LittleEndian.Uint32(data)
		data = data[4:]
		n := 0
		if v == 0 || v == 0xffffffff {
			if len(data) < 2 {
				return nil, false
			}
			n = int(binary.LittleEndian.Uint16(data))
			data = data[2:]
		} else {
			if len(data) < 1 || data[0] == 0 {
				return nil, false
			}
			n = int(data[0])
			data = data[1:]
		}
		for ; n > 0; n-- {
			if cell >= nx*ny*nz {
				return nil, false
			}
			x, y, z := cell/(ny*nz), cell%ny, cell/ny%nz
			if v != 0 && v != 0xffffffff && x >= w.sx && x < ex && y >= w.sy && y < ey && z >= w.sz && z < ez {
				set[VShVoxel{x, y, z, NeighborBitMap(v)}] = true
			}
			cell++
		}
	}
	return set, true
}

func c04Check(key string, data []byte, nx, ny, nz int, tr [4]string, want [4]float64, w c04Win) {
	desc := fmt.Sprintf("dim %v %v %v window %+v translate %v data %v", nx, ny, nz, w, tr, data)
	vCase("read "+key, len(data) == 0, desc)
	text := fmt.Sprintf("#vshell 1\ndim %v %v %v\ntranslate %v %v %v\nscale %v\ndata\n", nx, ny, nz, tr[0], tr[1], tr[2], tr[3])
	if err := os.WriteFile(c04File, append([]byte(text), data...), 0644); err != nil {
		panic(err)
	}
	vTry("read", desc, func() {
		set, ok := c04Oracle(data, nx, ny, nz, w)
		b, err := Read(c04File, w.sx, w.sy, w.sz, w.cx, w.cy, w.cz)
		if !ok {
			if err == nil {
				vFail("accepted", "%v: malformed run data was not rejected", desc)
			}
			return
		}
		if err != nil {
			vFail("rejected", "%v: well-formed data was rejected: %v", desc, err)
			return
		}
		if b.NX != nx || b.NY != ny || b.NZ != nz || b.TX != want[0] || b.TY != want[1] || b.TZ != want[2] || b.Scale != want[3] {
			vFail("header", "%v: read %v %v %v, %v %v %v, %v", desc, b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale)
		}
		seen := map[VShVoxel]bool{}
		for _, v := range b.Voxels {
			if !set[v] {
				vFail("extra", "%v: voxel %v is not in the data or not in the window", desc, v)
				break
			}
			if seen[v] {
				vFail("twice", "%v: voxel %v is reported twice", desc, v)
				break
			}
			seen[v] = true
		}
		for v := range set {
			if !seen[v] {
				vFail("missing", "%v: voxel %v is missing", desc, v)
				break
			}
		}
	})
}

var (
	c04Tr   = [4]string{"1.5", "-2", "3e2", "0.125"}
	c04Want = [4]float64{1.5, -2, 300, 0.125}
)

func c04Run(v uint32, n int) []byte {
	d := binary.LittleEndian.AppendUint32(nil, v)
	if v == 0 || v == 0xffffffff {
		return binary.LittleEndian.AppendUint16(d, uint16(n))
	}
	return append(d, byte(n))
}

// TestVerifC04Runs reads every short list of runs, and every part of it, for small grids.
func TestVerifC04Runs(t *testing.T) {
	log.SetOutput(io.Discard)
	var units [][]byte
	for _, v := range []uint32{0, 0xffffffff, 1, 0xff, 0x100, 1 << 26, 0x7ffffff, 0xfffffffe} {
		for _, n := range []int{0, 1, 3, 256} {
			if n < 256 || v == 0 {
				units = append(units, c04Run(v, n))
			}
		}
	}
	for _, d := range [][3]int{{1, 2, 3}, {2, 3, 1}, {20, 4, 5}} {
		for i, a := range units {
			for j, b := range units {
				data := append(append([]byte(nil), a...), b...)
				w := c04Win{}
				if (i+j)%3 == 1 {
					w = c04Win{0, 1, 0, 1, 1, 2}
				}
				c04Check("pairs of runs", data, d[0], d[1], d[2], c04Tr, c04Want, w)
				if d[0] == 1 {
					for k := len(a); k < len(data); k++ {
						c04Check("cut short", data[:k], d[0], d[1], d[2], c04Tr, c04Want, w)
					}
				}
			}
		}
	}
	vExhaustive("pairs of runs over 8 values and 4 counts on three small grids, and cut short anywhere")
}

// TestVerifC04Windows reads a full small grid through every window.
func TestVerifC04Windows(t *testing.T) {
	log.SetOutput(io.Discard)
	const nx, ny, nz = 2, 3, 2
	for sx := 0; sx <= nx; sx++ {
		for sy := 0; sy <= ny; sy++ {
			for sz := 0; sz <= nz; sz++ {
				for cx := 0; cx <= nx+1; cx++ {
					for cy := 0; cy <= ny+1; cy++ {
						for cz := 0; cz <= nz+1; cz++ {
							c04Check("every window", c04Run(5, nx*ny*nz), nx, ny, nz, c04Tr, c04Want, c04Win{sx, sy, sz, cx, cy, cz})
						}
					}
				}
			}
		}
	}
	vExhaustive("windows of a 2 x 3 x 2 grid")
}

func TestVerifC04Random(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(104)
	for i := 0; i < vN(1500); i++ {
		nx, ny, nz := 1+r.Intn(9), 1+r.Intn(9), 1+r.Intn(9)
		switch r.Intn(6) {
		case 0:
			nx = 1 + r.Intn(400)
		case 1:
			ny = 1 + r.Intn(400)
		case 2:
			nz = 1 + r.Intn(400)
		}
		left := nx * ny * nz
		var data []byte
		stop := 0
		if r.Intn(4) == 0 {
			stop = r.Intn(left)
		}
		for left > stop && len(data) < 20000 {
			n := 1 + r.Intn(12)
			v := uint32(1 + r.Intn(1<<27-1))
			switch r.Intn(4) {
			case 0:
				n = []int{255, 254, 128, 127, 1, ny, ny * nz}[r.Intn(7)]
			case 1:
				v = []uint32{0, 0, 0xffffffff}[r.Intn(3)]
				n = []int{0, 1, 255, 256, 257, 1000, 65535, ny, ny * nz}[r.Intn(9)]
			}
			if n > 255 && v != 0 && v != 0xffffffff {
				n = 255
			}
			if n > left {
				n = left
			}
			data = append(data, c04Run(v, n)...)
			left -= n
		}
		switch r.Intn(10) {
		case 0: // too many cells, if the grid is full
			data = append(data, c04Run(uint32(r.Intn(2)), 1)...)
		case 1:
			data = append(data, byte(r.Intn(2)))
		case 2:
			data = append(data, c04Run(77, 0)...)
		case 3, 4:
			data = data[:r.Intn(len(data)+1)]
		}
		w := c04Win{}
		if r.Intn(2) == 0 {
			w = c04Win{r.Intn(nx + 1), r.Intn(ny + 1), r.Intn(nz + 1), r.Intn(nx + 2), r.Intn(ny + 2), r.Intn(nz + 2)}
		}
		var tr [4]string
		var want [4]float64
		for j := range tr {
			want[j] = (r.Float64() - 0.5) * []float64{1, 1e3, 1e-7, 1e21}[r.Intn(4)]
			tr[j] = fmt.Sprintf("%g", want[j])
		}
		c04Check("random", data, nx, ny, nz, tr, want, w)
	}
}
