package binvox

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

var c02File = filepath.Join(os.Getenv("VERIF_SCRATCH"), "c02.binvox")

func c02Check(key string, b *BinVOX, sx, sy, sz, nx, ny, nz int) {
	desc := fmt.Sprintf("dim %v %v %v window (%v,%v,%v)+(%v,%v,%v), voxels %v", b.NX, b.NY, b.NZ, sx, sy, sz, nx, ny, nz, c02Keys(b))
	vCase("write "+key, len(b.WhiteVoxels) == 0, desc)
	vTry("write", desc, func() {
		var log1 bytes.Buffer
		log.SetOutput(&log1)
		err := b.Write(c02File, sx, sy, sz, nx, ny, nz)
		log.SetOutput(io.Discard)
		if err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		data, _ := os.ReadFile(c02File)
		var hx, hy, hz int
		head := []byte("data\n")
		at := bytes.Index(data, head)
		if at < 0 {
			vFail("header", "%v: no data section", desc)
			return
		}
		if _, err := fmt.Sscanf(string(data), "#binvox 1\ndim %d %d %d\n", &hx, &hy, &hz); err != nil {
			vFail("header", "%v: %v", desc, err)
			return
		}
		data = data[at+len(head):]
		wx, wy, wz := nx, ny, nz
		if wx == 0 {
			wx = b.NX
		}
		if wy == 0 {
			wy = b.NY
		}
		if wz == 0 {
			wz = b.NZ
		}
		cells, white := 0, 0
		if len(data)%2 != 0 {
			vFail("runs", "%v: %v bytes of run data", desc, len(data))
			return
		}
		if len(b.WhiteVoxels) > 0 && (hx != wx || hy != wy || hz != wz) {
			vFail("header", "%v: dimensions %v %v %v announced", desc, hx, hy, hz)
			return
		}
		for i := 0; i < len(data); i += 2 {
			if data[i] > 1 || data[i+1] == 0 {
				vFail("runs", "%v: run %v has value %v and count %v", desc, i/2, data[i], data[i+1])
				return
			}
			for n := int(data[i+1]); n > 0; n-- {
				if cells >= hx*hy*hz {
					vFail("count", "%v: more cells written than announced", desc)
					return
				}
				k := Key{sx + cells/(hy*hz), sy + cells%hy, sz + cells/hy%hz}
				_, want := b.WhiteVoxels[k]
				if (data[i] == 1) != want {
					vFail("cell", "%v: cell %v is written as %v", desc, k, data[i])
					return
				}
				white += int(data[i])
				cells++
			}
		}
		if cells != hx*hy*hz {
			vFail("count", "%v: %v cells written, %v announced", desc, cells, hx*hy*hz)
		}
		if s := fmt.Sprintf("Done writing %v white voxels ", white); !bytes.Contains(log1.Bytes(), []byte(s)) && bytes.Contains(log1.Bytes(), []byte("Done writing")) {
			vFail("reported", "%v: %v white voxels written, reported: %s", desc, white, log1.Bytes())
		}
		var buf bytes.Buffer
		n, err := b.write(&buf, sx, sy, sz, nx, ny, nz)
		if err != nil || n != int64(white) {
			vFail("reported", "%v: %v white voxels written, reported %v %v", desc, white, n, err)
		}
	})
}

func c02Keys(b *BinVOX) string {
	if len(b.WhiteVoxels) > 40 {
		return fmt.Sprintf("%v voxels #%x", len(b.WhiteVoxels), c02Sum(b))
	}
	return fmt.Sprint(b.WhiteVoxels)
}

func c02Sum(b *BinVOX) (s int) {
	for k := range b.WhiteVoxels {
		s += k.X*73856093 ^ k.Y*19349663 ^ k.Z*83492791
	}
	return s
}

// TestVerifC02Small writes every model of a small grid.
func TestVerifC02Small(t *testing.T) {
	log.SetOutput(io.Discard)
	const nx, ny, nz = 2, 3, 2
	for m := 0; m < 1<<(nx*ny*nz); m += 1 {
		b := &BinVOX{NX: nx, NY: ny, NZ: nz, Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
		for i := 0; i < nx*ny*nz; i++ {
			if m>>i&1 == 1 {
				b.WhiteVoxels[Key{i / (ny * nz), i % ny, i / ny % nz}] = struct{}{}
			}
		}
		c02Check("every small model", b, 0, 0, 0, 0, 0, 0)
		if m%37 == 5 {
			c02Check("window", b, 1, 1, 0, 1, 2, 1)
			c02Check("window", b, 0, 2, 1, 2, 3, 2)
		}
	}
	vExhaustive("all models of a 2 x 3 x 2 grid, written whole")
}

// TestVerifC02Runs writes models whose runs have every length around the limit of a count byte.
func TestVerifC02Runs(t *testing.T) {
	log.SetOutput(io.Discard)
	for _, n := range []int{1, 2, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 2550, 65280, 70000} {
		for _, gap := range []int{0, 1, 255, 510} {
			for axis := 0; axis < 3; axis++ {
				d := [3]int{1, 1, 1}
				d[axis] = n + gap
				for _, inv := range []bool{false, true} {
					b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
					for i := 0; i < n+gap; i++ {
						if (i < gap) == inv {
							var k [3]int
							k[axis] = i
							b.WhiteVoxels[Key{k[0], k[1], k[2]}] = struct{}{}
						}
					}
					c02Check("run lengths", b, 0, 0, 0, 0, 0, 0)
				}
			}
		}
	}
}

// TestVerifC02Many writes models with very many runs.
func TestVerifC02Many(t *testing.T) {
	log.SetOutput(io.Discard)
	for i, d := range [][3]int{{45, 40, 40}, {1, 300, 301}, {130, 3, 170}, {70, 70, 71}} {
		b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
		for x := 0; x < d[0]; x++ {
			for y := 0; y < d[1]; y++ {
				for z := 0; z < d[2]; z++ {
					if (x*i+y+z)%2 == 0 {
						b.WhiteVoxels[Key{x, y, z}] = struct{}{}
					}
				}
			}
		}
		c02Check("many runs", b, 0, 0, 0, 0, 0, 0)
	}
}

func c02Model(r *rand.Rand) *BinVOX {
	b := &BinVOX{NX: 1 + r.Intn(12), NY: 1 + r.Intn(12), NZ: 1 + r.Intn(12), Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
	switch r.Intn(8) {
	case 0:
		b.NX = 1 + r.Intn(400)
	case 1:
		b.NY = 1 + r.Intn(400)
	case 2:
		b.NZ = 1 + r.Intn(400)
	}
	p := []float64{0.01, 0.1, 0.5, 0.9, 0.99, 1}[r.Intn(6)]
	for x := 0; x < b.NX; x++ {
		for z := 0; z < b.NZ; z++ {
			for y := 0; y < b.NY; y++ {
				if r.Float64() < p {
					b.WhiteVoxels[Key{x, y, z}] = struct{}{}
				}
			}
		}
	}
	return b
}

func TestVerifC02Random(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(102)
	for i := 0; i < vN(500); i++ {
		b := c02Model(r)
		if r.Intn(3) == 0 {
			// voxels outside the dimensions belong to no cell of the window
			for j := r.Intn(5); j >= 0; j-- {
				b.WhiteVoxels[Key{r.Intn(b.NX+4) - 2, r.Intn(b.NY+4) - 2, r.Intn(b.NZ+4) - 2}] = struct{}{}
			}
		}
		c02Check("random", b, 0, 0, 0, 0, 0, 0)
		c02Check("random window", b, r.Intn(b.NX), r.Intn(b.NY), r.Intn(b.NZ), r.Intn(b.NX+2), r.Intn(b.NY+2), r.Intn(b.NZ+2))
	}
}
