package vshell

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

var c05File = filepath.Join(os.Getenv("VERIF_SCRATCH"), "c05.vsh")

func c05Desc(b *VShell) string {
	d := fmt.Sprintf("dim %v %v %v at %v %v %v scale %v, %v voxels", b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale, len(b.Voxels))
	if len(b.Voxels) <= 30 {
		return d + fmt.Sprint(b.Voxels)
	}
	s := 0
	for _, v := range b.Voxels {
		s += v.X*73856093 ^ v.Y*19349663 ^ v.Z*83492791 ^ int(v.N)*7
	}
	return d + fmt.Sprintf(" #%x", s)
}

// c05Write writes a window and compares the run data with the voxels.
func c05Write(rule string, b *VShell, sx, sy, sz, nx, ny, nz int) {
	desc := fmt.Sprintf("%v window (%v,%v,%v)+(%v,%v,%v)", c05Desc(b), sx, sy, sz, nx, ny, nz)
	vCase("write "+rule, len(b.Voxels) == 0, desc)
	vTry("write", desc, func() {
		if err := b.Write(c05File, sx, sy, sz, nx, ny, nz); err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		data, _ := os.ReadFile(c05File)
		head := []byte("data\n")
		at := bytes.Index(data, head)
		var hx, hy, hz int
		if _, err := fmt.Sscanf(string(data), "#vshell 1\ndim %d %d %d\n", &hx, &hy, &hz); err != nil || at < 0 {
			vFail("header", "%v: header %q", desc, data[:at+5])
			return
		}
		data = data[at+len(head):]
		wx, wy, wz := nx, ny, nz
		if wx == 0 {
			wx = b.NX
		}
		if wy == 0 {
			wy = b.NY
		}
		if wz == 0 {
			wz = b.NZ
		}
		if len(b.Voxels) > 0 && (hx != wx || hy != wy || hz != wz) {
			vFail("header", "%v: dimensions %v %v %v announced", desc, hx, hy, hz)
			return
		}
		look := map[[3]int]uint32{}
		for _, v := range b.Voxels {
			look[[3]int{v.X, v.Y, v.Z}] = uint32(v.N)
		}
		cells, full := 0, 0
		for len(data) > 0 {
			if len(data) < 5 {
				vFail("runs", "%v: %v bytes left over", desc, len(data))
				return
			}
			v := binary.LittleEndian.Uint32(data)
			n := int(data[4])
			if v == 0 || v == 0xffffffff {
				if len(data) < 6 {
					vFail("runs", "%v: %v bytes left over", desc, len(data))
					return
				}
				n = int(binary.LittleEndian.Uint16(data[4:]))
				data = data[6:]
			} else {
				full += n
				data = data[5:]
			}
			if n == 0 && v != 0 {
				vFail("runs", "%v: empty run of value %v", desc, v)
				return
			}
			for ; n > 0; n-- {
				if cells >= hx*hy*hz {
					vFail("count", "%v: more cells written than announced", desc)
					return
				}
				k := [3]int{sx + cells/(hy*hz), sy + cells%hy, sz + cells/hy%hz}
				if look[k] != v {
					vFail("cell", "%v: cell %v is written as %v, has %v", desc, k, v, look[k])
					return
				}
				cells++
			}
		}
		if cells != hx*hy*hz {
			vFail("count", "%v: %v cells written, %v announced", desc, cells, hx*hy*hz)
		}
		n, err := b.write(io.Discard, sx, sy, sz, nx, ny, nz)
		if err != nil || n != int64(full) {
			vFail("reported", "%v: %v voxels written, reported %v %v", desc, full, n, err)
		}
	})
}

func c05Trip(rule string, b *VShell) {
	desc := c05Desc(b)
	vCase("round trip "+rule, len(b.Voxels) == 0, desc)
	vTry("roundtrip", desc, func() {
		if err := b.Write(c05File, 0, 0, 0, 0, 0, 0); err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		c, err := Read(c05File, 0, 0, 0, 0, 0, 0)
		if err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		if len(b.Voxels) == 0 {
			if len(c.Voxels) != 0 {
				vFail("empty", "%v: %v voxels read back", desc, len(c.Voxels))
			}
			return
		}
		if b.NX != c.NX || b.NY != c.NY || b.NZ != c.NZ {
			vFail("dim", "%v: dimensions %v %v %v read back", desc, c.NX, c.NY, c.NZ)
		}
		if b.TX != c.TX || b.TY != c.TY || b.TZ != c.TZ || b.Scale != c.Scale {
			vFail("place", "%v: %v %v %v scale %v read back", desc, c.TX, c.TY, c.TZ, c.Scale)
		}
		set := map[VShVoxel]bool{}
		for _, v := range b.Voxels {
			set[v] = true
		}
		if len(c.Voxels) != len(set) {
			vFail("number", "%v: %v voxels read back", desc, len(c.Voxels))
		}
		for _, v := range c.Voxels {
			if !set[v] {
				vFail("extra", "%v: voxel %v read back was not written", desc, v)
				break
			}
		}
	})
}

// TestVerifC05Small writes every shell of a small grid over three bit patterns.
func TestVerifC05Small(t *testing.T) {
	log.SetOutput(io.Discard)
	const nx, ny, nz = 1, 3, 2
	bits := []NeighborBitMap{0, 1, 0x7ffffff}
	for m := 0; m < 729; m++ {
		b := &VShell{NX: nx, NY: ny, NZ: nz, TX: 1, TY: -2, TZ: 3.25, Scale: 4}
		for i, c := 0, m; i < nx*ny*nz; i, c = i+1, c/3 {
			if n := bits[c%3]; n != 0 {
				b.Voxels = append(b.Voxels, VShVoxel{0, i % ny, i / ny, n})
			}
		}
		c05Write("every small shell", b, 0, 0, 0, 0, 0, 0)
		c05Trip("every small shell", b)
		for i := range b.Voxels {
			v := &b.Voxels[i]
			v.X, v.Y, v.Z = v.Y, v.Z, v.X
		}
		b.NX, b.NY, b.NZ = ny, nz, nx
		c05Write("every small shell", b, 0, 0, 0, 0, 0, 0)
		c05Write("window", b, 1, 0, 0, 2, 1, 1)
		c05Trip("every small shell", b)
	}
	vExhaustive("all shells of a 1 x 3 x 2 and a 3 x 2 x 1 grid over three bit patterns")
}

// TestVerifC05Runs writes shells with runs around the limits of the counts.
func TestVerifC05Runs(t *testing.T) {
	log.SetOutput(io.Discard)
	for _, n := range []int{0, 1, 254, 255, 256, 509, 510, 511, 765, 2550, 65535, 66000} {
		for _, gap := range []int{0, 1, 255, 65534, 65535, 65536, 65537, 131070, 131071, 200000} {
			for axis := 0; axis < 3; axis++ {
				if axis > 0 && n > 600 {
					continue
				}
				d := [3]int{1, 1, 1}
				d[axis] = n + gap + 1
				b := &VShell{NX: d[0], NY: d[1], NZ: d[2], Scale: 1}
				for i := 0; i < n; i++ {
					var k [3]int
					k[axis] = gap + i
					b.Voxels = append(b.Voxels, VShVoxel{k[0], k[1], k[2], 0x1234567})
				}
				c05Write("run lengths", b, 0, 0, 0, 0, 0, 0)
				c05Trip("run lengths", b)
			}
		}
	}
}

// TestVerifC05Many writes shells with very many runs.
func TestVerifC05Many(t *testing.T) {
	log.SetOutput(io.Discard)
	for i, d := range [][3]int{{30, 30, 40}, {1, 170, 171}, {90, 3, 110}} {
		b := &VShell{NX: d[0], NY: d[1], NZ: d[2], Scale: 1}
		for j := 0; j < d[0]*d[1]*d[2]; j++ {
			v := VShVoxel{j % d[0], j / d[0] % d[1], j / d[0] / d[1], NeighborBitMap(1 + j)}
			if (v.X*i+v.Y+v.Z)%2 == 0 {
				b.Voxels = append(b.Voxels, v)
			}
		}
		c05Write("many runs", b, 0, 0, 0, 0, 0, 0)
		c05Trip("many runs", b)
	}
}

func c05Float(r *rand.Rand) float64 {
	for {
		f := float64(r.Intn(2000)-1000) / 8
		switch r.Intn(3) {
		case 1:
			f = r.NormFloat64()
		case 2:
			f = math.Float64frombits(r.Uint64())
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func TestVerifC05Random(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(105)
	for i := 0; i < vN(500); i++ {
		b := &VShell{NX: 1 + r.Intn(14), NY: 1 + r.Intn(14), NZ: 1 + r.Intn(14), TX: c05Float(r), TY: c05Float(r), TZ: c05Float(r), Scale: c05Float(r)}
		switch r.Intn(8) {
		case 0:
			b.NX = 1 + r.Intn(900)
		case 1:
			b.NY = 1 + r.Intn(900)
		case 2:
			b.NZ = 1 + r.Intn(900)
		}
		p := []float64{0.0005, 0.1, 0.5, 0.9, 1}[r.Intn(5)]
		q := []float64{0, 0.01, 1}[r.Intn(3)]
		n := NeighborBitMap(1 + r.Intn(1<<27-1))
		for x := 0; x < b.NX; x++ {
			for y := 0; y < b.NY; y++ {
				for z := 0; z < b.NZ; z++ {
					if r.Float64() < q {
						n = NeighborBitMap(1 + r.Intn(1<<27-1))
						if r.Intn(3) == 0 {
							n = 1 << r.Intn(27)
						}
					}
					if r.Float64() < p {
						b.Voxels = append(b.Voxels, VShVoxel{x, y, z, n})
					}
				}
			}
		}
		r.Shuffle(len(b.Voxels), func(i, j int) { b.Voxels[i], b.Voxels[j] = b.Voxels[j], b.Voxels[i] })
		c05Write("random", b, 0, 0, 0, 0, 0, 0)
		c05Write("random window", b, r.Intn(b.NX), r.Intn(b.NY), r.Intn(b.NZ), r.Intn(b.NX+2), r.Intn(b.NY+2), r.Intn(b.NZ+2))
		c05Trip("random", b)
	}
}
