package binvox

import (
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

var c03File = filepath.Join(os.Getenv("VERIF_SCRATCH"), "c03.binvox")

func c03Check(key string, b *BinVOX) {
	desc := fmt.Sprintf("dim %v %v %v at %v %v %v scale %v, %v voxels", b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale, len(b.WhiteVoxels))
	if len(b.WhiteVoxels) <= 30 {
		desc += fmt.Sprint(b.WhiteVoxels)
	} else {
		s := 0
		for k := range b.WhiteVoxels {
			s += k.X*73856093 ^ k.Y*19349663 ^ k.Z*83492791
		}
		desc += fmt.Sprintf(" #%x", s)
	}
	vCase("round trip "+key, len(b.WhiteVoxels) == 0, desc)
	vTry("roundtrip", desc, func() {
		if err := b.Write(c03File, 0, 0, 0, 0, 0, 0); err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		c, err := Read(c03File, 0, 0, 0, 0, 0, 0)
		if err != nil {
			vFail("error", "%v: %v", desc, err)
			return
		}
		if len(b.WhiteVoxels) == 0 {
			if len(c.WhiteVoxels) != 0 {
				vFail("empty", "%v: %v voxels read back", desc, len(c.WhiteVoxels))
			}
			return
		}
		if b.NX != c.NX || b.NY != c.NY || b.NZ != c.NZ {
			vFail("dim", "%v: dimensions %v %v %v read back", desc, c.NX, c.NY, c.NZ)
		}
		if b.TX != c.TX || b.TY != c.TY || b.TZ != c.TZ || b.Scale != c.Scale {
			vFail("place", "%v: %v %v %v scale %v read back", desc, c.TX, c.TY, c.TZ, c.Scale)
		}
		for k := range b.WhiteVoxels {
			if _, ok := c.WhiteVoxels[k]; !ok {
				vFail("missing", "%v: voxel %v is missing", desc, k)
				break
			}
		}
		for k := range c.WhiteVoxels {
			if _, ok := b.WhiteVoxels[k]; !ok {
				vFail("extra", "%v: voxel %v was not written", desc, k)
				break
			}
		}
	})
}

func c03Float(r *rand.Rand) float64 {
	for {
		var f float64
		switch r.Intn(4) {
		case 0:
			f = float64(r.Intn(2000)-1000) / 8
		case 1:
			f = r.NormFloat64()
		case 2:
			f = math.Float64frombits(r.Uint64())
		case 3:
			f = []float64{0, 0.1 + 0.2, 1e-300, 1e21, -1e6, 123456789.123, math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(8)]
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func TestVerifC03Small(t *testing.T) {
	log.SetOutput(io.Discard)
	for _, d := range [][3]int{{2, 3, 2}, {1, 5, 2}, {3, 1, 3}} {
		n := d[0] * d[1] * d[2]
		for m := 0; m < 1<<n; m++ {
			b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], TX: 1, TY: 2, TZ: 3, Scale: 4, WhiteVoxels: WhiteVoxelMap{}}
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					b.WhiteVoxels[Key{i % d[0], i / d[0] % d[1], i / d[0] / d[1]}] = struct{}{}
				}
			}
			c03Check("every small model", b)
		}
	}
	vExhaustive("all models of grids of 2 x 3 x 2, 1 x 5 x 2 and 3 x 1 x 3 voxels")
}

func TestVerifC03Many(t *testing.T) {
	log.SetOutput(io.Discard)
	for i, d := range [][3]int{{45, 40, 40}, {1, 300, 301}, {130, 3, 170}, {70, 70, 71}} {
		b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
		for j := 0; j < d[0]*d[1]*d[2]; j++ {
			k := Key{j % d[0], j / d[0] % d[1], j / d[0] / d[1]}
			if (k.X*i+k.Y+k.Z)%2 == 0 {
				b.WhiteVoxels[k] = struct{}{}
			}
		}
		c03Check("many runs", b)
	}
}

func TestVerifC03Random(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(103)
	for i := 0; i < vN(600); i++ {
		b := &BinVOX{NX: 1 + r.Intn(14), NY: 1 + r.Intn(14), NZ: 1 + r.Intn(14), TX: c03Float(r), TY: c03Float(r), TZ: c03Float(r), Scale: c03Float(r), WhiteVoxels: WhiteVoxelMap{}}
		switch r.Intn(8) {
		case 0:
			b.NX = 1 + r.Intn(700)
		case 1:
			b.NY = 1 + r.Intn(700)
		case 2:
			b.NZ = 1 + r.Intn(700)
		}
		p := []float64{0.001, 0.1, 0.5, 0.9, 0.999, 1}[r.Intn(6)]
		for x := 0; x < b.NX; x++ {
			for y := 0; y < b.NY; y++ {
				for z := 0; z < b.NZ; z++ {
					if r.Float64() < p {
						b.WhiteVoxels[Key{x, y, z}] = struct{}{}
					}
				}
			}
		}
		c03Check("random", b)
	}
}
