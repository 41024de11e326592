package binvox

import (
	"fmt"
	"io"
	"log"
	"math"
	"testing"
)

func TestVerifC11(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(11)
	near := func(a, b float64) bool {
		return a == b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
	}
	dim := func() int {
		if r.Intn(4) == 0 {
			return 1 + r.Intn(3)
		}
		return 1 + r.Intn(500)
	}
	for n := 0; n < vN(3000); n++ {
		nx, ny, nz := dim(), dim(), dim()
		tx, ty, tz := r.NormFloat64()*50, r.NormFloat64()*50, r.NormFloat64()*50
		scale := []float64{0, -2, 0.25, 1, float64(nx), float64(ny), float64(nz), r.Float64() * 300, 1e-12, 1e9}[r.Intn(10)]
		full := r.Intn(2) == 0
		desc := fmt.Sprintf("New(%d,%d,%d,%g,%g,%g,%g,%v)", nx, ny, nz, tx, ty, tz, scale, full)
		vCase("random model, dimensions 1..500, any scale sign: resolution and box", nx == ny && ny == nz, desc)
		vTry("panic", desc, func() {
			b := New(nx, ny, nz, tx, ty, tz, scale, full)
			if b.NX != nx || b.NY != ny || b.NZ != nz || b.TX != tx || b.TY != ty || b.TZ != tz || b.Scale != scale {
				vFail("new", "%s: fields %+v", desc, *b)
			}
			if (b.ColorVoxels != nil) != full || (b.WhiteVoxels != nil) != !full || len(b.ColorVoxels)+len(b.WhiteVoxels) != 0 {
				vFail("new", "%s: maps", desc)
			}
			max := nx
			if ny > max {
				max = ny
			}
			if nz > max {
				max = nz
			}
			if b.Dim() != max {
				vFail("dim", "%s: Dim()=%d, want %d", desc, b.Dim(), max)
			}
			want := 1.0
			if scale > 0 {
				want = float64(max) / scale
			}
			if got := b.VoxelsPerMM(); !near(got, want) {
				vFail("vpmm", "%s: VoxelsPerMM()=%v, want %v", desc, got, want)
			}
			mbb := b.MBB()
			if !near(mbb.Min.X, tx) || !near(mbb.Min.Y, ty) || !near(mbb.Min.Z, tz) ||
				!near(mbb.Max.X, tx+float64(nx)/want) || !near(mbb.Max.Y, ty+float64(ny)/want) || !near(mbb.Max.Z, tz+float64(nz)/want) {
				vFail("mbb", "%s: MBB()=%v", desc, *mbb)
			}
			if b.NX != nx || b.NY != ny || b.NZ != nz || b.TX != tx || b.TY != ty || b.TZ != tz || b.Scale != scale {
				vFail("frame", "%s: changed to %+v", desc, *b)
			}
		})
	}
	// look-ups against a reference map, over histories of additions
	for n := 0; n < vN(400); n++ {
		b := &BinVOX{NX: 4, NY: 4, NZ: 4, Scale: 4, WhiteVoxels: WhiteVoxelMap{}, ColorVoxels: ColorVoxelMap{}}
		white := map[[3]int]bool{}
		col := map[[3]int]Color{}
		hist := ""
		rng := 1 + r.Intn(6)
		c := func() int {
			if r.Intn(10) == 0 {
				return r.Intn(4000) - 2000
			}
			return r.Intn(2*rng+1) - rng
		}
		ok := vTry("panic", "history", func() {
			for i := 0; i < 40; i++ {
				x, y, z := c(), c(), c()
				if r.Intn(2) == 0 {
					b.Add(x, y, z)
					white[[3]int{x, y, z}] = true
					hist += fmt.Sprintf("Add(%d,%d,%d) ", x, y, z)
				} else {
					comp := func() float64 { return []float64{0, 1, 0.5, -1, r.Float64()}[r.Intn(5)] }
					cc := Color{comp(), comp(), comp(), comp()}
					b.AddColor(x, y, z, cc)
					col[[3]int{x, y, z}] = cc
					hist += fmt.Sprintf("AddColor(%d,%d,%d,%v) ", x, y, z, cc)
				}
				if len(b.WhiteVoxels) != len(white) || len(b.ColorVoxels) != len(col) {
					vFail("add", "%s: %d white, %d coloured; want %d, %d", hist, len(b.WhiteVoxels), len(b.ColorVoxels), len(white), len(col))
				}
				for q := 0; q < 20; q++ {
					x, y, z := c(), c(), c()
					if q == 0 {
						for k := range white {
							x, y, z = k[0], k[1], k[2]
							break
						}
					}
					if q == 1 {
						for k := range col {
							x, y, z = k[0], k[1], k[2]
							break
						}
					}
					k := [3]int{x, y, z}
					got, ok := b.Get(x, y, z)
					_, inCol := col[k]
					if ok != (white[k] || inCol) {
						vFail("get.present", "%s: Get(%d,%d,%d) present=%v", hist, x, y, z, ok)
					}
					if white[k] && got != (Color{1, 1, 1, 1}) || !white[k] && inCol && got != col[k] {
						vFail("get.colour", "%s: Get(%d,%d,%d) colour=%v", hist, x, y, z, got)
					}
				}
			}
		})
		_ = ok
		vCase("random history of 40 additions and 800 look-ups against a reference map", false, hist)
	}
}
