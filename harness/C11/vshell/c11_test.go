package vshell

import (
	"fmt"
	"io"
	"log"
	"math"
	"testing"
)

func TestVerifC11(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(111)
	near := func(a, b float64) bool {
		return a == b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
	}
	for n := 0; n < vN(3000); n++ {
		nx, ny, nz := 1+r.Intn(200), 1+r.Intn(200), 1+r.Intn(200)
		if n%3 == 0 {
			nx, ny, nz = 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(3)
		}
		tx, ty, tz := r.NormFloat64()*50, r.NormFloat64()*50, r.NormFloat64()*50
		scale := []float64{0, -2, 0.25, 1, float64(nx), float64(ny), float64(nz), r.Float64() * 300, 1e-12, 1e9}[r.Intn(10)]
		desc := fmt.Sprintf("VShell n=(%d,%d,%d) t=(%g,%g,%g) scale=%g", nx, ny, nz, tx, ty, tz, scale)
		vCase("random shell, dimensions 1..200, any scale sign: resolution and box", false, desc)
		vTry("panic", desc, func() {
			b := &VShell{NX: nx, NY: ny, NZ: nz, TX: tx, TY: ty, TZ: tz, Scale: scale}
			max := nx
			if ny > max {
				max = ny
			}
			if nz > max {
				max = nz
			}
			if b.Dim() != max {
				vFail("dim", "%s: Dim()=%d, want %d", desc, b.Dim(), max)
			}
			want := 1.0
			if scale > 0 {
				want = float64(max) / scale
			}
			if got := b.VoxelsPerMM(); !near(got, want) {
				vFail("vpmm", "%s: VoxelsPerMM()=%v, want %v", desc, got, want)
			}
			mbb := b.MBB()
			if !near(mbb.Min.X, tx) || !near(mbb.Min.Y, ty) || !near(mbb.Min.Z, tz) ||
				!near(mbb.Max.X, tx+float64(nx)/want) || !near(mbb.Max.Y, ty+float64(ny)/want) || !near(mbb.Max.Z, tz+float64(nz)/want) {
				vFail("mbb", "%s: MBB()=%v", desc, *mbb)
			}
		})
	}
}
