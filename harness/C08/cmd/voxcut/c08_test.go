package main

import (
	"fmt"
	"math"
	"testing"

	"github.com/gmlewis/stldice/v4/binvox"
)

func vCopy(m binvox.WhiteVoxelMap) binvox.WhiteVoxelMap {
	if m == nil {
		return nil
	}
	r := binvox.WhiteVoxelMap{}
	for k := range m {
		r[k] = struct{}{}
	}
	return r
}

func vEqual(a, b binvox.WhiteVoxelMap) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func vCut(base, cut *binvox.BinVOX, key, desc string) int {
	b0, c0 := vCopy(base.WhiteVoxels), vCopy(cut.WhiteVoxels)
	bs, cs := *base, *cut
	vpmm := base.VoxelsPerMM()
	got, err := voxcut(base, cut)
	if !vEqual(base.WhiteVoxels, b0) || !vEqual(cut.WhiteVoxels, c0) || bs.TX != base.TX || bs.TY != base.TY || bs.TZ != base.TZ || bs.NX != base.NX || cs.TX != cut.TX || cs.Scale != cut.Scale || bs.Scale != base.Scale {
		vFail("inputs", "%s: an input was modified", desc)
	}
	if len(c0) == 0 {
		if err != nil || !vEqual(got, b0) {
			vFail("emptycut", "%s: nothing to cut: error %v, %d voxels of %d", desc, err, len(got), len(b0))
		}
		return 0
	}
	if len(b0) == 0 {
		if err == nil {
			vFail("emptybase", "%s: empty base: no error", desc)
		}
		return 0
	}
	if err != nil {
		vFail(key, "%s: error %v", desc, err)
		return 0
	}
	at := func(x int, t, o float64) int { return int(math.Round((t + float64(x)/vpmm - o) * vpmm)) }
	n := 0
	for k := range b0 {
		_, c := c0[binvox.Key{X: at(k.X, base.TX, cut.TX), Y: at(k.Y, base.TY, cut.TY), Z: at(k.Z, base.TZ, cut.TZ)}]
		if c {
			n++
		}
		if _, ok := got[k]; ok == c {
			vFail(key, "%s: base voxel %v: occupied by the cut %v, kept %v", desc, k, c, ok)
		}
	}
	for k := range got {
		if _, ok := b0[k]; !ok {
			vFail(key, "%s: voxel %v is not in the base", desc, k)
		}
	}
	return n
}

func TestVerifCut(t *testing.T) {
	r := vRand(1)
	for it := 0; it < vN(400); it++ {
		n := 1 + r.Intn(12)
		vpmm := []float64{1, 2, 0.5, 10, 3.3, 7}[r.Intn(6)]
		mk := func(density int) *binvox.BinVOX {
			nx, ny, nz := n, n, n
			if it%2 == 1 {
				nx, ny, nz = 1+r.Intn(12), 1+r.Intn(12), 1+r.Intn(12)
			}
			b := &binvox.BinVOX{NX: nx, NY: ny, NZ: nz, Scale: float64(nx) / vpmm, WhiteVoxels: binvox.WhiteVoxelMap{}}
			for x := 0; x < nx; x++ {
				for y := 0; y < ny; y++ {
					for z := 0; z < nz; z++ {
						if r.Intn(100) < density {
							b.WhiteVoxels[binvox.Key{X: x, Y: y, Z: z}] = struct{}{}
						}
					}
				}
			}
			return b
		}
		base, cut := mk([]int{0, 5, 50, 100}[r.Intn(4)]), mk([]int{0, 5, 50, 100}[r.Intn(4)])
		base.TX, base.TY, base.TZ = r.Float64()*20-10, r.Float64()*20-10, r.Float64()*20-10
		off := func() float64 { return (float64(r.Intn(2*n+1)-n) + (r.Float64()-0.5)*[]float64{0, 1e-6, 0.8}[r.Intn(3)]) / vpmm }
		cut.TX, cut.TY, cut.TZ = base.TX-off(), base.TY-off(), base.TZ-off()
		if it%5 == 0 {
			cut.TX, cut.TY, cut.TZ = base.TX, base.TY, base.TZ
		}
		desc := fmt.Sprintf("case %d: %dx%dx%d at (%v,%v,%v) with %d voxels cut by %dx%dx%d with %d voxels at (%v,%v,%v), %v voxels per mm", it, base.NX, base.NY, base.NZ, base.TX, base.TY, base.TZ, len(base.WhiteVoxels), cut.NX, cut.NY, cut.NZ, len(cut.WhiteVoxels), cut.TX, cut.TY, cut.TZ, vpmm)
		c := vCut(base, cut, "difference", desc)
		vCase("cuts that remove a voxel", c == 0, desc)
	}
}

func TestVerifBig(t *testing.T) {
	// far apart indices and long models
	for _, d := range []int{100, 255, 256, 257, 300, 1000, 40000, 70000, 1 << 20} {
		base := &binvox.BinVOX{NX: 1 << 21, NY: 1 << 21, NZ: 1 << 21, Scale: 1 << 21, WhiteVoxels: binvox.WhiteVoxelMap{}}
		cut := &binvox.BinVOX{NX: 1 << 21, NY: 1 << 21, NZ: 1 << 21, Scale: 1 << 21, WhiteVoxels: binvox.WhiteVoxelMap{}}
		for i := 0; i < 3; i++ {
			o := [3]int{}
			o[i] = d
			base.WhiteVoxels[binvox.Key{X: o[0], Y: o[1], Z: o[2]}] = struct{}{}
			base.WhiteVoxels[binvox.Key{X: o[0] + 1, Y: o[1], Z: o[2]}] = struct{}{}
			cut.WhiteVoxels[binvox.Key{X: o[0] + 5, Y: o[1] + 7, Z: o[2] - 2}] = struct{}{}
		}
		base.TX, base.TY, base.TZ = 5, 7, -2
		desc := fmt.Sprintf("voxels at %d", d)
		c := vCut(base, cut, "difference", desc)
		vCase("far voxels", c == 0, desc)
	}
}

func TestVerifEmpty(t *testing.T) {
	one := binvox.WhiteVoxelMap{binvox.Key{}: struct{}{}}
	for i, b := range []binvox.WhiteVoxelMap{nil, {}, one} {
		for j, c := range []binvox.WhiteVoxelMap{nil, {}, one} {
			desc := fmt.Sprintf("base %d, cut %d", i, j)
			vCut(&binvox.BinVOX{NX: 2, NY: 2, NZ: 2, Scale: 2, WhiteVoxels: vCopy(b)}, &binvox.BinVOX{NX: 2, NY: 2, NZ: 2, Scale: 2, WhiteVoxels: vCopy(c)}, "difference", desc)
			vCase("empty models", i == 2 && j == 2, desc)
		}
	}
	vExhaustive("empty and non-empty models")
}
