package vshell

import (
	"fmt"
	"io"
	"log"
	"math"
	"testing"

	"github.com/gmlewis/stldice/v4/binvox"
)

type c07P [3]float64

func c07Pos(tx, ty, tz, v float64, x, y, z int) c07P {
	return c07P{tx + float64(x)/v, ty + float64(y)/v, tz + float64(z)/v}
}

func TestVerifC07(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(707)
	for n := vN(3000); n > 0; n-- {
		vpmm := []float64{1, 2, 3, 10, 0.7, 1 / 0.3}[r.Intn(6)]
		far := []int{1, 3, 20, 1000}[r.Intn(4)]
		k := 2 + r.Intn(3)
		var hist []string
		var want []c07P // where every voxel belongs, in mm
		min := c07P{math.Inf(1), math.Inf(1), math.Inf(1)}
		desc := ""
		bad := false
		var vs *VShell
		vTry("panic", "history", func() {
			for i := 0; i < k && !bad; i++ {
				nx, ny, nz := 1+r.Intn(6), 1+r.Intn(6), 1+r.Intn(6)
				d := nx
				if ny > d {
					d = ny
				}
				if nz > d {
					d = nz
				}
				o := c07P{}
				for a := range o {
					o[a] = float64(r.Intn(2*far+1)-far) / vpmm
				}
				b := binvox.New(nx, ny, nz, o[0], o[1], o[2], float64(d)/vpmm, r.Intn(2) == 0)
				b.WhiteVoxels = binvox.WhiteVoxelMap{}
				if b.ColorVoxels == nil {
					b.ColorVoxels = binvox.ColorVoxelMap{}
				}
				var vox []binvox.Key
				for j := 1 + r.Intn(4); j > 0; j-- {
					q := binvox.Key{X: r.Intn(nx), Y: r.Intn(ny), Z: r.Intn(nz)}
					if r.Intn(2) == 0 {
						b.WhiteVoxels[q] = struct{}{}
					} else {
						b.ColorVoxels[q] = binvox.Color{R: 1, A: 1}
					}
					vox = append(vox, q)
				}
				hist = append(hist, fmt.Sprintf("%vx%vx%v at %v voxels %v", nx, ny, nz, o, vox))
				desc = fmt.Sprintf("%v voxels per mm: %v", vpmm, hist)
				var err error
				var old []c07P
				if vs == nil {
					vs, err = New(b)
				} else {
					for _, v := range vs.Voxels {
						old = append(old, c07Pos(vs.TX, vs.TY, vs.TZ, vpmm, v.X, v.Y, v.Z))
					}
					err = vs.Add(b)
				}
				if err != nil {
					if int(vpmm) == int(b.VoxelsPerMM()) && (i == 0 || int(vpmm) == int(vs.VoxelsPerMM())) {
						vFail("error", "%v: %v", desc, err)
					}
					bad = true
					return
				}
				for _, q := range vox {
					want = append(want, c07Pos(o[0], o[1], o[2], vpmm, q.X, q.Y, q.Z))
				}
				for a := range min {
					min[a] = math.Min(min[a], o[a])
				}
				if math.Abs(vs.VoxelsPerMM()-vpmm) > 1e-6*vpmm {
					vFail("resolution", "%v: %v voxels per mm", desc, vs.VoxelsPerMM())
				}
				if got := (c07P{vs.TX, vs.TY, vs.TZ}); got != min {
					vFail("origin", "%v: origin %v, should be %v", desc, got, min)
				}
				near := func(a, b c07P) bool {
					for i := range a {
						if math.Abs(a[i]-b[i]) > (0.5+1e-6)*float64(i+1)/float64(i+1)/vpmm {
							return false
						}
					}
					return true
				}
				for _, v := range vs.Voxels {
					p := c07Pos(vs.TX, vs.TY, vs.TZ, vpmm, v.X, v.Y, v.Z)
					ok := false
					for _, w := range want {
						ok = ok || near(p, w)
					}
					if !ok {
						vFail("place", "%v: a voxel ends up at %v", desc, p)
					}
					if v.X < 0 || v.Y < 0 || v.Z < 0 {
						vFail("negative", "%v: voxel %v", desc, v)
					}
					if v.X >= vs.NX || v.Y >= vs.NY || v.Z >= vs.NZ {
						vFail("dims", "%v: voxel %v outside %v %v %v", desc, v, vs.NX, vs.NY, vs.NZ)
					}
				}
				for j := range old { // the shell voxels listed before, in order unless removed
					found := false
					for _, v := range vs.Voxels {
						found = found || near(old[j], c07Pos(vs.TX, vs.TY, vs.TZ, vpmm, v.X, v.Y, v.Z))
					}
					if !found && len(want) < 27 {
						vFail("lost", "%v: the voxel at %v is gone", desc, old[j])
					}
				}
				for _, w := range want {
					found := false
					for _, v := range vs.Voxels {
						found = found || near(w, c07Pos(vs.TX, vs.TY, vs.TZ, vpmm, v.X, v.Y, v.Z))
					}
					if !found && len(want) < 27 {
						vFail("lost", "%v: the voxel at %v is gone", desc, w)
					}
				}
			}
		})
		if !bad {
			vCase(fmt.Sprintf("%v additions", k), false, desc)
		}
	}
}
