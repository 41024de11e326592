//verif:race
package binvox

import (
	"fmt"
	"runtime"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

func vKeys(m WhiteVoxelMap) map[[3]int]bool {
	r := map[[3]int]bool{}
	for k := range m {
		r[[3]int{k.X, k.Y, k.Z}] = true
	}
	return r
}

func vSame(a, b map[[3]int]bool) ([3]int, bool) {
	for k := range a {
		if !b[k] {
			return k, false
		}
	}
	for k := range b {
		if !a[k] {
			return k, false
		}
	}
	return [3]int{}, true
}

func TestVerifVoxelize(t *testing.T) {
	r := vRand(1)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for it := 0; it < vN(60); it++ {
		var ts []*gl.Triangle
		size := float64(2 + r.Intn(12))
		p := func() gl.Vector { return gl.V(r.Float64()*size, r.Float64()*size, r.Float64()*size) }
		if it%3 == 0 { // a closed tetrahedron
			a, b, c, d := p(), p(), p(), p()
			if b.Sub(a).Cross(c.Sub(a)).Dot(d.Sub(a)) > 0 {
				b, c = c, b
			}
			for _, q := range [][3]gl.Vector{{a, b, c}, {a, d, b}, {b, d, c}, {c, d, a}} {
				ts = append(ts, gl.NewTriangleForPoints(q[0], q[1], q[2]))
			}
		} else {
			for i := 0; i < 1+r.Intn(25); i++ {
				ts = append(ts, gl.NewTriangleForPoints(p(), p(), p()))
			}
		}
		mesh := gl.NewTriangleMesh(ts)
		nx, ny, nz := 1+r.Intn(9), 1+r.Intn(9), 1+r.Intn(9)
		mk := func() *BinVOX {
			return &BinVOX{NX: nx, NY: ny, NZ: nz, Scale: float64(1+r.Intn(1)) * size * 0.6}
		}
		tx, ty, tz := (r.Float64()-0.5)*size, (r.Float64()-0.5)*size, (r.Float64()-0.5)*size
		place := func(b *BinVOX) *BinVOX { b.TX, b.TY, b.TZ = tx, ty, tz; return b }
		desc := fmt.Sprintf("case %d: %d triangles in a cube of side %v, region %dx%dx%d at (%v,%v,%v)", it, len(ts), size, nx, ny, nz, tx, ty, tz)

		b := place(mk())
		b.WhiteVoxels = WhiteVoxelMap{Key{1000, 1000, 1000}: {}} // overwritten
		if err := b.Voxelize(mesh); err != nil {
			vFail("error", "%s: %v", desc, err)
			continue
		}
		all := vKeys(b.WhiteVoxels)
		for k := range all {
			if k[0] < 0 || k[0] >= nx || k[1] < 0 || k[1] >= ny || k[2] < 0 || k[2] >= nz {
				vFail("region", "%s: voxel %v is outside the region", desc, k)
			}
		}
		union := map[[3]int]bool{}
		for z := 0; z < nz; z++ {
			l := place(mk())
			if err := l.VoxelizeZ(mesh, z); err != nil {
				vFail("error", "%s: layer %d: %v", desc, z, err)
			}
			for k := range vKeys(l.WhiteVoxels) {
				if k[0] < 0 || k[0] >= nx || k[1] < 0 || k[1] >= ny || k[2] != z {
					vFail("region", "%s: layer %d has voxel %v", desc, z, k)
				}
				union[k] = true
			}
		}
		if k, ok := vSame(all, union); !ok {
			vFail("layers", "%s: voxel %v: whole %v, layer by layer %v", desc, k, all[k], union[k])
		}
		for _, procs := range []int{1, 4, 16} {
			runtime.GOMAXPROCS(procs)
			c := place(mk())
			c.Voxelize(mesh)
			if k, ok := vSame(all, vKeys(c.WhiteVoxels)); !ok {
				vFail("schedule", "%s: voxel %v differs between runs", desc, k)
			}
		}
		vCase("regions the mesh reaches into", len(all) == 0, desc)
	}
}

func TestVerifManyLayers(t *testing.T) {
	// more layers and rows than any fixed number of workers, and more than 256 of each
	for _, d := range [][3]int{{3, 3, 300}, {3, 300, 3}, {300, 3, 3}, {70, 70, 70}} {
		w := func(n int) float64 { return float64(n) }
		v := func(x, y, z float64) gl.Vector { return gl.V(x*w(d[0]), y*w(d[1]), z*w(d[2])) }
		ts := []*gl.Triangle{
			gl.NewTriangleForPoints(v(-1, -1, -1), v(2, 2, -1), v(0.5, 0.5, 3)),
			gl.NewTriangleForPoints(v(-1, 0.2, -1), v(2, 0.4, -1), v(0.5, 0.7, 3)),
			gl.NewTriangleForPoints(v(0.2, -1, -1), v(0.7, 2, -1), v(0.5, 0.5, 3)),
		}
		mesh := gl.NewTriangleMesh(ts)
		scale := w(d[0])
		for _, n := range d {
			if w(n) > scale {
				scale = w(n)
			}
		}
		desc := fmt.Sprintf("region %v", d)
		b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: scale}
		if err := b.Voxelize(mesh); err != nil {
			vFail("error", "%s: %v", desc, err)
			continue
		}
		all := vKeys(b.WhiteVoxels)
		union := map[[3]int]bool{}
		zs := map[int]bool{}
		for z := 0; z < d[2]; z++ {
			l := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: scale}
			l.VoxelizeZ(mesh, z)
			for k := range vKeys(l.WhiteVoxels) {
				union[k] = true
				zs[k[2]] = true
			}
		}
		for k := range all {
			if k[0] < 0 || k[0] >= d[0] || k[1] < 0 || k[1] >= d[1] || k[2] < 0 || k[2] >= d[2] {
				vFail("region", "%s: voxel %v is outside the region", desc, k)
			}
		}
		if k, ok := vSame(all, union); !ok {
			vFail("layers", "%s: voxel %v: whole %v, layer by layer %v", desc, k, all[k], union[k])
		}
		vCase("many layers or rows", len(zs) < d[2], desc)
	}
}

func TestVerifZeroDims(t *testing.T) {
	mesh := gl.NewTriangleMesh([]*gl.Triangle{gl.NewTriangleForPoints(gl.V(0, 0, 0), gl.V(1, 0, 0), gl.V(0, 1, 1))})
	for m := 0; m < 8; m++ {
		d := [3]int{2, 2, 2}
		for i := range d {
			if m>>uint(i)&1 != 0 {
				d[i] = 0
			}
		}
		desc := fmt.Sprintf("dimensions %v", d)
		for i, f := range []func(b *BinVOX) error{func(b *BinVOX) error { return b.Voxelize(mesh) }, func(b *BinVOX) error { return b.VoxelizeZ(mesh, 0) }} {
			b := &BinVOX{NX: d[0], NY: d[1], NZ: d[2], Scale: 2}
			if err := f(b); (err != nil) != (m != 0) {
				vFail("zero", "%s: function %d: error %v", desc, i, err)
			}
		}
		vCase("a zero dimension", m == 0, desc)
	}
	vExhaustive("all combinations of zero dimensions")
}
