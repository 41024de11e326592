package stl

import (
	"fmt"
	"math"
	"testing"

	gl "github.com/fogleman/fauxgl"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
)

// the number of voxels needed to cover length l, when the longest axis L gets n; rounding may go either way
func vCover(l, L float64, n int) (lo, hi int) {
	x := l * float64(n) / L
	return int(math.Ceil(x - 1e-6)), int(math.Ceil(x + 1e-6))
}

func vIn(v, lo, hi, n int) bool { return v >= lo/n && v <= hi/n }

func vNear(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func TestVerifC20(t *testing.T) {
	r := vRand(20)
	for i := 0; i < vN(3000); i++ {
		dim, nx, ny, nz := 1+r.Intn(60), 1+r.Intn(5), 1+r.Intn(5), 1+r.Intn(3)
		if r.Intn(4) == 0 {
			dim = 1 + r.Intn(5000)
		}
		size := gl.V(1+math.Floor(r.Float64()*20), 1+math.Floor(r.Float64()*20), 1+math.Floor(r.Float64()*20))
		if r.Intn(2) == 0 {
			size = gl.V(0.5+r.Float64()*10, 0.5+r.Float64()*10, 0.5+r.Float64()*10)
		}
		min := gl.V(r.NormFloat64()*10, r.NormFloat64()*10, r.NormFloat64()*10)
		max := min.Add(size)
		// triangles: the corners, and others in between
		pt := func() *pb.Vertex {
			return &pb.Vertex{X: min.X + r.Float64()*size.X, Y: min.Y + r.Float64()*size.Y, Z: min.Z + r.Float64()*size.Z}
		}
		f := &pb.STLFile{}
		for n := 1 + r.Intn(5); n > 0; n-- {
			f.Triangles = append(f.Triangles, &pb.Triangle{V1: pt(), V2: pt(), V3: pt()})
		}
		ends := []float64{min.X, min.Y, min.Z, max.X, max.Y, max.Z}
		for _, e := range r.Perm(6) {
			tr := f.Triangles[r.Intn(len(f.Triangles))]
			if r.Intn(2) == 0 {
				tr = &pb.Triangle{V1: pt(), V2: pt(), V3: pt()}
				f.Triangles = append(f.Triangles, tr)
			}
			_ = tr
			v := [...]*pb.Vertex{tr.V1, tr.V2, tr.V3}[r.Intn(3)]
			*[...]*float64{&v.X, &v.Y, &v.Z, &v.X, &v.Y, &v.Z}[e] = ends[e]
		}
		// the box of what came out (one end may have been written over)
		min, max = gl.V(math.Inf(1), math.Inf(1), math.Inf(1)), gl.V(math.Inf(-1), math.Inf(-1), math.Inf(-1))
		for _, tr := range f.Triangles {
			for _, v := range []*pb.Vertex{tr.V1, tr.V2, tr.V3} {
				p := gl.V(v.X, v.Y, v.Z)
				min, max = min.Min(p), max.Max(p)
			}
		}
		size = max.Sub(min)
		L := math.Max(size.X, math.Max(size.Y, size.Z))
		desc := fmt.Sprintf("box %v-%v dim %d n %d,%d,%d (%d triangles)", min, max, dim, nx, ny, nz, len(f.Triangles))
		vTry("new", desc, func() {
			s, err := New(f, int64(dim), int64(nx), int64(ny), int64(nz))
			xl, xh := vCover(size.X, L, dim)
			yl, yh := vCover(size.Y, L, dim)
			zl, zh := vCover(size.Z, L, dim)
			if xl/nx == 0 || yl/ny == 0 || zl/nz == 0 {
				vCase("too many divisions", true, desc)
				if err == nil && (xh/nx == 0 || yh/ny == 0 || zh/nz == 0) {
					vFail("error", "%s: no error, regions of %d,%d,%d", desc, s.DimX, s.DimY, s.DimZ)
				}
				return
			}
			vCase("dice", nx*ny*nz == 1, desc)
			if err != nil || s == nil {
				vFail("error", "%s: %v", desc, err)
				return
			}
			if s.MBB.Min != min || s.MBB.Max != max {
				vFail("box", "%s: box %v", desc, s.MBB)
			}
			if !vIn(s.DimX, xl, xh, nx) || !vIn(s.DimY, yl, yh, ny) || !vIn(s.DimZ, zl, zh, nz) {
				vFail("size", "%s: regions of %d,%d,%d, want %d,%d,%d", desc, s.DimX, s.DimY, s.DimZ, xl/nx, yl/ny, zl/nz)
			}
			if s.ModelDimX < xl || s.ModelDimX > xh || s.ModelDimY < yl || s.ModelDimY > yh || s.ModelDimZ < zl || s.ModelDimZ > zh {
				vFail("grid", "%s: grid of %d,%d,%d, want %d,%d,%d", desc, s.ModelDimX, s.ModelDimY, s.ModelDimZ, xl, yl, zl)
			}
			if !vNear(s.MMPV*float64(dim), L) {
				vFail("resolution", "%s: %v mm per voxel", desc, s.MMPV)
			}
			m := s.DimX
			if s.DimY > m {
				m = s.DimY
			}
			if s.DimZ > m {
				m = s.DimZ
			}
			if !vNear(s.SubregionScale/float64(m), L/float64(dim)) {
				vFail("resolution", "%s: scale %v for regions of %d,%d,%d", desc, s.SubregionScale, s.DimX, s.DimY, s.DimZ)
			}
			if len(s.Mesh.Triangles) != len(f.Triangles) {
				vFail("mesh", "%s: %d triangles", desc, len(s.Mesh.Triangles))
				return
			}
			for j, tr := range f.Triangles {
				q := s.Mesh.Triangles[j]
				if q.V1.Position != gl.V(tr.V1.X, tr.V1.Y, tr.V1.Z) || q.V2.Position != gl.V(tr.V2.X, tr.V2.Y, tr.V2.Z) || q.V3.Position != gl.V(tr.V3.X, tr.V3.Y, tr.V3.Z) {
					vFail("mesh", "%s: triangle %d is %v", desc, j, q)
				}
			}
		})
	}
}
