package agent

import (
	"fmt"
	"io"
	"log"
	"math"
	"testing"

	gl "github.com/fogleman/fauxgl"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
)

func vBoxFile(min, max gl.Vector) *pb.STLFile {
	f := &pb.STLFile{}
	m := gl.NewCubeForBox(gl.Box{Min: min, Max: max})
	v := func(p gl.Vector) *pb.Vertex { return &pb.Vertex{X: p.X, Y: p.Y, Z: p.Z} }
	for _, t := range m.Triangles {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t.V1.Position), V2: v(t.V2.Position), V3: v(t.V3.Position)})
	}
	return f
}

func vNear(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func TestVerifC20(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(20)
	for i := 0; i < vN(1500); i++ {
		nx, ny, nz := 1+r.Intn(4), 1+r.Intn(4), 1+r.Intn(3)
		files := 1 + r.Intn(3)
		// sizes in voxels; large enough for the divisions (with some room, the longest axis is dim)
		sx, sy, sz := nx*(1+r.Intn(5))+r.Intn(nx), ny*(1+r.Intn(5))+r.Intn(ny), nz*(1+r.Intn(5))+r.Intn(nz)
		dim := sx
		if sy > dim {
			dim = sy
		}
		if sz > dim {
			dim = sz
		}
		mm := math.Ldexp(1+float64(r.Intn(7)), -2) // a voxel
		size := gl.V(float64(sx)*mm, float64(sy)*mm, float64(sz)*mm)
		// a little less than the last voxel on the other axes
		if sx < dim {
			size.X -= mm / 4
		}
		if sy < dim {
			size.Y -= mm / 4
		}
		if sz < dim {
			size.Z -= mm / 4
		}
		min := gl.V(float64(r.Intn(9))-4.5, float64(r.Intn(9))-4.25, float64(r.Intn(9))-4)
		job := &pb.NewJobRequest{Dim: int64(dim), NX: int64(nx), NY: int64(ny), NZ: int64(nz)}
		job.StlFiles = append(job.StlFiles, vBoxFile(min, min.Add(size)))
		for len(job.StlFiles) < files { // cuts: elsewhere; same proportions, so that they divide as well
			d := gl.V(r.Float64()*5, r.Float64()*5, r.Float64()*5)
			k := 0.5 + r.Float64()
			a := min.Add(d)
			c := vBoxFile(a, a.Add(size.MulScalar(k)))
			if r.Intn(2) == 0 { // not a box
				c.Triangles = append(c.Triangles, c.Triangles[:r.Intn(4)]...)
			}
			job.StlFiles = append(job.StlFiles, c)
		}
		desc := fmt.Sprintf("box %v size %v = %d,%d,%d voxels, n %d,%d,%d, %d files", min, size, sx, sy, sz, nx, ny, nz, files)
		vTry("agent", desc, func() {
			ch, err := generateMR(&pb.SliceJobRequest{NewJobRequest: job})
			if err != nil || ch == nil {
				vFail("error", "%s: %v", desc, err)
				return
			}
			vCase("dice", nx*ny*nz == 1, desc)
			dx, dy, dz := sx/nx, sy/ny, sz/nz
			md := dx
			if dy > md {
				md = dy
			}
			if dz > md {
				md = dz
			}
			n := 0
			type key struct{ f, x, y, z int }
			seen := map[key]bool{}
			for b := range ch {
				f := n / (nx * ny * nz) // the file
				n++
				if b == nil || b.bv == nil || b.mesh == nil || f >= files {
					vFail("regions", "%s: bad region %d", desc, n)
					continue
				}
				if b.base != (f == 0) {
					vFail("base", "%s: region %d of file %d has base %v", desc, n, f, b.base)
				}
				if len(b.mesh.Triangles) != len(job.StlFiles[f].Triangles) || b.mesh.Triangles[0].V1.Position.X != job.StlFiles[f].Triangles[0].V1.X {
					vFail("mesh", "%s: region %d has another mesh than that of file %d", desc, n, f)
				}
				if b.bv.NX != dx || b.bv.NY != dy || b.bv.NZ != dz {
					vFail("size", "%s: region of %d,%d,%d, want %d,%d,%d", desc, b.bv.NX, b.bv.NY, b.bv.NZ, dx, dy, dz)
				}
				if !vNear(b.bv.Scale, float64(md)*mm) {
					vFail("resolution", "%s: scale %v, want %v", desc, b.bv.Scale, float64(md)*mm)
				}
				if b.dx%dx != 0 || b.dy%dy != 0 || b.dz%dz != 0 {
					vFail("offset", "%s: region at %d,%d,%d", desc, b.dx, b.dy, b.dz)
				}
				k := key{f, b.dx / dx, b.dy / dy, b.dz / dz}
				if seen[k] || k.x < 0 || k.x >= nx || k.y < 0 || k.y >= ny || k.z < 0 || k.z >= nz {
					vFail("regions", "%s: region %v twice or outside", desc, k)
				}
				seen[k] = true
				if !vNear(b.bv.TX, min.X+float64(b.dx)*mm) || !vNear(b.bv.TY, min.Y+float64(b.dy)*mm) || !vNear(b.bv.TZ, min.Z+float64(b.dz)*mm) {
					vFail("place", "%s: region %v at %v,%v,%v", desc, k, b.bv.TX, b.bv.TY, b.bv.TZ)
				}
			}
			if len(seen) != files*nx*ny*nz {
				vFail("regions", "%s: %d regions", desc, len(seen))
			}
		})
	}
}
