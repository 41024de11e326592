package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"testing"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/mr"
	"github.com/golang/protobuf/proto"
)

func vNear(a, b float64) bool {
	return math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func TestVerifC20(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(20)
	dir := os.Getenv("VERIF_SCRATCH")
	for i := 0; i < vN(200); i++ {
		nx, ny, nz := 1+r.Intn(4), 1+r.Intn(4), 1+r.Intn(3)
		files := 1 + r.Intn(3)
		sx, sy, sz := nx*(1+r.Intn(5))+r.Intn(nx), ny*(1+r.Intn(5))+r.Intn(ny), nz*(1+r.Intn(5))+r.Intn(nz)
		d := sx
		if sy > d {
			d = sy
		}
		if sz > d {
			d = sz
		}
		mm := math.Ldexp(1+float64(r.Intn(7)), -2)
		size := gl.V(float64(sx)*mm, float64(sy)*mm, float64(sz)*mm)
		if sx < d {
			size.X -= mm / 4
		}
		if sy < d {
			size.Y -= mm / 4
		}
		if sz < d {
			size.Z -= mm / 4
		}
		min := gl.V(float64(r.Intn(9))-4.5, float64(r.Intn(9))-4.25, float64(r.Intn(9))-4)
		var args []string
		var meshes []*gl.Mesh
		for f := 0; f < files; f++ {
			b := gl.Box{Min: min, Max: min.Add(size)}
			if f > 0 {
				e := gl.V(float64(r.Intn(5)), float64(r.Intn(5)), float64(r.Intn(5)))
				b.Min = b.Min.Add(e)
				b.Max = b.Max.Add(e.MulScalar(2))
			}
			m := gl.NewCubeForBox(b)
			for n := r.Intn(3); n > 0; n-- {
				m.Triangles = append(m.Triangles, m.Triangles[r.Intn(len(m.Triangles))])
			}
			name := filepath.Join(dir, fmt.Sprintf("c20-%d-%d.stl", i, f))
			if err := gl.SaveSTL(name, m); err != nil {
				t.Fatal(err)
			}
			args = append(args, name)
			meshes = append(meshes, m)
		}
		*dim, *nX, *nY, *nZ = d, nx, ny, nz
		desc := fmt.Sprintf("box %v size %v = %d,%d,%d voxels, n %d,%d,%d, %d files", min, size, sx, sy, sz, nx, ny, nz, files)
		vTry("stldice-mr", desc, func() {
			ch, err := generateMR(args)
			if err != nil || ch == nil {
				vFail("error", "%s: %v", desc, err)
				return
			}
			vCase("dice", nx*ny*nz == 1, desc)
			dx, dy, dz := sx/nx, sy/ny, sz/nz
			md := dx
			if dy > md {
				md = dy
			}
			if dz > md {
				md = dz
			}
			n := 0
			type key struct{ f, x, y, z int }
			seen := map[key]bool{}
			for item := range ch {
				f := n / (nx * ny * nz)
				n++
				m := &mr.MapIn{}
				data, _ := item.([]byte)
				if err := proto.Unmarshal(data, m); err != nil || m.VoxelRegion == nil || f >= files {
					vFail("regions", "%s: bad region %d: %v", desc, n, err)
					continue
				}
				g := m.VoxelRegion
				if m.Base != (f == 0) {
					vFail("base", "%s: region %d of file %d has base %v", desc, n, f, m.Base)
				}
				if len(m.Triangles) != len(meshes[f].Triangles) {
					vFail("mesh", "%s: region %d has %d triangles", desc, n, len(m.Triangles))
				} else {
					for j, tr := range m.Triangles {
						q := meshes[f].Triangles[j]
						for c, v := range []*mr.Vertex{tr.V1, tr.V2, tr.V3} {
							p := []gl.Vector{q.V1.Position, q.V2.Position, q.V3.Position}[c]
							if v.X != p.X || v.Y != p.Y || v.Z != p.Z {
								vFail("mesh", "%s: region %d has vertex %v for %v", desc, n, v, p)
							}
						}
					}
				}
				if g.Nx != int64(dx) || g.Ny != int64(dy) || g.Nz != int64(dz) {
					vFail("size", "%s: region of %d,%d,%d, want %d,%d,%d", desc, g.Nx, g.Ny, g.Nz, dx, dy, dz)
				}
				if !vNear(g.Scale, float64(md)*mm) {
					vFail("resolution", "%s: scale %v, want %v", desc, g.Scale, float64(md)*mm)
				}
				fx, fy, fz := (g.Tx-min.X)/mm/float64(dx), (g.Ty-min.Y)/mm/float64(dy), (g.Tz-min.Z)/mm/float64(dz)
				k := key{f, int(math.Round(fx)), int(math.Round(fy)), int(math.Round(fz))}
				if !vNear(fx, float64(k.x)) || !vNear(fy, float64(k.y)) || !vNear(fz, float64(k.z)) {
					vFail("place", "%s: region at %v,%v,%v", desc, g.Tx, g.Ty, g.Tz)
				}
				if seen[k] || k.x < 0 || k.x >= nx || k.y < 0 || k.y >= ny || k.z < 0 || k.z >= nz {
					vFail("regions", "%s: region %v twice or outside", desc, k)
				}
				seen[k] = true
			}
			if len(seen) != files*nx*ny*nz {
				vFail("regions", "%s: %d regions", desc, len(seen))
			}
		})
		for _, a := range args {
			os.Remove(a)
		}
	}
}
