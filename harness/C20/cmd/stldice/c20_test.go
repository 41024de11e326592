package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"testing"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

func vNear(a, b float64) bool {
	return math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func TestVerifC20(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(20)
	dir := os.Getenv("VERIF_SCRATCH")
	for i := 0; i < vN(120); i++ {
		nx, ny, nz := 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(3)
		sx, sy, sz := nx*(2+r.Intn(4))+r.Intn(nx), ny*(2+r.Intn(4))+r.Intn(ny), nz*(2+r.Intn(4))+r.Intn(nz)
		many := r.Intn(8) == 0
		if many { // too many divisions along one axis
			switch r.Intn(3) {
			case 0:
				nx = sx + 1 + r.Intn(3)
			case 1:
				ny = sy + 1 + r.Intn(3)
			case 2:
				nz = sz + 1 + r.Intn(3)
			}
		}
		dim := sx
		if sy > dim {
			dim = sy
		}
		if sz > dim {
			dim = sz
		}
		mm := math.Ldexp(1+float64(r.Intn(7)), -2)
		size := gl.V(float64(sx)*mm, float64(sy)*mm, float64(sz)*mm)
		if sx < dim {
			size.X -= mm / 4
		}
		if sy < dim {
			size.Y -= mm / 4
		}
		if sz < dim {
			size.Z -= mm / 4
		}
		min := gl.V(float64(r.Intn(9))-4.5, float64(r.Intn(9))-4.25, float64(r.Intn(9))-4)
		box := gl.Box{Min: min, Max: min.Add(size)}
		// the mesh is larger than the box, so that every region has voxels
		in := gl.Box{Min: min.SubScalar(mm * 3.3), Max: box.Max.AddScalar(mm * 3.3)}
		mesh := gl.NewCubeForBox(in)
		pfx := filepath.Join(dir, fmt.Sprintf("c20-%d", i))
		desc := fmt.Sprintf("box %v size %v = %d,%d,%d voxels, n %d,%d,%d", min, size, sx, sy, sz, nx, ny, nz)
		vTry("stldice", desc, func() {
			L := math.Max(size.X, math.Max(size.Y, size.Z))
			b := box
			pfxs, err := diceMesh(mesh, &b, L, dim, nx, ny, nz, pfx)
			files, _ := filepath.Glob(pfx + "*")
			if many {
				vCase("too many divisions", true, desc)
				if err == nil {
					vFail("error", "%s: no error", desc)
				}
				return
			}
			vCase("dice", nx*ny*nz == 1, desc)
			if err != nil {
				vFail("error", "%s: %v", desc, err)
				return
			}
			dx, dy, dz := sx/nx, sy/ny, sz/nz
			md := dx
			if dy > md {
				md = dy
			}
			if dz > md {
				md = dz
			}
			var want []string
			for x := 0; x < nx; x++ {
				for y := 0; y < ny; y++ {
					for z := 0; z < nz; z++ {
						want = append(want, fmt.Sprintf("%v-%02d-%02d-%02d.binvox", pfx, x, y, z))
						v, err := binvox.Read(want[len(want)-1], 0, 0, 0, 0, 0, 0)
						if err != nil {
							vFail("regions", "%s: region %d,%d,%d: %v", desc, x, y, z, err)
							continue
						}
						if v.NX != dx || v.NY != dy || v.NZ != dz {
							vFail("size", "%s: region %d,%d,%d of %d,%d,%d, want %d,%d,%d", desc, x, y, z, v.NX, v.NY, v.NZ, dx, dy, dz)
						}
						if !vNear(v.Scale, float64(md)*mm) {
							vFail("resolution", "%s: scale %v, want %v", desc, v.Scale, float64(md)*mm)
						}
						if !vNear(v.TX, min.X+float64(x*dx)*mm) || !vNear(v.TY, min.Y+float64(y*dy)*mm) || !vNear(v.TZ, min.Z+float64(z*dz)*mm) {
							vFail("place", "%s: region %d,%d,%d at %v,%v,%v", desc, x, y, z, v.TX, v.TY, v.TZ)
						}
					}
				}
			}
			sort.Strings(want)
			if fmt.Sprint(want) != fmt.Sprint(files) {
				vFail("regions", "%s: files %v", desc, files)
			}
			if len(pfxs) != nx*ny*nz {
				vFail("prefixes", "%s: %d prefixes", desc, len(pfxs))
			}
		})
		files, _ := filepath.Glob(pfx + "*")
		for _, f := range files {
			os.Remove(f)
		}
	}
}
