package agent

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"io"
	"log"
	"math"
	"testing"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
)

type vXY struct{ x, y int }

// the image must be white at the pixels of the base voxels that are not cut
func vImage(resp *pb.SliceJobResponse, err error, dim int, base, cut map[vXY]bool, desc string) {
	if err != nil || resp == nil {
		vFail("error", "%s: %v", desc, err)
		return
	}
	img, err := png.Decode(bytes.NewReader(resp.PngFile))
	if err != nil {
		vFail("png", "%s: %v", desc, err)
		return
	}
	if img.Bounds() != image.Rect(0, 0, dim+2, dim+2) {
		vFail("bounds", "%s: bounds %v", desc, img.Bounds())
		return
	}
	bad := 0
	for py := 0; py < dim+2; py++ {
		for px := 0; px < dim+2; px++ {
			v := vXY{px - 1, dim - py} // y mirrored: row 1 is voxel dim-1
			want := base[v] && !cut[v]
			if px == 0 || py == 0 || px == dim+1 || py == dim+1 {
				want = false
			}
			r, g, b, a := img.At(px, py).RGBA()
			white := r == 0xffff && g == 0xffff && b == 0xffff && a == 0xffff
			black := r == 0 && g == 0 && b == 0 && a == 0xffff
			if want && !white || !want && !black {
				if bad++; bad == 1 {
					vFail("pixel", "%s: pixel (%d,%d), voxel %v, base %v, cut %v, is %v", desc, px, py, v, base[v], cut[v], img.At(px, py))
				}
			}
		}
	}
}

func vImager(dim int, seq []voxelInfo, z int, desc string) {
	base, cut := map[vXY]bool{}, map[vXY]bool{}
	ch := make(chan voxelInfo, len(seq))
	for _, v := range seq {
		ch <- v
		if v.Base {
			base[vXY{v.X, v.Y}] = true
		} else {
			cut[vXY{v.X, v.Y}] = true
		}
	}
	close(ch)
	vTry("imager", desc, func() {
		resp, err := imager(&pb.SliceJobRequest{NewJobRequest: &pb.NewJobRequest{Dim: int64(dim), NX: 1, NY: 1, NZ: 1}, Z: int64(z)}, ch)
		vImage(resp, err, dim, base, cut, desc)
	})
}

func TestVerifC16Imager(t *testing.T) {
	log.SetOutput(io.Discard)
	// all sequences of at most 4 voxels of a 2x1 part of a 2x2 layer, and of at most 3 of all of it
	for _, w := range []struct{ n, h int }{{4, 1}, {3, 2}} {
		var rec func(seq []voxelInfo)
		rec = func(seq []voxelInfo) {
			desc := fmt.Sprintf("dim 2, voxels %v", seq)
			vCase("short sequence", len(seq) == 0, desc)
			vImager(2, seq, 0, desc)
			if len(seq) == w.n {
				return
			}
			for x := 0; x < 2; x++ {
				for y := 0; y < w.h; y++ {
					for _, b := range []bool{true, false} {
						rec(append(seq[:len(seq):len(seq)], voxelInfo{x, y, b}))
					}
				}
			}
		}
		rec(nil)
	}
	vExhaustive("imager: every sequence of up to 3 voxels of a 2x2 layer, of up to 4 of one row")
	// every voxel of every small layer, alone and cut
	for dim := 1; dim <= 9; dim++ {
		for x := 0; x < dim; x++ {
			for y := 0; y < dim; y++ {
				desc := fmt.Sprintf("dim %d, voxel %d,%d", dim, x, y)
				vCase("single voxel", false, desc)
				vImager(dim, []voxelInfo{{x, y, true}}, 1, desc)
				vImager(dim, []voxelInfo{{x, y, false}, {x, y, true}, {x, y, true}, {(x + 1) % dim, y, true}}, 2, desc+", cut")
			}
		}
	}
	vExhaustive("imager: every voxel of layers up to 9x9")
	r := vRand(16)
	for i := 0; i < vN(600); i++ {
		dim := 1 + r.Intn(40)
		seq := make([]voxelInfo, r.Intn(1+2*dim*dim))
		for j := range seq {
			seq[j] = voxelInfo{r.Intn(dim), r.Intn(dim), r.Intn(3) > 0}
		}
		desc := fmt.Sprintf("dim %d, %d voxels", dim, len(seq))
		if len(seq) < 20 {
			desc = fmt.Sprintf("dim %d, voxels %v", dim, seq)
		}
		vCase("random sequence", len(seq) == 0, desc)
		vImager(dim, seq, r.Intn(1000), desc)
	}
}

func vFile(m *gl.Mesh) *pb.STLFile {
	f := &pb.STLFile{}
	v := func(p gl.Vector) *pb.Vertex { return &pb.Vertex{X: p.X, Y: p.Y, Z: p.Z} }
	for _, t := range m.Triangles {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t.V1.Position), V2: v(t.V2.Position), V3: v(t.V3.Position)})
	}
	return f
}

func TestVerifC16SliceJob(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(161)
	for i := 0; i < vN(150); i++ {
		// the layer of voxels, and the boxes in voxels
		nx, ny := 1+r.Intn(3), 1+r.Intn(3)
		w, h, d := nx*(1+r.Intn(5)), ny*(1+r.Intn(5)), 1+r.Intn(5)
		dim := w
		if h > dim {
			dim = h
		}
		if d > dim {
			dim = d
		}
		org := gl.V(float64(r.Intn(7)-3), float64(r.Intn(7)-3), float64(r.Intn(7)-3))
		box := func(a, b gl.Vector) *gl.Mesh { return gl.NewCubeForBox(gl.Box{Min: org.Add(a), Max: org.Add(b)}) }
		meshes := []*gl.Mesh{box(gl.V(0, 0, 0), gl.V(float64(w), float64(h), float64(d)))}
		job := &pb.NewJobRequest{Dim: int64(dim), NX: int64(nx), NY: int64(ny), NZ: 1}
		for n := r.Intn(3); n > 0; n-- { // cuts, large enough to be divided, and possibly beyond the base
			a := gl.V(r.Float64()*float64(w)-1, r.Float64()*float64(h)-1, r.Float64()*float64(d)-1)
			b := gl.V(1+r.Float64()*float64(w), 1+r.Float64()*float64(h), 1+r.Float64()*float64(d))
			l := math.Max(b.X, math.Max(b.Y, b.Z))
			if b.X*float64(dim) < l*float64(nx) || b.Y*float64(dim) < l*float64(ny) {
				b = gl.V(float64(w), float64(h), float64(d)) // could not be divided
			}
			meshes = append(meshes, box(a, a.Add(b)))
		}
		for _, m := range meshes {
			job.StlFiles = append(job.StlFiles, vFile(m))
		}
		z := r.Intn(d)
		desc := fmt.Sprintf("%d,%d,%d voxels from %v, n %d,%d, %d files, z %d", w, h, d, org, nx, ny, len(meshes), z)
		// the voxels, from the voxelizer (checked elsewhere)
		base, cut := map[vXY]bool{}, map[vXY]bool{}
		rx, ry := w/nx, h/ny
		md := rx
		if ry > md {
			md = ry
		}
		if d > md {
			md = d
		}
		vTry("slicejob", desc, func() {
			for f, m := range meshes {
				for x := 0; x < nx; x++ {
					for y := 0; y < ny; y++ {
						bv := &binvox.BinVOX{NX: rx, NY: ry, NZ: d, TX: org.X + float64(x*rx), TY: org.Y + float64(y*ry), TZ: org.Z, Scale: float64(md)}
						if err := bv.VoxelizeZ(m, z); err != nil {
							vFail("voxelize", "%s: %v", desc, err)
						}
						for k := range bv.WhiteVoxels {
							p := vXY{k.X + x*rx, k.Y + y*ry}
							if f == 0 {
								base[p] = true
							} else {
								cut[p] = true
							}
						}
					}
				}
			}
			vCase("slice job", len(base) == 0, desc)
			resp, err := (&agent{}).SliceJob(nil, &pb.SliceJobRequest{NewJobRequest: job, Z: int64(z)})
			vImage(resp, err, dim, base, cut, desc)
		})
	}
}
