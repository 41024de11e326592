package binvox

import (
	"fmt"
	"sync"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

// one row: fill and compare with the property's own words
func vFillCase(b *BinVOX, zi int, rows map[int]map[int][]*gl.Triangle, ext map[int]minMax, key, desc string) bool {
	set := setMap{}
	for y, r := range rows {
		for x, l := range r {
			set[Key{x, y, zi}] = append([]*gl.Triangle(nil), l...)
		}
	}
	xm := xMinMaxMap{}
	for y, e := range ext {
		xm[y] = &minMax{e.min, e.max}
	}
	want := map[Key]bool{}
	solid := 0
	for y, e := range ext {
		counted := map[*gl.Triangle]bool{}
		inside := false
		for x := e.min; x <= e.max && x < b.NX; x++ {
			l := rows[y][x]
			if len(l) == 0 {
				if inside && x >= 0 {
					want[Key{x, y, zi}] = true
					solid++
				}
				continue
			}
			if x >= 0 {
				want[Key{x, y, zi}] = true
			}
			neg, pos := 0, 0
			for _, t := range l {
				if counted[t] {
					continue
				}
				counted[t] = true
				if t.V1.Normal.X < -epsilon {
					neg++
				} else if t.V1.Normal.X > epsilon {
					pos++
				}
			}
			if neg > pos {
				inside = true
			} else if neg < pos {
				inside = false
			}
		}
	}
	var mu sync.Mutex
	got := map[Key]int{}
	b.floodFill(zi, set, func(k Key) { mu.Lock(); got[k]++; mu.Unlock() }, xm)
	for k := range want {
		if got[k] == 0 {
			vFail(key, "%s: voxel %v is not set", desc, k)
		}
	}
	for k := range got {
		if !want[k] {
			vFail(key, "%s: voxel %v is set", desc, k)
		}
	}
	return solid > 0
}

func vTri(nx float64) *gl.Triangle {
	t := &gl.Triangle{}
	n := gl.V(nx, 0, 1).Normalize()
	t.V1.Normal, t.V2.Normal, t.V3.Normal = n, n, n
	return t
}

func TestVerifSmall(t *testing.T) {
	// every row of up to 5 voxels with one of 6 list shapes each, two triangles shared between voxels
	const w = 5
	shapes := 6
	total := 1
	for i := 0; i < w; i++ {
		total *= shapes
	}
	for _, lo := range []int{0, -2} {
		for c := 0; c < total; c++ {
			neg, pos, flat, sn, sp := vTri(-1), vTri(1), vTri(0), vTri(-0.5), vTri(0.5)
			row := map[int][]*gl.Triangle{}
			n := c
			desc := ""
			for i := 0; i < w; i++ {
				k := n % shapes
				n /= shapes
				desc += fmt.Sprint(k)
				var l []*gl.Triangle
				switch k {
				case 1:
					l = []*gl.Triangle{sn}
				case 2:
					l = []*gl.Triangle{sp}
				case 3:
					l = []*gl.Triangle{flat}
				case 4:
					l = []*gl.Triangle{neg, flat, sp}
				case 5:
					l = []*gl.Triangle{pos, pos, sn}
				}
				if l != nil {
					row[lo+i] = l
				}
			}
			b := &BinVOX{NX: 4, NY: 3, NZ: 2, Scale: 1}
			s := vFillCase(b, 1, map[int]map[int][]*gl.Triangle{2: row}, map[int]minMax{2: {lo, lo + w - 1}}, "row", fmt.Sprintf("row from x=%d, lists %s, NX=4", lo, desc))
			vCase("filled and unfilled rows", !s, fmt.Sprintf("row from %d lists %s", lo, desc))
		}
	}
	vExhaustive("all rows of 5 voxels over 6 triangle lists, starting at 0 and at -2, in a region 4 wide")
}

func TestVerifRandom(t *testing.T) {
	r := vRand(1)
	for it := 0; it < vN(300); it++ {
		nx, ny := 1+r.Intn(40), 1+r.Intn(6)
		b := &BinVOX{NX: nx, NY: ny, NZ: 5, Scale: 1}
		rows := map[int]map[int][]*gl.Triangle{}
		ext := map[int]minMax{}
		var pool []*gl.Triangle
		for i := 0; i < 3+r.Intn(30); i++ {
			pool = append(pool, vTri([]float64{-1, 1, -1e-3, 1e-3, 0, 1e-12, -1e-12, 2, -2}[r.Intn(9)]))
		}
		for y := 0; y < ny; y++ {
			if r.Intn(5) == 0 {
				continue
			}
			min := r.Intn(2*nx) - nx
			max := min + r.Intn(2*nx)
			row := map[int][]*gl.Triangle{}
			for x := min; x <= max; x++ {
				if r.Intn(3) > 0 && x != min && x != max {
					continue
				}
				for i := 0; i < 1+r.Intn(4); i++ {
					row[x] = append(row[x], pool[r.Intn(len(pool))])
				}
			}
			rows[y], ext[y] = row, minMax{min, max}
		}
		desc := fmt.Sprintf("case %d: region %dx%d, %d rows, extents %v", it, nx, ny, len(rows), ext)
		s := vFillCase(b, r.Intn(5), rows, ext, "rows", desc)
		vCase("filled and unfilled rows", !s, desc)
	}
}

// a box with outward normals
func vBox(x0, y0, z0, x1, y1, z1 float64) *gl.Mesh {
	v := func(i int) gl.Vector {
		p := gl.V(x0, y0, z0)
		if i&1 != 0 {
			p.X = x1
		}
		if i&2 != 0 {
			p.Y = y1
		}
		if i&4 != 0 {
			p.Z = z1
		}
		return p
	}
	var ts []*gl.Triangle
	for _, q := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		ts = append(ts, gl.NewTriangleForPoints(v(q[0]), v(q[1]), v(q[2])), gl.NewTriangleForPoints(v(q[0]), v(q[2]), v(q[3])))
	}
	return gl.NewTriangleMesh(ts)
}

func TestVerifBoxes(t *testing.T) {
	r := vRand(2)
	fl := func(f float64) int {
		n := int(f)
		if float64(n) > f {
			n--
		}
		return n
	}
	for it := 0; it < vN(40); it++ {
		n := 4 + r.Intn(8)
		// one voxel per mm; walls away from voxel boundaries
		c := func(lo, hi int) float64 { return float64(lo+r.Intn(hi-lo+1)) + 0.1 + 0.8*r.Float64() }
		x0, y0 := c(-6, n), c(-6, n)
		x1, y1 := x0+2+float64(r.Intn(8)), y0+2+float64(r.Intn(8))
		b := &BinVOX{NX: n, NY: n, NZ: n, Scale: float64(n), TX: 0, TY: 0, TZ: 0}
		z := r.Intn(n)
		b.VoxelizeZ(vBox(x0, y0, -1, x1, y1, float64(n)+1), z)
		desc := fmt.Sprintf("case %d: box (%v,%v)-(%v,%v), %d^3 region at 0, layer %d", it, x0, y0, x1, y1, n, z)
		count := 0
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				in := fl(x0) <= x && x <= fl(x1) && fl(y0) <= y && y <= fl(y1)
				_, got := b.WhiteVoxels[Key{x, y, z}]
				if in {
					count++
				}
				if in != got {
					vFail("box", "%s: voxel (%d,%d) in the box: %v, set: %v", desc, x, y, in, got)
				}
			}
		}
		vCase("boxes that reach into the region", count == 0, desc)
	}
}
