package binvox

import (
	"fmt"
	"math"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

func vAbs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func vSeg(t *testing.T, b *BinVOX, x1, y1, x2, y2 float64, vpmm float64, zi int, set setMap, ext xMinMaxMap, desc string) {
	key := func(x, y float64) (int, int) {
		return int(math.Floor(vpmm * (x - b.TX))), int(math.Floor(vpmm * (y - b.TY)))
	}
	tri := &gl.Triangle{}
	before := map[Key][]*gl.Triangle{}
	for k, v := range set {
		before[k] = append([]*gl.Triangle(nil), v...)
	}
	beforeX := map[int]minMax{}
	for k, v := range ext {
		beforeX[k] = *v
	}
	p := &intersectionPair{v1: gl.Vector{X: x1, Y: y1}, v2: gl.Vector{X: x2, Y: y2}, tri: tri}
	b.rasterizeShellPair(p, zi, 0, 1, vpmm, set, ext)
	ax, ay := key(x1, y1)
	bx, by := key(x2, y2)
	var marked []Key
	for k, v := range set {
		n := 0
		for _, q := range v {
			if q == tri {
				n++
			}
		}
		old := before[k]
		if n > 1 {
			vFail("twice", "%s: voxel %v lists the triangle %d times", desc, k, n)
		}
		if n > 0 {
			marked = append(marked, k)
		}
		if len(v) != len(old)+n {
			vFail("lists", "%s: voxel %v had %d triangles, now has %d", desc, k, len(old), len(v))
		}
		for i, q := range old {
			if i < len(v) && v[i] != q {
				vFail("lists", "%s: voxel %v lost a triangle", desc, k)
			}
		}
	}
	for k := range before {
		if _, ok := set[k]; !ok {
			vFail("lists", "%s: voxel %v disappeared", desc, k)
		}
	}
	dx, dy := bx-ax, by-ay
	steep := vAbs(dy) > vAbs(dx)
	maj, min := vAbs(dx), vAbs(dy)
	if steep {
		maj, min = min, maj
	}
	// off: distance along the major and the minor axis, in the direction of the segment
	off := func(k Key) (int, int) {
		ox, oy := k.X-ax, k.Y-ay
		if dx < 0 {
			ox = -ox
		}
		if dy < 0 {
			oy = -oy
		}
		if steep {
			return oy, ox
		}
		return ox, oy
	}
	at := map[int]int{}
	rows := map[int][2]int{}
	for _, k := range marked {
		if k.Z != zi {
			vFail("layer", "%s: marks %v, layer %d", desc, k, zi)
		}
		if k.Y < 0 || k.Y >= b.NY {
			vFail("row", "%s: marks %v outside the %d rows", desc, k, b.NY)
		}
		a, m := off(k)
		if a < 0 || a > maj {
			vFail("beyond", "%s: voxel %v beyond the ends (%d,%d)-(%d,%d)", desc, k, ax, ay, bx, by)
		}
		if _, ok := at[a]; ok {
			vFail("double", "%s: two voxels in one column, one is %v", desc, k)
		}
		at[a] = m
		if d := 2 * (m*maj - a*min); vAbs(d) > maj {
			vFail("line", "%s: voxel %v is more than half a voxel from the line (%d,%d)-(%d,%d)", desc, k, ax, ay, bx, by)
		}
		if a == 0 && m != 0 || a == maj && m != min {
			vFail("ends", "%s: voxel %v instead of an end of (%d,%d)-(%d,%d)", desc, k, ax, ay, bx, by)
		}
		r, ok := rows[k.Y]
		if !ok {
			r = [2]int{k.X, k.X}
		}
		if k.X < r[0] {
			r[0] = k.X
		}
		if k.X > r[1] {
			r[1] = k.X
		}
		rows[k.Y] = r
	}
	all := ay >= 0 && ay < b.NY && by >= 0 && by < b.NY
	if all && len(marked) != maj+1 {
		vFail("count", "%s: %d voxels marked for (%d,%d)-(%d,%d)", desc, len(marked), ax, ay, bx, by)
	}
	for a := 0; a < maj; a++ {
		m, ok1 := at[a]
		n, ok2 := at[a+1]
		if ok1 && ok2 && vAbs(m-n) > 1 {
			vFail("gap", "%s: gap between columns %d and %d", desc, a, a+1)
		}
	}
	// every column of the line whose voxel must be in a row of the region is there
	for a := 0; a <= maj; a++ {
		if _, ok := at[a]; ok {
			continue
		}
		in := true
		for m := -1; m <= min+1; m++ {
			if maj > 0 && vAbs(2*(m*maj-a*min)) > maj {
				continue
			}
			y := m
			if steep {
				y = a
			}
			if dy < 0 {
				y = -y
			}
			y += ay
			in = in && y >= 0 && y < b.NY
		}
		if in {
			vFail("hole", "%s: no voxel in column %d of (%d,%d)-(%d,%d)", desc, a, ax, ay, bx, by)
		}
	}
	for y, m := range ext {
		old, had := beforeX[y]
		r, ok := rows[y]
		want := minMax{r[0], r[1]}
		switch {
		case had && ok:
			want = old
			if r[0] < want.min {
				want.min = r[0]
			}
			if r[1] > want.max {
				want.max = r[1]
			}
		case had:
			want = old
		case !ok:
			vFail("extent", "%s: extent for row %d without a voxel", desc, y)
			continue
		}
		if *m != want {
			vFail("extent", "%s: row %d extent is %v, want %v", desc, y, *m, want)
		}
	}
	for y := range rows {
		if ext[y] == nil {
			vFail("extent", "%s: no extent for row %d", desc, y)
		}
	}
}

func TestVerifC13(t *testing.T) {
	n := 9
	if vThorough() {
		n = 20
	}
	for x := -n; x <= n; x++ {
		for y := -n; y <= n; y++ {
			b := &BinVOX{NX: 100, NY: 100, NZ: 5, TX: -50, TY: -50}
			d := fmt.Sprintf("segment by (%d,%d)", x, y)
			vTry("panic", d, func() {
				vSeg(t, b, 0.5, 0.5, float64(x)+0.5, float64(y)+0.5, 1, 2, setMap{}, xMinMaxMap{}, d)
			})
			vCase("every direction of a small segment", x == 0 && y == 0, d)
			for _, top := range []int{1, 3, 7} {
				b := &BinVOX{NX: 4, NY: top, NZ: 5, TX: -2, TY: -2}
				d := fmt.Sprintf("segment by (%d,%d) through %d rows", x, y, top)
				vTry("panic", d, func() {
					vSeg(t, b, 0.5, 0.5, float64(x)+0.5, float64(y)+0.5, 1, 2, setMap{}, xMinMaxMap{}, d)
				})
				vCase("every direction of a small segment through few rows", x == 0 && y == 0, d)
			}
		}
	}
	vExhaustive(fmt.Sprintf("segments between voxels up to %d apart", n))
	for _, l := range [][2]int{{300, 200}, {-70000, 33000}, {40000, -40000}, {20000, 50000}, {-5, -140000}} {
		b := &BinVOX{NX: 10, NY: 1000000, NZ: 5, TX: 0, TY: -500000}
		d := fmt.Sprintf("long segment by %v", l)
		vTry("panic", d, func() {
			vSeg(t, b, 0.5, 0.5, float64(l[0])+0.5, float64(l[1])+0.5, 1, 2, setMap{}, xMinMaxMap{}, d)
		})
		vCase("long segments", false, d)
	}
	r := vRand(13)
	for i := 0; i < vN(1500); i++ {
		b := &BinVOX{NX: 1 + r.Intn(40), NY: 1 + r.Intn(40), NZ: 9, TX: r.NormFloat64() * 10, TY: r.NormFloat64() * 10}
		vpmm := math.Exp(r.NormFloat64())
		set, ext := setMap{}, xMinMaxMap{}
		m := 1 + r.Intn(8)
		x1, y1 := b.TX+r.Float64()*30, b.TY+r.Float64()*30
		for s := 0; s < m; s++ { // a polyline, the lists grow
			x2, y2 := x1+r.NormFloat64()*10, y1+r.NormFloat64()*10
			switch r.Intn(6) {
			case 0:
				x2 = x1
			case 1:
				y2 = y1
			case 2:
				y2 = y1 + x2 - x1
			}
			d := fmt.Sprintf("segment (%v,%v)-(%v,%v), %v voxels per unit from (%v,%v), %d rows, number %d", x1, y1, x2, y2, vpmm, b.TX, b.TY, b.NY, s)
			vTry("panic", d, func() { vSeg(t, b, x1, y1, x2, y2, vpmm, 3, set, ext, d) })
			vCase("random segments, several into the same layer", false, d)
			x1, y1 = x2, y2
		}
	}
}
