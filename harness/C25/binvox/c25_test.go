package binvox

import (
	"fmt"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

func TestVerifC25(t *testing.T) {
	r := vRand(25)
	key := func(t *gl.Triangle) (k [9]float64) {
		for i, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			k[3*i], k[3*i+1], k[3*i+2] = v.X, v.Y, v.Z
		}
		return
	}
	mk := func(k [9]float64) *gl.Triangle {
		return &gl.Triangle{V1: gl.Vertex{Position: gl.Vector{X: k[0], Y: k[1], Z: k[2]}}, V2: gl.Vertex{Position: gl.Vector{X: k[3], Y: k[4], Z: k[5]}}, V3: gl.Vertex{Position: gl.Vector{X: k[6], Y: k[7], Z: k[8]}}}
	}
	laws := func(ts []*gl.Triangle, less func(a, b int) bool, what string) {
		n := len(ts)
		for a := 0; a < n; a++ {
			if less(a, a) {
				vFail("irreflexive", "%s: less(x,x) for %v", what, key(ts[a]))
			}
			for b := 0; b < n; b++ {
				ab, ba := less(a, b), less(b, a)
				if ab && ba {
					vFail("asymmetric", "%s: both less: %v, %v", what, key(ts[a]), key(ts[b]))
				}
				if !ab && !ba && key(ts[a]) != key(ts[b]) {
					vFail("total", "%s: unordered but different: %v, %v", what, key(ts[a]), key(ts[b]))
				}
				for c := 0; c < n; c++ {
					if ab && less(b, c) && !less(a, c) {
						vFail("transitive", "%s: %v < %v < %v", what, key(ts[a]), key(ts[b]), key(ts[c]))
					}
				}
			}
		}
	}
	vTry("panic", "TriangleLess", func() {
		// all pairs of triangles that differ in up to two coordinates, one step up or down
		var ts []*gl.Triangle
		base := [9]float64{1, 1, 1, 1, 1, 1, 1, 1, 1}
		ts = append(ts, mk(base))
		for i := 0; i < 9; i++ {
			for _, d := range []float64{0, 2} {
				k := base
				k[i] = d
				ts = append(ts, mk(k))
				for j := i + 1; j < 9; j++ {
					for _, e := range []float64{0, 2} {
						l := k
						l[j] = e
						ts = append(ts, mk(l))
					}
				}
			}
		}
		laws(ts, TriangleLess(ts), "all triangles two steps or less from a point")
		vCase("all triples among the triangles that differ from one in at most two coordinates", false, len(ts))
		vExhaustive(fmt.Sprintf("order laws on all %d^3 triples of triangles at most two coordinate steps from a point", len(ts)))
		for n := 0; n < vN(150); n++ {
			var ts []*gl.Triangle
			m := 2 + r.Intn(14)
			span := 1 + r.Intn(4)
			for i := 0; i < m; i++ {
				var k [9]float64
				for j := range k {
					k[j] = float64(r.Intn(span)) - 1
					if r.Intn(5) == 0 {
						k[j] += r.Float64() * 1e-7
					}
				}
				ts = append(ts, mk(k))
			}
			laws(ts, TriangleLess(ts), fmt.Sprintf("random list %d", n))
			vCase("order laws on all triples of a random list of up to 15 triangles with many ties", false, fmt.Sprint(n, m, span))
		}
	})
}
