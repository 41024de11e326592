package binvox

import (
	"fmt"
	"math"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

func TestVerifC15(t *testing.T) {
	r := vRand(15)
	coord := func() float64 {
		switch r.Intn(4) {
		case 0:
			return float64(r.Intn(5)) - 2
		case 1:
			return (float64(r.Intn(9)) - 4) / 2
		case 2:
			return r.NormFloat64() * 100
		}
		return r.NormFloat64()
	}
	vec := func() gl.Vector { return gl.Vector{X: coord(), Y: coord(), Z: coord()} }
	// distance of p from the segment a-b
	dist := func(p, a, b gl.Vector) float64 {
		u := b.Sub(a)
		l := u.Dot(u)
		s := 0.0
		if l > 0 {
			s = math.Max(0, math.Min(1, p.Sub(a).Dot(u)/l))
		}
		return p.Distance(a.Add(u.MulScalar(s)))
	}
	tol := func(vs ...gl.Vector) float64 {
		m := 1.0
		for _, v := range vs {
			m = math.Max(m, math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z))))
		}
		return 1e-7 * m
	}
	proper := func(a, b gl.Vector, z float64) bool { // crosses with room to spare
		return math.Min(a.Z, b.Z) < z-3e-9 && math.Max(a.Z, b.Z) > z+3e-9
	}
	ok := func(tri *gl.Triangle, p *intersectionPair, z float64, desc string) {
		v := [3]gl.Vector{tri.V1.Position, tri.V2.Position, tri.V3.Position}
		e := tol(v[0], v[1], v[2])
		if p == nil || p.tri != tri {
			vFail("triangle", "%s: wrong triangle", desc)
			return
		}
		if math.Abs(p.v1.Z-z) > e || math.Abs(p.v2.Z-z) > e {
			vFail("plane", "%s: points %v, %v off the plane z=%v", desc, p.v1, p.v2, z)
		}
		var on [2][3]bool
		for i, q := range []gl.Vector{p.v1, p.v2} {
			for j := range v {
				on[i][j] = dist(q, v[j], v[(j+1)%3]) <= e
			}
		}
		good := false
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				good = good || j != k && on[0][j] && on[1][k]
			}
		}
		if !good {
			vFail("edges", "%s: points %v, %v are not on two different edges", desc, p.v1, p.v2)
		}
	}
	newTri := func(a, b, c gl.Vector) *gl.Triangle {
		return &gl.Triangle{V1: gl.Vertex{Position: a}, V2: gl.Vertex{Position: b}, V3: gl.Vertex{Position: c}}
	}
	plane := func(tri *gl.Triangle) float64 {
		switch r.Intn(6) {
		case 0:
			return tri.V1.Position.Z
		case 1:
			return tri.V2.Position.Z
		case 2:
			return tri.V3.Position.Z
		case 3:
			s := r.Float64()
			return tri.V1.Position.Z*s + tri.V3.Position.Z*(1-s)
		case 4:
			s := r.Float64()
			return tri.V1.Position.Z*s + tri.V2.Position.Z*(1-s)
		}
		return coord()
	}
	expect := func(tri *gl.Triangle, z float64) (must, mustNot bool) {
		a, b, c := tri.V1.Position, tri.V2.Position, tri.V3.Position
		n := 0
		for _, p := range []bool{proper(a, b, z), proper(b, c, z), proper(c, a, z)} {
			if p {
				n++
			}
		}
		lo := math.Min(a.Z, math.Min(b.Z, c.Z))
		hi := math.Max(a.Z, math.Max(b.Z, c.Z))
		return n >= 2, z < lo-1e-9 || z > hi+1e-9
	}
	for n := 0; n < vN(40000); n++ {
		tri := newTri(vec(), vec(), vec())
		if r.Intn(4) == 0 { // nearly flat
			f := math.Pow(10, -float64(2+r.Intn(6)))
			for _, v := range []*gl.Vertex{&tri.V1, &tri.V2, &tri.V3} {
				v.Position.Z *= f
			}
		}
		z := plane(tri)
		desc := fmt.Sprintf("triangle %v %v %v, z=%v", tri.V1.Position, tri.V2.Position, tri.V3.Position, z)
		must, mustNot := expect(tri, z)
		vTry("panic", desc, func() {
			p, got := intersectTriZPlane(tri, z)
			if must && !got {
				vFail("missed", "%s: not reported", desc)
			}
			if mustNot && got {
				vFail("phantom", "%s: reported", desc)
			}
			if got {
				ok(tri, p, z, desc)
			}
		})
		vCase("random triangle and plane, many of them through vertices", mustNot, desc)
	}
	for n := 0; n < vN(2000); n++ {
		m := &gl.Mesh{}
		z := coord()
		for i := r.Intn(12); i > 0; i-- {
			m.Triangles = append(m.Triangles, newTri(vec(), vec(), vec()))
			if r.Intn(5) == 0 {
				m.Triangles = append(m.Triangles, m.Triangles[r.Intn(len(m.Triangles))])
			}
		}
		desc := fmt.Sprintf("mesh of %d triangles, z=%v", len(m.Triangles), z)
		for _, tri := range m.Triangles {
			desc += fmt.Sprintf(" (%v %v %v)", tri.V1.Position, tri.V2.Position, tri.V3.Position)
		}
		vTry("panic", desc, func() {
			count := map[*gl.Triangle]int{}
			for _, p := range intersectZPlane(m, z) {
				count[p.tri]++
				ok(p.tri, p, z, desc)
			}
			want := map[*gl.Triangle]int{}
			for _, tri := range m.Triangles {
				want[tri]++
			}
			for _, tri := range m.Triangles {
				must, mustNot := expect(tri, z)
				if must && count[tri] != want[tri] {
					vFail("once", "%s: triangle reported %d times, is there %d times", desc, count[tri], want[tri])
				}
				if count[tri] != 0 && (mustNot || count[tri] != want[tri]) {
					vFail("once", "%s: triangle reported %d times, is there %d times", desc, count[tri], want[tri])
				}
			}
			for tri := range count {
				if want[tri] == 0 {
					vFail("foreign", "%s: a triangle that is not in the mesh", desc)
				}
			}
		})
		vCase("random mesh with repeated triangles: every triangle considered once", len(m.Triangles) == 0, desc)
	}
}
