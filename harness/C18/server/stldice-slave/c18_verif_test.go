package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math"
	"strconv"
	"strings"
	"testing"

	gl "github.com/fogleman/fauxgl"
)

func vParse(key, desc string, buf []byte) (m *gl.Mesh, err error, ok bool) {
	vTry(key, desc, func() {
		m, err = stlToMesh(append([]byte(nil), buf...))
		ok = true
	})
	if ok && (m == nil) == (err == nil) {
		vFail("either", "%s: mesh %v, error %v", desc, m != nil, err)
	}
	return
}

func vSame(a, b float64) bool { return a == b || a != a && b != b }

func vCompare(key, desc string, m *gl.Mesh, want [][3]gl.Vector) {
	if len(m.Triangles) != len(want) {
		vFail(key, "%s: %d triangles instead of %d", desc, len(m.Triangles), len(want))
		return
	}
	for i, t := range m.Triangles {
		if t == nil {
			vFail(key, "%s: triangle %d is missing", desc, i)
			return
		}
		for j, p := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			w := want[i][j]
			if !vSame(p.X, w.X) || !vSame(p.Y, w.Y) || !vSame(p.Z, w.Z) {
				vFail(key, "%s: vertex %d of triangle %d is %v instead of %v", desc, j, i, p, w)
				return
			}
		}
	}
}

// binary data: every count up to a limit, also with bytes missing or too many
func TestVerifC18Binary(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(181)
	for c := 0; c < vN(400); c++ {
		n := c % 20
		if c%50 == 49 {
			n = 300 + r.Intn(300)
		}
		buf := make([]byte, 84+50*n)
		r.Read(buf)
		special := c%3 == 1
		binary.LittleEndian.PutUint32(buf[80:], uint32(n))
		var want [][3]gl.Vector
		for i := 0; i < n; i++ {
			var w [3]gl.Vector
			for j := 0; j < 3; j++ {
				var f [3]float64
				for k := 0; k < 3; k++ {
					at := 84 + 50*i + 12 + 12*j + 4*k
					v := float32(r.NormFloat64() * 100)
					if special {
						v = []float32{0, float32(math.Inf(1)), float32(math.NaN()), -0.5, 1e38, 1}[r.Intn(6)]
					}
					binary.LittleEndian.PutUint32(buf[at:], math.Float32bits(v))
					f[k] = float64(v)
				}
				w[j] = gl.Vector{X: f[0], Y: f[1], Z: f[2]}
			}
			want = append(want, w)
		}
		desc := fmt.Sprintf("binary data of %d records, case %d", n, c)
		vCase("binary", n == 0, desc)
		m, err, ok := vParse("binary", desc, buf)
		if ok && err != nil {
			vFail("binary", "%s: error %v", desc, err)
		} else if ok && m != nil {
			vCompare("binary", desc, m, want)
		}
		// the count and the size disagree: it is text without vertices, or an error; never a crash
		for _, d := range []int{-84, -51, -50, -1, 1, 50} {
			if len(buf)+d < 0 {
				continue
			}
			b := append(append([]byte(nil), buf...), make([]byte, 50)...)[:len(buf)+d]
			m, _, ok := vParse("size", fmt.Sprintf("%s, %+d bytes", desc, d), b)
			if ok && m != nil && len(m.Triangles) != 0 && !bytes.Contains(b, []byte("vertex")) {
				vFail("size", "%s, %+d bytes: %d triangles from data of another size", desc, d, len(m.Triangles))
			}
		}
	}
}

// text data: every number of vertex lines up to a limit, among other lines, also with unusual spacing
func TestVerifC18Text(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(182)
	for c := 0; c < vN(400); c++ {
		n := c % 25
		var sb strings.Builder
		fmt.Fprintf(&sb, "solid %s\n", strings.Repeat("x", 84))
		var vs []gl.Vector
		other := []string{"facet normal 0 0 1\n", "outer loop\n", "endloop\n", "\n", "  \t\n", "vertex 1 2\n", "vertex 1 2 3 4\n", "xvertex 1 2 3\n", "vertex\n", "# vertex 1 2 3\n"}
		for i := 0; i < n; i++ {
			for r.Intn(3) == 0 {
				sb.WriteString(other[r.Intn(len(other))])
			}
			var f [3]float64
			var s [3]string
			for k := range f {
				f[k] = math.Round(r.NormFloat64()*1000) / 64
				s[k] = strconv.FormatFloat(f[k], "gef"[r.Intn(3)], -1, 64)
			}
			sp := []string{" ", "\t", "   "}[r.Intn(3)]
			end := []string{"\n", "\r\n", "  \n"}[r.Intn(3)]
			fmt.Fprintf(&sb, "%svertex%s%s%s%s %s%s", strings.Repeat(" ", r.Intn(4)), sp, s[0], sp, s[1], s[2], end)
			vs = append(vs, gl.Vector{X: f[0], Y: f[1], Z: f[2]})
		}
		if r.Intn(2) == 0 {
			sb.WriteString("endsolid")
		}
		desc := fmt.Sprintf("text of %d vertex lines, case %d", n, c)
		vCase("text", n == 0, desc)
		buf := []byte(sb.String())
		if int64(binary.LittleEndian.Uint32(buf[80:]))*50+84 == int64(len(buf)) {
			continue
		}
		m, err, ok := vParse("text", desc, buf)
		switch {
		case !ok:
		case n%3 != 0:
			if err == nil {
				vFail("incomplete", "%s: accepted", desc)
			}
		case err != nil:
			vFail("text", "%s: error %v", desc, err)
		case m != nil:
			var want [][3]gl.Vector
			for i := 0; i+2 < n; i += 3 {
				want = append(want, [3]gl.Vector{vs[i], vs[i+1], vs[i+2]})
			}
			vCompare("text", desc, m, want)
		}
	}
}

// anything else: no crash
func TestVerifC18Bytes(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(183)
	words := []string{"solid", "vertex", "facet", "1e400", "-", "0x1", "nan", " ", "\n", "\r", "\x00", "\xff\xfe", strings.Repeat("v", 70000), "vertex 1 2 3\n", "vertex a b c\n"}
	for c := 0; c < vN(3000); c++ {
		var b []byte
		if c%2 == 0 {
			b = make([]byte, r.Intn(200))
			r.Read(b)
		} else {
			for i := r.Intn(40); i > 0; i-- {
				k := r.Intn(len(words))
				if k == 12 && r.Intn(20) != 0 {
					k = 1
				}
				b = append(b, words[k]...)
			}
		}
		desc := fmt.Sprintf("%d bytes %.40q, case %d", len(b), b, c)
		vCase("bytes", len(b) == 0, desc)
		vParse("bytes", desc, b)
	}
}
