package vshell

import (
	"fmt"
	"io"
	"log"
	"testing"

	"github.com/gmlewis/stldice/v4/binvox"
)

type c06P [3]int

func c06Bits(k c06P, set map[c06P]bool) (n NeighborBitMap) {
	bit := NeighborBitMap(1)
	for x := -1; x <= 1; x++ {
		for y := -1; y <= 1; y++ {
			for z := -1; z <= 1; z++ {
				if (x != 0 || y != 0 || z != 0) && set[c06P{k[0] + x, k[1] + y, k[2] + z}] {
					n |= bit
				}
				bit <<= 1
			}
		}
	}
	return n
}

// c06Model makes a model of the voxels, given in world voxels, on a grid starting at o.
func c06Model(ps []c06P, o c06P, vpmm float64, colour func(int) bool) *binvox.BinVOX {
	d := 1
	for _, p := range ps {
		for a := range p {
			if n := p[a] - o[a] + 1; n > d {
				d = n
			}
		}
	}
	b := binvox.New(d, d, d, float64(o[0])/vpmm, float64(o[1])/vpmm, float64(o[2])/vpmm, float64(d)/vpmm, true)
	b.WhiteVoxels = binvox.WhiteVoxelMap{}
	for i, p := range ps {
		k := binvox.Key{X: p[0] - o[0], Y: p[1] - o[1], Z: p[2] - o[2]}
		if colour(i) {
			b.ColorVoxels[k] = binvox.Color{R: 1, A: 1}
		} else {
			b.WhiteVoxels[k] = struct{}{}
		}
	}
	return b
}

// c06Check compares the shell with the voxels, given in world voxels.
func c06Check(desc string, vs *VShell, set map[c06P]bool, vpmm float64) bool {
	var org c06P
	for a, t := range []float64{vs.TX, vs.TY, vs.TZ} {
		r := t * vpmm
		if r < 0 {
			org[a] = -int(-r + 0.5)
		} else {
			org[a] = int(r + 0.5)
		}
	}
	seen := map[c06P]bool{}
	for _, v := range vs.Voxels {
		k := c06P{v.X + org[0], v.Y + org[1], v.Z + org[2]}
		if !set[k] {
			vFail("extra", "%v: %v listed, not a voxel", desc, k)
			return false
		}
		if seen[k] {
			vFail("twice", "%v: %v listed twice", desc, k)
			return false
		}
		seen[k] = true
		if n := c06Bits(k, set); n != v.N || n == allNeighbors {
			vFail("bits", "%v: %v listed with bits %x, should be %x", desc, k, uint32(v.N), uint32(n))
			return false
		}
	}
	for k := range set {
		if !seen[k] && c06Bits(k, set) != allNeighbors {
			vFail("missing", "%v: exposed voxel %v not listed", desc, k)
			return false
		}
	}
	return true
}

func c06History(rule, desc string, models [][]c06P, orgs []c06P, vpmm float64, colour func(int) bool) {
	total := 0
	for _, m := range models {
		total += len(m)
	}
	vCase(rule, total == 0, desc)
	vTry("panic", desc, func() {
		set := map[c06P]bool{}
		var vs *VShell
		for i, m := range models {
			b := c06Model(m, orgs[i], vpmm, colour)
			var err error
			if vs == nil {
				vs, err = New(b)
			} else {
				err = vs.Add(b)
			}
			if err != nil {
				vFail("error", "%v: step %v: %v", desc, i, err)
				return
			}
			for _, p := range m {
				set[p] = true
			}
			if !c06Check(fmt.Sprintf("%v step %v", desc, i), vs, set, vpmm) {
				return
			}
		}
	})
}

func TestVerifC06(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(606)
	white := func(int) bool { return false }
	// a cube in two halves, in every direction and order
	for a := 0; a < 3; a++ {
		for _, rev := range []bool{false, true} {
			var h [2][]c06P
			for x := 0; x < 5; x++ {
				for y := 0; y < 5; y++ {
					for z := 0; z < 5; z++ {
						p := c06P{x, y, z}
						n := 0
						if (p[a] >= 2) != rev {
							n = 1
						}
						h[n] = append(h[n], p)
					}
				}
			}
			var o [2]c06P
			for n := range h {
				o[n] = h[n][0]
			}
			c06History("two halves", fmt.Sprintf("cube of 5 in halves along axis %v reversed %v", a, rev), [][]c06P{h[0], h[1]}, o[:], 1, white)
		}
	}
	for n := vN(1500); n > 0; n-- {
		size := 2 + r.Intn(5)
		k := 1 + r.Intn(5)
		dens := 0.3 + 0.7*r.Float64()
		vpmm := []float64{1, 2, 4, 0.5, 8}[r.Intn(5)]
		off := c06P{r.Intn(21) - 10, r.Intn(21) - 10, r.Intn(21) - 10}
		models := make([][]c06P, k)
		for x := 0; x < size; x++ {
			for y := 0; y < size; y++ {
				for z := 0; z < size; z++ {
					if r.Float64() < dens {
						m := r.Intn(k)
						models[m] = append(models[m], c06P{x + off[0], y + off[1], z + off[2]})
					}
				}
			}
		}
		orgs := make([]c06P, k)
		for i, m := range models {
			if len(m) == 0 {
				models[i] = nil
			}
			orgs[i] = off
			for a := range orgs[i] {
				lo := 1 << 20
				for _, p := range m {
					if p[a] < lo {
						lo = p[a]
					}
				}
				if lo == 1<<20 {
					lo = off[a]
				}
				orgs[i][a] = lo - r.Intn(3)*r.Intn(2)
			}
		}
		mode := r.Intn(3)
		colour := func(i int) bool { return mode == 1 || mode == 2 && i%2 == 0 }
		c06History("random", fmt.Sprintf("%v models %v at %v, %v voxels per mm, colouring %v", k, models, orgs, vpmm, mode), models, orgs, vpmm, colour)
	}
}
