package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

func vVox(m binvox.WhiteVoxelMap, desc string) {
	var buf bytes.Buffer
	err := writeVOX(&buf, m)
	fits := true
	for k := range m {
		if k.X < 0 || k.Y < 0 || k.Z < 0 || k.X > 255 || k.Y > 255 || k.Z > 255 {
			fits = false
		}
	}
	if !fits {
		if err == nil {
			vFail("range", "%s: coordinates do not fit, no error", desc)
		}
		return
	}
	if err != nil {
		vFail("error", "%s: %v", desc, err)
		return
	}
	d := buf.Bytes()
	i32 := func(o int) int { return int(int32(binary.LittleEndian.Uint32(d[o:]))) }
	n := len(m)
	if len(d) != 8+12+12+12+12+4+4*n {
		vFail("size", "%s: the file has %d bytes for %d voxels", desc, len(d), n)
		return
	}
	if string(d[:4]) != "VOX " || i32(4) != 150 {
		vFail("header", "%s: header %q", desc, d[:8])
	}
	if string(d[8:12]) != "MAIN" || i32(12) != 0 || i32(16) != len(d)-20 {
		vFail("chunks", "%s: MAIN declares %d and %d bytes, %d follow", desc, i32(12), i32(16), len(d)-20)
	}
	if string(d[20:24]) != "SIZE" || i32(24) != 12 || i32(28) != 0 {
		vFail("chunks", "%s: SIZE chunk %q", desc, d[20:32])
	}
	if string(d[44:48]) != "XYZI" || i32(48) != 4+4*n || i32(52) != 0 || i32(56) != n {
		vFail("chunks", "%s: XYZI declares %d bytes and %d voxels, there are %d", desc, i32(48), i32(56), n)
	}
	seen := map[binvox.Key]int{}
	for o := 60; o+4 <= len(d); o += 4 {
		k := binvox.Key{X: int(d[o]), Y: int(d[o+1]), Z: int(d[o+2])}
		seen[k]++
		if d[o+3] == 0 {
			vFail("colour", "%s: voxel %v has colour index 0", desc, k)
		}
		if k.X >= i32(32) || k.Y >= i32(36) || k.Z >= i32(40) {
			vFail("covers", "%s: voxel %v lies outside size (%d,%d,%d)", desc, k, i32(32), i32(36), i32(40))
		}
	}
	for k := range m {
		if seen[k] != 1 {
			vFail("voxels", "%s: voxel %v is written %d times", desc, k, seen[k])
		}
	}
	for k := range seen {
		if _, ok := m[k]; !ok {
			vFail("voxels", "%s: voxel %v is not in the model", desc, k)
		}
	}
	name := filepath.Join(os.Getenv("VERIF_SCRATCH"), "c23.vox")
	if os.WriteFile(name, d, 0o600) == nil {
		vs, err := gl.LoadVOX(name)
		os.Remove(name)
		if err != nil || len(vs) != n {
			vFail("load", "%s: loading returns %d voxels, error %v", desc, len(vs), err)
		}
	}
}

func TestVerifVox(t *testing.T) {
	vVox(nil, "nil model")
	vVox(binvox.WhiteVoxelMap{}, "empty model")
	r := vRand(1)
	for it := 0; it < vN(150); it++ {
		d := 1 + r.Intn(256)
		n := r.Intn(80)
		if it%30 == 0 {
			n = 5000
		}
		m := binvox.WhiteVoxelMap{}
		for i := 0; i < n; i++ {
			m[binvox.Key{X: r.Intn(d), Y: r.Intn(1 + r.Intn(d)), Z: r.Intn(d)}] = struct{}{}
		}
		desc := fmt.Sprintf("case %d: %d voxels within %d", it, len(m), d)
		vVox(m, desc)
		vCase("models with voxels", len(m) == 0, desc)
	}
}

func TestVerifEdges(t *testing.T) {
	vals := []int{-1 << 40, -256, -255, -1, 0, 1, 127, 128, 129, 254, 255, 256, 257, 511, 512, 65535, 65536, 1 << 32, 1<<32 + 5}
	for _, v := range vals {
		for a := 0; a < 3; a++ {
			for _, more := range []bool{false, true} {
				c := [3]int{3, 2, 1}
				c[a] = v
				m := binvox.WhiteVoxelMap{binvox.Key{X: c[0], Y: c[1], Z: c[2]}: struct{}{}}
				if more {
					m[binvox.Key{X: 10, Y: 20, Z: 30}] = struct{}{}
				}
				desc := fmt.Sprintf("coordinate %d on axis %d, another voxel: %v", v, a, more)
				vVox(m, desc)
				vCase("coordinates at the limits", false, desc)
			}
		}
	}
	vExhaustive("coordinates around the limits of the format on every axis")
}
