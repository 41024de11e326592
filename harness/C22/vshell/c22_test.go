package vshell

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"testing"
)

// c22Writer fails at the write call number at; before that it keeps what it is given.
type c22Writer struct {
	at, n int
	short bool
}

var errC22 = errors.New("no space left")

func (w *c22Writer) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.at {
		if w.short {
			return len(p) / 2, errC22
		}
		return 0, errC22
	}
	return len(p), nil
}

func TestVerifC22Writer(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(222)
	for i := 0; i < vN(100); i++ {
		b := &VShell{NX: 1 + r.Intn(5), NY: 1 + r.Intn(5), NZ: 1 + r.Intn(300), Scale: 1}
		if i%7 != 0 {
			bits := uint32(1 + r.Intn(1<<27-1))
			p := r.Float64()
			for x := 0; x < b.NX; x++ {
				for z := 0; z < b.NZ; z++ {
					for y := 0; y < b.NY; y++ {
						if len(b.Voxels) > 120 && r.Float64() > 0.1 {
							continue
						}
						if r.Float64() < p || len(b.Voxels) == 0 {
							if r.Intn(50) == 0 {
								bits = uint32(1 + r.Intn(1<<27-1))
							}
							b.Voxels = append(b.Voxels, VShVoxel{x, y, z, NeighborBitMap(bits)})
						}
					}
				}
			}
		}
		for _, short := range []bool{false, true} {
			for at := 1; at < 2000; at++ {
				w := &c22Writer{at: at, short: short}
				desc := fmt.Sprintf("dim %v %v %v, %v voxels, write %v fails (short %v)", b.NX, b.NY, b.NZ, len(b.Voxels), at, short)
				vCase("failing write", false, desc)
				var err error
				vTry("write", desc, func() { _, err = b.write(w, 0, 0, 0, 0, 0, 0) })
				if w.n < at {
					if err != nil {
						vFail("spurious", "%v: no write failed, yet: %v", desc, err)
					}
					break
				}
				if err == nil {
					vFail("unreported", "%v: reported as success", desc)
				}
			}
		}
	}
	// long runs
	b := &VShell{NX: 1, NY: 700, NZ: 1, Scale: 1}
	for y := 0; y < 600; y++ {
		b.Voxels = append(b.Voxels, VShVoxel{0, y, 0, 7})
	}
	for at := 1; at < 20; at++ {
		w := &c22Writer{at: at}
		_, err := b.write(w, 0, 0, 0, 0, 0, 0)
		vCase("failing write, long run", false, at)
		if w.n >= at && err == nil {
			vFail("unreported", "600 equal voxels, write %v fails: reported as success", at)
		}
	}
}

// TestVerifC22Full writes to a device that is full.
func TestVerifC22Full(t *testing.T) {
	log.SetOutput(io.Discard)
	for _, n := range []int{0, 1, 1000} {
		b := &VShell{NX: 40, NY: 30, NZ: 2, Scale: 1}
		for i := 0; i < n; i++ {
			b.Voxels = append(b.Voxels, VShVoxel{i % 40, i / 40 % 30, i / 1200, NeighborBitMap(1 + i)})
		}
		desc := fmt.Sprintf("%v voxels to /dev/full", n)
		if _, err := os.Stat("/dev/full"); err != nil {
			continue
		}
		vCase("full device", false, desc)
		if err := b.Write("/dev/full", 0, 0, 0, 0, 0, 0); err == nil {
			vFail("full", "%v: reported as success", desc)
		}
		desc = fmt.Sprintf("%v voxels to a file that cannot be created", n)
		vCase("full device", false, desc)
		if err := b.Write("/dev/null/x", 0, 0, 0, 0, 0, 0); err == nil {
			vFail("create", "%v: reported as success", desc)
		}
	}
}
