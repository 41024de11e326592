package binvox

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"testing"
)

// c22Writer fails at the write call number at; before that it keeps what it is given.
type c22Writer struct {
	at, n int
	short bool
}

var errC22 = errors.New("no space left")

func (w *c22Writer) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.at {
		if w.short {
			return len(p) / 2, errC22
		}
		return 0, errC22
	}
	return len(p), nil
}

func TestVerifC22Writer(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(122)
	for i := 0; i < vN(150); i++ {
		b := &BinVOX{NX: 1 + r.Intn(5), NY: 1 + r.Intn(5), NZ: 1 + r.Intn(300), Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
		if i%7 != 0 {
			for j := r.Intn(400); j >= 0; j-- {
				b.WhiteVoxels[Key{r.Intn(b.NX), r.Intn(b.NY), r.Intn(b.NZ)}] = struct{}{}
			}
		}
		for _, short := range []bool{false, true} {
			for at := 1; at < 1000; at++ {
				w := &c22Writer{at: at, short: short}
				desc := fmt.Sprintf("dim %v %v %v, %v voxels, write %v fails (short %v)", b.NX, b.NY, b.NZ, len(b.WhiteVoxels), at, short)
				vCase("failing write", false, desc)
				var err error
				vTry("write", desc, func() { _, err = b.write(w, 0, 0, 0, 0, 0, 0) })
				if w.n < at {
					if err != nil {
						vFail("spurious", "%v: no write failed, yet: %v", desc, err)
					}
					break
				}
				if err == nil {
					vFail("unreported", "%v: reported as success", desc)
				}
			}
		}
	}
}

// TestVerifC22Full writes to a device that is full.
func TestVerifC22Full(t *testing.T) {
	log.SetOutput(io.Discard)
	for _, n := range []int{0, 1, 100000} {
		b := &BinVOX{NX: 400, NY: 300, NZ: 2, Scale: 1, WhiteVoxels: WhiteVoxelMap{}}
		for i := 0; i < n; i++ {
			b.WhiteVoxels[Key{i % 400, i / 400 * 2 % 300, i / 400 / 150}] = struct{}{}
		}
		desc := fmt.Sprintf("%v voxels to /dev/full", n)
		if _, err := os.Stat("/dev/full"); err != nil {
			continue
		}
		vCase("full device", false, desc)
		if err := b.Write("/dev/full", 0, 0, 0, 0, 0, 0); err == nil {
			vFail("full", "%v: reported as success", desc)
		}
		desc = fmt.Sprintf("%v voxels to a file that cannot be created", n)
		vCase("full device", false, desc)
		if err := b.Write("/dev/null/x", 0, 0, 0, 0, 0, 0); err == nil {
			vFail("create", "%v: reported as success", desc)
		}
	}
}
