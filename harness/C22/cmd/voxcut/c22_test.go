package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/gmlewis/stldice/v4/binvox"
)

// c22Writer fails at the write call number at; before that it takes what it is given.
type c22Writer struct {
	at, n int
	short bool
}

func (w *c22Writer) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.at {
		if w.short {
			return len(p) / 2, errors.New("no space left")
		}
		return 0, errors.New("no space left")
	}
	return len(p), nil
}

func TestVerifC22VOX(t *testing.T) {
	r := vRand(322)
	for i := 0; i < vN(40); i++ {
		m := binvox.WhiteVoxelMap{}
		for j := r.Intn(60); j > 0; j-- {
			m[binvox.Key{X: r.Intn(256), Y: r.Intn(256), Z: r.Intn(256)}] = struct{}{}
		}
		for _, short := range []bool{false, true} {
			for at := 1; at < 300; at++ {
				w := &c22Writer{at: at, short: short}
				desc := fmt.Sprintf("%v voxels, write %v fails (short %v)", len(m), at, short)
				vCase("failing write", false, desc)
				var err error
				vTry("write", desc, func() { err = writeVOX(w, m) })
				if w.n < at {
					if err != nil {
						vFail("spurious", "%v: no write failed, yet: %v", desc, err)
					}
					break
				}
				if err == nil {
					vFail("unreported", "%v: reported as success", desc)
				}
			}
		}
	}
}

// TestVerifC22Main runs the command with outputs that cannot be written.
func TestVerifC22Main(t *testing.T) {
	if os.Getenv("C22_MAIN") != "" {
		os.Args = append([]string{"voxcut"}, filepath.SplitList(os.Getenv("C22_MAIN"))...)
		main()
		os.Exit(0)
	}
	if _, err := os.Stat("/dev/full"); err != nil {
		return
	}
	dir := os.Getenv("VERIF_SCRATCH")
	in := filepath.Join(dir, "c22in.binvox")
	b := &binvox.BinVOX{NX: 9, NY: 8, NZ: 7, Scale: 1, WhiteVoxels: binvox.WhiteVoxelMap{}}
	for i := 0; i < 200; i++ {
		b.WhiteVoxels[binvox.Key{X: i % 9, Y: i / 9 % 8, Z: i / 72}] = struct{}{}
	}
	if err := b.Write(in, 0, 0, 0, 0, 0, 0); err != nil {
		panic(err)
	}
	for _, out := range []string{"obinvox", "ovox"} {
		for _, full := range []bool{true, false} {
			target := filepath.Join(dir, "c22out."+out)
			if full {
				target = "/dev/full"
			}
			cmd := exec.Command(os.Args[0], "-test.run=TestVerifC22Main$")
			cmd.Env = append(os.Environ(), "VERIF_OUT=", "C22_MAIN=-"+out+string(filepath.ListSeparator)+target+string(filepath.ListSeparator)+in)
			o, err := cmd.CombinedOutput()
			desc := fmt.Sprintf("voxcut -%v %v", out, filepath.Base(target))
			vCase("command", false, desc)
			if full && err == nil {
				vFail("command", "%v: success reported: %s", desc, o)
			}
			if !full && err != nil {
				vFail("command", "%v: %v: %s", desc, err, o)
			}
		}
	}
}
