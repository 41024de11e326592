package stl

//verif:race

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"testing"
	"time"

	gl "github.com/fogleman/fauxgl"
)

func vTris(n int, at float64) []*gl.Triangle {
	var ts []*gl.Triangle
	for i := 0; i < n; i++ {
		x := at + float64(i)
		ts = append(ts, gl.NewTriangleForPoints(gl.V(x, 0, at), gl.V(x+1, 0, 0), gl.V(x, 1, 0)))
	}
	return ts
}

func vKeys(ts []*gl.Triangle) []string {
	var r []string
	for _, t := range ts {
		r = append(r, fmt.Sprint(t.V1.Position, t.V2.Position, t.V3.Position))
	}
	sort.Strings(r)
	return r
}

type vRes struct {
	mesh *gl.Mesh
	err  error
}

func vMerge(key, desc string, files []string, workers int) (vRes, bool) {
	ch := make(chan vRes, 1)
	go func() {
		r := vRes{err: fmt.Errorf("crashed")}
		defer func() { ch <- r }()
		vTry(key, desc, func() {
			m, err := Merge(files, workers)
			r = vRes{m, err}
		})
	}()
	select {
	case r := <-ch:
		return r, true
	case <-time.After(30 * time.Second):
		vFail("hang", "%s: no end in sight", desc)
		return vRes{}, false
	}
}

// lists of good files (of several sizes, also listed twice), missing files and files cut short, in several places
func TestVerifC19Lists(t *testing.T) {
	log.SetOutput(io.Discard)
	dir := os.Getenv("VERIF_SCRATCH")
	sizes := []int{1, 2, 5, 40, 0}
	var good []string
	for i, n := range sizes {
		f := filepath.Join(dir, fmt.Sprintf("good%d.stl", i))
		if err := gl.SaveSTL(f, gl.NewTriangleMesh(vTris(n, float64(100*i)))); err != nil {
			t.Fatal(err)
		}
		good = append(good, f)
	}
	short := filepath.Join(dir, "short.stl")
	if err := os.WriteFile(short, []byte("solid"), 0600); err != nil {
		t.Fatal(err)
	}
	bad := []string{filepath.Join(dir, "missing.stl"), short}
	r := vRand(19)
	for c := 0; c < vN(60); c++ {
		n := r.Intn(9)
		workers := 1 + r.Intn(4)
		if c%7 == 0 {
			workers = 1
		}
		var files []string
		var want []*gl.Triangle
		wantErr := false
		pattern := ""
		for i := 0; i < n; i++ {
			if c%2 == 1 && r.Intn(4) == 0 {
				k := r.Intn(len(bad))
				files = append(files, bad[k])
				pattern += "xy"[k : k+1]
				wantErr = true
				continue
			}
			// files without triangles are rare: their bounding box is not defined
			k := r.Intn(len(sizes) - 1)
			files = append(files, good[k])
			want = append(want, vTris(sizes[k], float64(100*k))...)
			pattern += fmt.Sprint(k)
		}
		desc := fmt.Sprintf("files %q, %d workers", pattern, workers)
		vCase("lists", n < 2, desc)
		g, ok := vMerge("lists", desc, files, workers)
		if !ok {
			return
		}
		switch {
		case wantErr:
			if g.err == nil || g.mesh != nil {
				vFail("unreported", "%s: error %v, mesh %v", desc, g.err, g.mesh != nil)
			}
		case g.err != nil:
			vFail("error", "%s: error %v", desc, g.err)
		case n == 0:
		case g.mesh == nil:
			vFail("triangles", "%s: no mesh", desc)
		default:
			a, b := vKeys(g.mesh.Triangles), vKeys(want)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				vFail("triangles", "%s: %d triangles instead of the %d of the files (or others)", desc, len(a), len(b))
			}
		}
	}
}

// pipes in place of files: a file is being loaded while its pipe is open for reading. No more than the
// given number may be, and the merge may not be over before the last of them is closed.
func TestVerifC19Workers(t *testing.T) {
	log.SetOutput(io.Discard)
	dir := os.Getenv("VERIF_SCRATCH")
	for _, c := range []struct{ n, workers int }{{3, 1}, {4, 2}, {6, 3}, {2, 5}, {5, 4}, {3, 3}} {
		desc := fmt.Sprintf("%d pipes, %d workers", c.n, c.workers)
		vCase("pipes", false, desc)
		var files []string
		for i := 0; i < c.n; i++ {
			f := filepath.Join(dir, fmt.Sprintf("pipe%d_%d_%d", c.n, c.workers, i))
			if err := syscall.Mkfifo(f, 0600); err != nil {
				t.Fatal(err)
			}
			files = append(files, f)
		}
		ch := make(chan vRes, 1)
		go func() {
			m, err := Merge(files, c.workers)
			ch <- vRes{m, err}
		}()
		open := map[int]*os.File{}
		done := map[int]bool{}
		end := time.Now().Add(20 * time.Second)
		poll := func(d time.Duration) {
			for t := time.Now().Add(d); time.Now().Before(t); time.Sleep(2 * time.Millisecond) {
				for i, f := range files {
					if open[i] != nil || done[i] {
						continue
					}
					if fd, err := syscall.Open(f, syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
						open[i] = os.NewFile(uintptr(fd), f)
					}
				}
			}
		}
		for len(done) < c.n && time.Now().Before(end) {
			poll(60 * time.Millisecond)
			if len(open) > c.workers {
				vFail("limit", "%s: %d files being loaded at once", desc, len(open))
			}
			select {
			case r := <-ch:
				vFail("early", "%s: the merge is over (error %v) with %d files being loaded and %d not started", desc, r.err, len(open), c.n-len(open)-len(done))
				end = time.Now()
			default:
			}
			for i, f := range open {
				f.Close()
				delete(open, i)
				done[i] = true
				break
			}
		}
		for _, f := range open {
			f.Close()
		}
		if len(done) < c.n {
			if time.Now().After(end.Add(time.Second)) {
				vFail("hang", "%s: only %d files were loaded", desc, len(done))
			}
			return
		}
		select {
		case r := <-ch:
			if r.err == nil || r.mesh != nil {
				vFail("unreported", "%s: all files are empty: error %v", desc, r.err)
			}
		case <-time.After(20 * time.Second):
			vFail("hang", "%s: no end after the last file", desc)
			return
		}
	}
}
