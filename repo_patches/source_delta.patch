From e84e3250c8c6895d914ee028bb6dd520053d6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 01/14] fix: do not set voxels left of the region when filling
 a row

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..ba5952d 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 { // Left of the subregion only the inside state matters.
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From d46a5f99ec37e5834bad02f6f43d3cff4c80dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 02/14] fix: read no voxels past the requested window of a
 .binvox file

---
 binvox/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
-- 
2.43.0


From c2298b6a8de2dfc70f16efac4423665d9cf92118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 03/14] fix: read no voxels past the requested window of a .vsh
 file

---
 vshell/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From 9b76260701364803eccf7665820ab14e82238abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 04/14] fix: split runs of more than 65535 equal values in .vsh
 files

---
 vshell/write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..909cd0d 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -121,7 +122,7 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
 				}
-				if newValue != value {
+				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
 						ch <- rle{value, count}
 					}
-- 
2.43.0


From 70a630506447ea8528fc360ca5b1c36bc81541e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 05/14] fix: report a failure to write the header of a model
 file

---
 binvox/write.go | 8 ++++++--
 vshell/write.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
diff --git a/vshell/write.go b/vshell/write.go
index 909cd0d..1f74314 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -39,7 +39,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -61,7 +63,9 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From 259031bc15c6de8a82e39ac0853204b4a14cf1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 06/14] fix: do not lose neighbor bits of old shell voxels
 while adding new ones

---
 vshell/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..8226a36 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -90,6 +90,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	log.Printf("processing %v voxels...", len(lookup))
 	var shellCount int
 	toRemove := make(lookupMap)
+	var newShell []VShVoxel // appended after the loop: old points into vs.Voxels
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
 		// log.Printf("GML: Update old neighbors of %v: %v (new neighbors=%v)", k, toCheck, neighbors)
@@ -107,8 +108,9 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		}
 
 		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		newShell = append(newShell, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
+	vs.Voxels = append(vs.Voxels, newShell...)
 	log.Printf("added %v voxels to shell", shellCount)
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
-- 
2.43.0


From abf6beb8294b6fb5e198606fb86121930e74f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 07/14] fix: round the offset between merged models to the
 nearest voxel

---
 vshell/merge.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 8226a36..f1210e5 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -134,9 +135,9 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
+	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
+	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
+	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
 	if bv.TX < vs.TX {
 		vs.TX = bv.TX
 	} else {
-- 
2.43.0


From 544df603f8c37bfcb0a50b6a04c1909e7d5ea7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 08/14] fix: place merged voxels correctly when the offsets
 differ in sign

---
 vshell/merge.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index f1210e5..12bf027 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -150,18 +150,30 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.TZ = bv.TZ
 	}
 
-	if dx >= 0 && dy >= 0 && dz >= 0 {
+	// Along each axis, move the voxels of whichever model starts later.
+	var mx, my, mz int
+	if dx < 0 {
+		mx, dx = -dx, 0
+	}
+	if dy < 0 {
+		my, dy = -dy, 0
+	}
+	if dz < 0 {
+		mz, dz = -dz, 0
+	}
+
+	if mx == 0 && my == 0 && mz == 0 {
 		log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += mx
+		vs.Voxels[i].Y += my
+		vs.Voxels[i].Z += mz
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -178,10 +190,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From 8dfd87ef13b675808cb01b48a13dedb2a0f02636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 09/14] fix: respect the translation of a model merged into an
 empty shell

---
 vshell/merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 12bf027..aef5fe7 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -42,7 +42,11 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		return fmt.Errorf("empty vs or bv")
 	}
 	var dx, dy, dz int
-	if len(vs.Voxels) > 0 {
+	if vs.Dim() == 0 { // Nothing here yet: take the place of the first model.
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
+	} else {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
-- 
2.43.0


From 2a951c820defdc58f48fd2542bb5841f211a8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 10/14] fix: account for the translations of base and cut in
 voxcut

---
 cmd/voxcut/voxcut.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..39a9d10 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -137,13 +138,13 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	vpmm := base.VoxelsPerMM()
 
 	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx := int(math.Round((base.TX - cut.TX) * vpmm))
+	dy := int(math.Round((base.TY - cut.TY) * vpmm))
+	dz := int(math.Round((base.TZ - cut.TZ) * vpmm))
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 719530d0d05cdf66e8d66a877a6feee429efe79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 11/14] fix: guard the error of concurrent STL merges by the
 lock

---
 stl/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2cc1f7c 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -13,7 +13,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +30,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From 7a5bb05be89687fdc02dbfc19926759e21b6f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 12/14] fix: reject text STL data with an incomplete triangle

---
 server/stldice-slave/stldice-slave.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 0efa300..16d1e8a 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -182,6 +182,12 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if len(vertexes)%3 != 0 {
+		return nil, fmt.Errorf("STL has %v vertices, want a multiple of three", len(vertexes))
+	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
@@ -191,7 +197,7 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 		t.FixNormals()
 		triangles = append(triangles, &t)
 	}
-	return gl.NewTriangleMesh(triangles), scanner.Err()
+	return gl.NewTriangleMesh(triangles), nil
 }
 
 // parse binary STL data.
-- 
2.43.0


From 61b64737e074fce464335a81ef75207444fe823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 13/14] fix: write voxels and chunk sizes of .vox files in the
 format their readers expect

---
 cmd/voxcut/voxcut.go | 61 ++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 39a9d10..385a7d1 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -170,24 +170,17 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	return newVoxels, nil
 }
 
+// maxVOXDim is the largest model dimension that a vox file can hold.
+const maxVOXDim = 256
+
 // writeVOX writes a vox file from the base voxels.
+// The coordinates of all voxels must lie in [0,255].
 func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
-	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
-	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
-		return fmt.Errorf("header: %v", err)
-	}
-
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
-	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
-		return fmt.Errorf("MAIN: %v", err)
-	}
-	chunk = gl.VOXChunk{ID: [4]byte{'S', 'I', 'Z', 'E'}, ContentBytes: 12}
-	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
-		return fmt.Errorf("SIZE: %v", err)
-	}
-
 	var maxX, maxY, maxZ int
 	for v := range base {
+		if v.X < 0 || v.Y < 0 || v.Z < 0 || v.X >= maxVOXDim || v.Y >= maxVOXDim || v.Z >= maxVOXDim {
+			return fmt.Errorf("voxel (%v,%v,%v) does not fit into a vox file", v.X, v.Y, v.Z)
+		}
 		if v.X > maxX {
 			maxX = v.X
 		}
@@ -198,17 +191,34 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 			maxZ = v.Z
 		}
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
+
+	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
+	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
+		return fmt.Errorf("header: %v", err)
+	}
+
+	const chunkBytes = 12 // size of a chunk header
+	sizeBytes := int32(12)
+	xyziBytes := int32(4 + len(base)*4)
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: chunkBytes + sizeBytes + chunkBytes + xyziBytes}
+	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
+		return fmt.Errorf("MAIN: %v", err)
+	}
+	chunk = gl.VOXChunk{ID: [4]byte{'S', 'I', 'Z', 'E'}, ContentBytes: sizeBytes}
+	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
+		return fmt.Errorf("SIZE: %v", err)
+	}
+	if err := binary.Write(f, binary.LittleEndian, int32(maxX+1)); err != nil {
 		return fmt.Errorf("maxX: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxY+1)); err != nil {
 		return fmt.Errorf("maxY: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxZ+1)); err != nil {
 		return fmt.Errorf("maxZ: %v", err)
 	}
 
-	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: int32(len(base)*4 + 4)}
+	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: xyziBytes}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("XYZI: %v", err)
 	}
@@ -223,18 +233,9 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
+		voxel := gl.VOXVoxel{X: uint8(v.X), Y: uint8(v.Y), Z: uint8(v.Z), I: 1}
+		if err := binary.Write(f, binary.LittleEndian, &voxel); err != nil {
+			return fmt.Errorf("voxel: %v", err)
 		}
 	}
 	return nil
-- 
2.43.0


From f67c15abaed7caf36b7fea48316b4bf089d29207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:36 +0000
Subject: [PATCH 14/14] fix: build a shell from models that only have coloured
 voxels

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..9793a56 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0

