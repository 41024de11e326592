# C16: composing a slice image

# canvas: the white pixels of the image being drawn
ghostvar canvas set[agent.pixelKey]
# how bright a colour is
ufun luma(color.Color) int

define onImage(img, x, y) = img.Rect.Min.X <= x && x < img.Rect.Max.X && img.Rect.Min.Y <= y && y < img.Rect.Max.Y

extern havoc image/png.Encode
extern image.Rect (x0, y0, x1, y1) (r)
  ensures imp(x0 <= x1, r.Min.X == x0 && r.Max.X == x1) && imp(y0 <= y1, r.Min.Y == y0 && r.Max.Y == y1)
# a new image is black
extern image.NewGray (r) (img)
  modifies canvas
  ensures img != nil && fresh(img) && img.Rect == r
  ensures canvas == emptyset(agent.pixelKey)
extern (*image.Gray).Set (img, x, y, c) ()
  modifies canvas
  ensures canvas == ite(onImage(img, x, y), store(old(canvas), agent.pixelKey{x, y}, luma(c) >= 128), old(canvas))
extern image/draw.Draw (dst, r, src, sp, op) ()
  modifies canvas
  ensures imp(src == image.Black, canvas == emptyset(agent.pixelKey))


define pxl(v) = pixelKey{v.X, DIM - 1 - v.Y}
define pix(k) = pixelKey{k.X - 1, k.Y - 1}

func agent:imager
  props C16
  requires in != nil
  requires in.GetNewJobRequest().GetDim() >= 0
  let DIM = in.GetNewJobRequest().GetDim()
  assumes [def.white] luma(image.White) >= 128 && luma(image.Black) < 128
  ghost canvas set[pixelKey] = emptyset(pixelKey)
  # B, C: the pixels of the base and cut voxels received so far
  ghost B set[pixelKey] = emptyset(pixelKey)
  ghost C set[pixelKey] = emptyset(pixelKey)
  on recv voxelInfo(v): assume [inside] 0 <= v.X && v.X < DIM && 0 <= v.Y && v.Y < DIM
  on recv voxelInfo(v): set B = ite(v.Base, store(B, pxl(v), true), B)
  on recv voxelInfo(v): set C = ite(v.Base, C, store(C, pxl(v), true))
  loop 1: inv [received] forall(k(pixelKey), trig(has(pixels, k)), iff(has(pixels, k), has(B, k) || has(C, k)) && imp(has(pixels, k), pixels[k] == !has(C, k)))
  loop 1: inv [inside] forall(k(pixelKey), trig(has(B, k)), imp(has(B, k), 0 <= k.X && k.X < DIM && 0 <= k.Y && k.Y < DIM)) && forall(k(pixelKey), trig(has(C, k)), imp(has(C, k), 0 <= k.X && k.X < DIM && 0 <= k.Y && k.Y < DIM))
  loop 2: inv [drawn] forall(k(pixelKey), trig(has(canvas, k)), iff(has(canvas, k), visited(pix(k)) && has(B, pix(k)) && !has(C, pix(k))))
  # R: the channel has been read to its end
  ghost R bool = false
  on drained voxelInfo(): set R = true
  on call Encode(w, m): assert [everything] R
  on call Encode(w, m): assert [image] istype(m, *image.Gray) && unbox(m, *image.Gray).Rect.Min.X == 0 && unbox(m, *image.Gray).Rect.Min.Y == 0 && unbox(m, *image.Gray).Rect.Max.X == DIM + 2 && unbox(m, *image.Gray).Rect.Max.Y == DIM + 2
  on call Encode(w, m): assert [white] forall(k(pixelKey), trig(has(canvas, k)), iff(has(canvas, k), has(B, pix(k)) && !has(C, pix(k))))

# the voxels of one region are sent, each once, moved to the region's place
func agent:voxelize
  props C16
  elsewhere binvox:(*BinVOX).VoxelizeZ
  requires bvi != nil && bvi.bv != nil && bvi.mesh != nil
  requires forall(i, trig(bvi.mesh.Triangles[i]), imp(0 <= i && i < len(bvi.mesh.Triangles), bvi.mesh.Triangles[i] != nil))
  requires bvi.bv.NX >= 0 && bvi.bv.NY >= 0 && bvi.bv.NZ >= 0 && 0 <= zi && zi < bvi.bv.NZ
  requires bvi.dx >= 0 && bvi.dy >= 0 && bvi.dz == 0
  requires forall(k(binvox.Key), trig(has(bvi.bv.ColorVoxels, k)), !has(bvi.bv.ColorVoxels, k))
  modifies bvi.bv.WhiteVoxels
  # S: the voxels sent, E: whether voxelizing failed
  ghost S set[binvox.Key] = emptyset(binvox.Key)
  on send voxelInfo(v): assert [kind] v.Base == bvi.base
  on send voxelInfo(v): assert [inside] bvi.dx <= v.X && v.X < bvi.dx + bvi.bv.NX && bvi.dy <= v.Y && v.Y < bvi.dy + bvi.bv.NY
  on send voxelInfo(v): assert [voxel] has(bvi.bv.WhiteVoxels, binvox.Key{v.X - bvi.dx, v.Y - bvi.dy, zi}) && !has(S, binvox.Key{v.X - bvi.dx, v.Y - bvi.dy, zi})
  on send voxelInfo(v): set S = store(S, binvox.Key{v.X - bvi.dx, v.Y - bvi.dy, zi}, true)
  loop 1: inv [sent] forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), visited(k)))
  loop 2: inv [sent] forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), has(bvi.bv.WhiteVoxels, k)))
  ensures [all] imp(bvi.bv.NX > 0 && bvi.bv.NY > 0, dom(bvi.bv.WhiteVoxels) == S)

# every region is voxelized for the layer of the request, and all voxels go to one image
func agent:(*agent).SliceJob
  props C16
  requires in != nil && in.GetNewJobRequest() != nil
  requires in.GetNewJobRequest().GetDim() > 0 && in.GetNewJobRequest().GetNX() > 0 && in.GetNewJobRequest().GetNY() > 0 && in.GetNewJobRequest().GetNZ() > 0
  requires forall(f, i, trig(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()[i]), imp(0 <= f && f < len(in.GetNewJobRequest().GetStlFiles()), in.GetNewJobRequest().GetStlFiles()[f] != nil && imp(0 <= i && i < len(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()), hasPoints(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()[i]))))
  modifies heap(binvox.BinVOX)
  let Z = in.GetZ()
  # N, V: regions received and voxelized, I: images composed
  ghost N int = 0
  ghost V int = 0
  ghost I int = 0
  ghost D bool = false
  on recv bvInfo(b): assume [region] b != nil && b.bv != nil && b.mesh != nil && forall(i, trig(b.mesh.Triangles[i]), imp(0 <= i && i < len(b.mesh.Triangles), b.mesh.Triangles[i] != nil)) && b.bv.NX >= 0 && b.bv.NY >= 0 && b.bv.NZ >= 0 && 0 <= Z && Z < b.bv.NZ && b.dx >= 0 && b.dy >= 0 && b.dz == 0 && forall(k(binvox.Key), trig(has(b.bv.ColorVoxels, k)), !has(b.bv.ColorVoxels, k))
  on recv bvInfo(b): set N = N + 1
  on drained bvInfo(): set D = true
  on call voxelize(b, z, ch): assert [layer] z == Z
  on call voxelize(b, z, ch): set V = V + 1
  on call imager(r, ch): assert [request] r == in
  on call imager(r, ch): set I = I + 1
  loop 1: writes heap(binvox.BinVOX)
  loop 1: inv [count] V == it1 && N == it1 && !D
  ensures [once] imp(I > 0, I == 1 && D && V == N)
