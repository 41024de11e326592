# C23, C22: writing a .vox file

# failed: some write so far has failed
ghostvar failed bool
extern encoding/binary.Write (w, order, data) (err)
  modifies failed
  ensures failed == (old(failed) || err != nil)

define id4(c, a, b, d, e) = c.ID[0] == a && c.ID[1] == b && c.ID[2] == d && c.ID[3] == e
define fits(k) = 0 <= k.X && k.X <= 255 && 0 <= k.Y && k.Y <= 255 && 0 <= k.Z && k.Z <= 255
define chunk(d) = unbox(d, *gl.VOXChunk)
define isChunk(d) = istype(d, *gl.VOXChunk) && chunk(d) != nil
define voxel(d) = unbox(d, *gl.VOXVoxel)
define voxelKey(d) = binvox.Key{int(voxel(d).X), int(voxel(d).Y), int(voxel(d).Z)}

func voxcut:writeVOX
  props C23
  requires f != nil
  assumes [def.box] imp(forall(k(binvox.Key), trig(has(base, k)), imp(has(base, k), fits(k))), len(base) <= 16777216)
  note a set of keys within a box of 256 x 256 x 256 has at most 256^3 elements
  # W: pieces written so far, S: voxels written so far
  # every piece has a fixed size: 8 bytes for the header, 12 for a chunk header, 4 for a number or a voxel
  ghost W int = 0
  ghost S set[binvox.Key] = emptyset(binvox.Key)
  on call Write(w, o, d): assert [target] w == f
  on call Write(w, o, d): assert [header] imp(W == 0, istype(d, *gl.VOXHeader) && unbox(d, *gl.VOXHeader).Version == 150 && unbox(d, *gl.VOXHeader).Magic[0] == 86 && unbox(d, *gl.VOXHeader).Magic[1] == 79 && unbox(d, *gl.VOXHeader).Magic[2] == 88 && unbox(d, *gl.VOXHeader).Magic[3] == 32)
  on call Write(w, o, d): assert [main] imp(W == 1, isChunk(d) && id4(chunk(d), 77, 65, 73, 78) && chunk(d).ContentBytes == 0 && chunk(d).ChildrenBytes == 12 + 12 + 12 + 4 + 4 * len(base))
  on call Write(w, o, d): assert [size] imp(W == 2, isChunk(d) && id4(chunk(d), 83, 73, 90, 69) && chunk(d).ContentBytes == 12 && chunk(d).ChildrenBytes == 0)
  on call Write(w, o, d): assert [x] imp(W == 3, istype(d, int32) && forall(k(binvox.Key), trig(has(base, k)), imp(has(base, k), 0 <= k.X && k.X < int(unbox(d, int32)))))
  on call Write(w, o, d): assert [y] imp(W == 4, istype(d, int32) && forall(k(binvox.Key), trig(has(base, k)), imp(has(base, k), 0 <= k.Y && k.Y < int(unbox(d, int32)))))
  on call Write(w, o, d): assert [z] imp(W == 5, istype(d, int32) && forall(k(binvox.Key), trig(has(base, k)), imp(has(base, k), 0 <= k.Z && k.Z < int(unbox(d, int32)))))
  on call Write(w, o, d): assert [small] imp(3 <= W && W <= 5, unbox(d, int32) <= 256)
  on call Write(w, o, d): assert [xyzi] imp(W == 6, isChunk(d) && id4(chunk(d), 88, 89, 90, 73) && chunk(d).ContentBytes == 4 + 4 * len(base) && chunk(d).ChildrenBytes == 0)
  on call Write(w, o, d): assert [count] imp(W == 7, istype(d, *int32) && *unbox(d, *int32) == len(base))
  on call Write(w, o, d): assert [voxel] imp(W >= 8, istype(d, *gl.VOXVoxel) && voxel(d) != nil && has(base, voxelKey(d)) && !has(S, voxelKey(d)) && voxel(d).I == 1)
  on call Write(w, o, d): set S = ite(W >= 8, store(S, voxelKey(d), true), S)
  on call Write(w, o, d): set W = W + 1
  loop 1: inv [none] W == 0
  loop 1: inv [fits] forall(k(binvox.Key), trig(visited(k)), imp(visited(k), fits(k) && k.X <= maxX && k.Y <= maxY && k.Z <= maxZ))
  loop 1: inv [max] 0 <= maxX && maxX <= 255 && 0 <= maxY && maxY <= 255 && 0 <= maxZ && maxZ <= 255
  loop 2: inv [written] forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), visited(k)))
  loop 2: inv [pieces] W == 8 + it2
  ensures [all] imp(result == nil, dom(base) == S && W >= 8)
  ensures [fits] imp(result == nil, forall(k(binvox.Key), trig(has(base, k)), imp(has(base, k), fits(k))))
  ensures [range] imp(W == 0, result != nil)

func voxcut:writeVOX #errors
  props C22
  ghost failed bool = false
  loop 1: inv [ok] !failed
  loop 2: inv [ok] !failed
  ensures [reported] imp(result == nil, !failed)
