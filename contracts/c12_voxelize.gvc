# C12: voxelizing a region, layer by layer

define region(k) = 0 <= k.X && k.X < b.NX && 0 <= k.Y && k.Y < b.NY && 0 <= k.Z && k.Z < b.NZ
define rowsIn(x) = forall(a, trig(has(x, a)), imp(has(x, a), 0 <= a && a < b.NY))

func binvox:(*BinVOX).Voxelize
  props C12
  requires b != nil && mesh != nil
  requires forall(i, trig(mesh.Triangles[i]), imp(0 <= i && i < len(mesh.Triangles), mesh.Triangles[i] != nil))
  requires b.NX >= 0 && b.NY >= 0 && b.NZ >= 0
  modifies b.WhiteVoxels
  let VPMM = old(b.VoxelsPerMM())
  inline voxelizeZ floodFill
  guard voxels by mu
  # L: the layers voxelized, W: the voxels reported for them
  ghost L set[int] = emptyset(int)
  ghost W set[Key] = emptyset(Key)
  on call voxelizeZ(r, m, z, d, v, f): assert [same] r == b && m == mesh && d == 1.0 / VPMM && v == VPMM
  on call voxelizeZ(r, m, z, d, v, f): assert [once] !has(L, z)
  on call voxelizeZ(r, m, z, d, v, f): set L = store(L, z, true)
  on call Voxelize$1(k): assert [region] region(k)
  on call Voxelize$1(k): set W = store(W, k, true)
  loop 1: writes heap(minMax), heap(*gl.Triangle)
  loop 1: inv [frame] heapkept(*gl.Triangle, r, true) && heapkept(minMax, r, true)
  loop 1: inv [layers] zi <= b.NZ && forall(z, trig(has(L, z)), iff(has(L, z), 0 <= z && z < zi))
  loop 1: inv [union] dom(voxels) == W
  loop 1: inv [region] forall(k(Key), trig(has(W, k)), imp(has(W, k), region(k)))
  loop 2: writes heap(minMax), heap(*gl.Triangle)
  loop 2: inv [frame] heapkept(*gl.Triangle, r, true) && heapkept(minMax, r, true)
  loop 2: inv [owned] forall(k(Key), trig(set[k]), blk(set[k]) == 0 || fresh(set[k])) && forall(a, trig(xMinMax[a]), imp(has(xMinMax, a), fresh(xMinMax[a])))
  loop 2: inv [apart] listsApart(set) && rowsApart(xMinMax)
  loop 2: inv [rows] rowsIn(xMinMax)
  loop 2: inv [nonil] noNil(set)
  loop 3: inv [union] dom(voxels) == W
  loop 3: inv [region] forall(k(Key), trig(has(W, k)), imp(has(W, k), region(k)))
  loop 4: inv [range] min <= xi
  loop 4: inv [union] dom(voxels) == W
  loop 4: inv [region] forall(k(Key), trig(has(W, k)), imp(has(W, k), region(k)))
  loop 5: inv [range] it5 <= len(set[k])
  ensures [refused] iff(result != nil, b.NX == 0 || b.NY == 0 || b.NZ == 0)
  ensures [kept] imp(result != nil, b.WhiteVoxels == old(b.WhiteVoxels))
  ensures [layers] imp(result == nil, forall(z, trig(has(L, z)), iff(has(L, z), 0 <= z && z < b.NZ)))
  ensures [union] imp(result == nil, dom(b.WhiteVoxels) == W)
  ensures [region] imp(result == nil, forall(k(Key), trig(has(b.WhiteVoxels, k)), imp(has(b.WhiteVoxels, k), region(k))))

func binvox:(*BinVOX).VoxelizeZ
  props C12
  requires b != nil && mesh != nil
  requires forall(i, trig(mesh.Triangles[i]), imp(0 <= i && i < len(mesh.Triangles), mesh.Triangles[i] != nil))
  requires b.NX >= 0 && b.NY >= 0 && b.NZ >= 0 && 0 <= zi && zi < b.NZ
  modifies b.WhiteVoxels
  let VPMM = old(b.VoxelsPerMM())
  inline voxelizeZ floodFill
  guard voxels by mu
  # N: how often the layer was voxelized, W: the voxels reported for it
  ghost N int = 0
  ghost W set[Key] = emptyset(Key)
  on call voxelizeZ(r, m, z, d, v, f): assert [same] r == b && m == mesh && d == 1.0 / VPMM && v == VPMM && z == zi
  on call voxelizeZ(r, m, z, d, v, f): set N = N + 1
  on call VoxelizeZ$1(k): assert [region] region(k) && k.Z == zi
  on call VoxelizeZ$1(k): set W = store(W, k, true)
  loop 1: writes heap(minMax), heap(*gl.Triangle)
  loop 1: inv [frame] heapkept(*gl.Triangle, r, true) && heapkept(minMax, r, true)
  loop 1: inv [owned] forall(k(Key), trig(set[k]), blk(set[k]) == 0 || fresh(set[k])) && forall(a, trig(xMinMax[a]), imp(has(xMinMax, a), fresh(xMinMax[a])))
  loop 1: inv [apart] listsApart(set) && rowsApart(xMinMax)
  loop 1: inv [rows] rowsIn(xMinMax)
  loop 1: inv [nonil] noNil(set)
  loop 2: inv [union] dom(voxels) == W
  loop 2: inv [region] forall(k(Key), trig(has(W, k)), imp(has(W, k), region(k) && k.Z == zi))
  loop 3: inv [range] min <= xi
  loop 3: inv [union] dom(voxels) == W
  loop 3: inv [region] forall(k(Key), trig(has(W, k)), imp(has(W, k), region(k) && k.Z == zi))
  loop 4: inv [range] it4 <= len(set[k])
  ensures [refused] iff(result != nil, b.NX == 0 || b.NY == 0 || b.NZ == 0)
  ensures [once] imp(result == nil, N == 1)
  ensures [union] imp(result == nil, dom(b.WhiteVoxels) == W)
  ensures [region] imp(result == nil, forall(k(Key), trig(has(b.WhiteVoxels, k)), imp(has(b.WhiteVoxels, k), region(k) && k.Z == zi)))
