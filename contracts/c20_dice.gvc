# C20: dicing a model into regions

# the bounding box of a mesh, computed by fauxgl
ufun mbbOf(*gl.Mesh) gl.Box
extern (*github.com/fogleman/fauxgl.Mesh).BoundingBox (m) (b)
  ensures b == mbbOf(m) && b.Min.X <= b.Max.X && b.Min.Y <= b.Max.Y && b.Min.Z <= b.Max.Z && max(b.Max.X - b.Min.X, max(b.Max.Y - b.Min.Y, b.Max.Z - b.Min.Z)) > 0.0
extern github.com/fogleman/fauxgl.NewTriangleForPoints (p1, p2, p3) (t)
  ensures t != nil && fresh(t) && t.V1.Position == p1 && t.V2.Position == p2 && t.V3.Position == p3

# longest axis, voxels needed to cover a length
define longest(b) = max(b.Max.X - b.Min.X, max(b.Max.Y - b.Min.Y, b.Max.Z - b.Min.Z))
define cover(l, s, n) = ceil(l * (float(n) / s))
define hasPoints(t) = t != nil && t.V1 != nil && t.V2 != nil && t.V3 != nil
define vec(v) = gl.Vector{v.X, v.Y, v.Z}
define sameTri(t, q) = t != nil && t.V1.Position == vec(q.V1) && t.V2.Position == vec(q.V2) && t.V3.Position == vec(q.V3)

func sstl:New
  props C20
  requires p != nil && dim > 0 && nX > 0 && nY > 0 && nZ > 0
  requires forall(i, trig(p.GetTriangles()[i]), imp(0 <= i && i < len(p.GetTriangles()), hasPoints(p.GetTriangles()[i])))
  loop 1: inv [count] len(tris) == it1 && it1 <= len(p.GetTriangles()) && (it1 == 0 || fresh(tris))
  loop 1: inv [tris] forall(i, trig(tris[i]), imp(0 <= i && i < it1, sameTri(tris[i], p.GetTriangles()[i])))
  # L, CX, CY, CZ: longest axis and voxels needed to cover the model, from its bounding box
  ghost L float64 = 0
  ghost CX int = 0
  ghost CY int = 0
  ghost CZ int = 0
  on ret BoundingBox(m, b): set L = longest(b)
  on ret BoundingBox(m, b): set CX = cover(b.Max.X - b.Min.X, L, dim)
  on ret BoundingBox(m, b): set CY = cover(b.Max.Y - b.Min.Y, L, dim)
  on ret BoundingBox(m, b): set CZ = cover(b.Max.Z - b.Min.Z, L, dim)
  ensures [either] iff(result1 == nil, result0 != nil)
  ensures [error] iff(result1 != nil, div(CX, nX) == 0 || div(CY, nY) == 0 || div(CZ, nZ) == 0)
  ensures [box] imp(result1 == nil, result0.MBB == mbbOf(result0.Mesh))
  ensures [size] imp(result1 == nil, result0.DimX == div(CX, nX) && result0.DimY == div(CY, nY) && result0.DimZ == div(CZ, nZ))
  ensures [positive] imp(result1 == nil, result0.DimX > 0 && result0.DimY > 0 && result0.DimZ > 0)
  ensures [grid] imp(result1 == nil, result0.ModelDimX == CX && result0.ModelDimY == CY && result0.ModelDimZ == CZ)
  ensures [within] imp(result1 == nil, nX * result0.DimX <= CX && nY * result0.DimY <= CY && nZ * result0.DimZ <= CZ)
  ensures [dim] imp(result1 == nil, CX <= dim && CY <= dim && CZ <= dim)
  ensures [voxel] imp(result1 == nil, result0.MMPV > 0.0 && result0.MMPV * float(dim) == L)
  ensures [scale] imp(result1 == nil, result0.SubregionScale == float(max(result0.DimX, max(result0.DimY, result0.DimZ))) * result0.MMPV)
  ensures [mesh] imp(result1 == nil, result0.Mesh != nil && len(result0.Mesh.Triangles) == len(p.GetTriangles()) && forall(i, trig(result0.Mesh.Triangles[i]), imp(0 <= i && i < len(result0.Mesh.Triangles), sameTri(result0.Mesh.Triangles[i], p.GetTriangles()[i]))))

define jobRegion(k, j) = 0 <= k.X && k.X < j.GetNX() && 0 <= k.Y && k.Y < j.GetNY() && 0 <= k.Z && k.Z < j.GetNZ()
define allRegions(s, j) = forall(k(binvox.Key), trig(has(s, k)), iff(has(s, k), jobRegion(k, j)))
define grid(s, j) = s.DimX > 0 && s.DimY > 0 && s.DimZ > 0 && j.GetNX() * s.DimX <= s.ModelDimX && j.GetNY() * s.DimY <= s.ModelDimY && j.GetNZ() * s.DimZ <= s.ModelDimZ && s.ModelDimX <= j.GetDim() && s.ModelDimY <= j.GetDim() && s.ModelDimZ <= j.GetDim()

# the regions sent by an agent's dicing: region (x, y, z) of file i
func agent:generateMR
  props C20
  requires in != nil && in.GetNewJobRequest() != nil
  let J = in.GetNewJobRequest()
  requires in.GetNewJobRequest().GetDim() > 0 && in.GetNewJobRequest().GetNX() > 0 && in.GetNewJobRequest().GetNY() > 0 && in.GetNewJobRequest().GetNZ() > 0
  requires forall(f, i, trig(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()[i]), imp(0 <= f && f < len(in.GetNewJobRequest().GetStlFiles()), in.GetNewJobRequest().GetStlFiles()[f] != nil && imp(0 <= i && i < len(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()), hasPoints(in.GetNewJobRequest().GetStlFiles()[f].GetTriangles()[i]))))
  # F: files read, BASE: the first one, S: the regions of the current file that have been sent
  ghost F int = 0
  # LAST: the current file
  ghost LAST *sstl.STL = nil
  ghost BASE *sstl.STL = nil
  ghost S set[binvox.Key] = emptyset(binvox.Key)
  ghost T int = 0
  on call New(p, d, x, y, z): assert [file] F < len(J.GetStlFiles()) && p == J.GetStlFiles()[F] && d == J.GetDim() && x == J.GetNX() && y == J.GetNY() && z == J.GetNZ()
  on call New(p, d, x, y, z): assert [complete] imp(F > 0, allRegions(S, J))
  on call New(p, d, x, y, z): set F = F + 1
  on call New(p, d, x, y, z): set S = emptyset(binvox.Key)
  on ret New(p, d, x, y, z, s, e): set LAST = s
  on ret New(p, d, x, y, z, s, e): set BASE = ite(F == 1, s, BASE)
  on send bvInfo(v): assert [kind] iff(v.base, F == 1)
  on send bvInfo(v): assert [size] v.bv.NX == BASE.DimX && v.bv.NY == BASE.DimY && v.bv.NZ == BASE.DimZ && v.bv.NX > 0 && v.bv.NY > 0 && v.bv.NZ > 0 && v.bv.Scale == BASE.SubregionScale
  on send bvInfo(v): assert [offset] v.dx == it4 * BASE.DimX && v.dy == it3 * BASE.DimY && v.dz == it2 * BASE.DimZ
  on send bvInfo(v): assert [place] v.bv.TX == BASE.MBB.Min.X + float(v.dx) * BASE.MMPV && v.bv.TY == BASE.MBB.Min.Y + float(v.dy) * BASE.MMPV && v.bv.TZ == BASE.MBB.Min.Z + float(v.dz) * BASE.MMPV
  on send bvInfo(v): assert [range] 0 <= it4 && it4 < J.GetNX() && 0 <= it3 && it3 < J.GetNY() && 0 <= it2 && it2 < J.GetNZ()
  on send bvInfo(v): assert [within] v.dx + v.bv.NX <= BASE.ModelDimX && v.dy + v.bv.NY <= BASE.ModelDimY && v.dz + v.bv.NZ <= BASE.ModelDimZ
  on send bvInfo(v): assert [inside] v.dx + v.bv.NX <= J.GetDim() && v.dy + v.bv.NY <= J.GetDim()
  on send bvInfo(v): assert [mesh] v.mesh == LAST.Mesh && v.mesh != nil
  on send bvInfo(v): set S = store(S, binvox.Key{it4, it3, it2}, true)
  on close(): assert [files] F == len(J.GetStlFiles())
  on close(): assert [complete] imp(F > 0, allRegions(S, J))
  loop 1: inv [files] F == it1 && F <= len(J.GetStlFiles()) && imp(F > 0, allRegions(S, J)) && BASE == base && imp(F > 0, base != nil && grid(BASE, J))
  loop 2: inv [z] it2 <= J.GetNZ() && F == it1 + 1 && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), jobRegion(k, J) && k.Z < it2))
  loop 3: inv [y] it3 <= J.GetNY() && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), jobRegion(k, J) && (k.Z < it2 || k.Z == it2 && k.Y < it3)))
  loop 4: inv [x] it4 <= J.GetNX() && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), jobRegion(k, J) && (k.Z < it2 || k.Z == it2 && (k.Y < it3 || k.Y == it3 && k.X < it4))))

# the regions sent by the map-reduce version: all files are diced by the grid of the first
extern github.com/fogleman/fauxgl.LoadSTL (path) (m, err)
  ensures imp(err == nil, m != nil && fresh(m) && blk(m.Lines) == 0 && (blk(m.Triangles) == 0 || fresh(m.Triangles)) && forall(i, trig(m.Triangles[i]), imp(0 <= i && i < len(m.Triangles), m.Triangles[i] != nil && fresh(m.Triangles[i]))))
extern havoc github.com/golang/protobuf/proto.Marshal google.golang.org/protobuf/proto.Marshal

define mrBox(k) = 0 <= k.X && k.X < *nX && 0 <= k.Y && k.Y < *nY && 0 <= k.Z && k.Z < *nZ
define mrAll(s) = forall(k(binvox.Key), trig(has(s, k)), iff(has(s, k), mrBox(k)))
define mapIn(d) = unbox(d, *mr.MapIn)
define reg(d) = unbox(d, *mr.MapIn).VoxelRegion
func dicemr:generateMR
  props C20
  requires dim != nil && nX != nil && nY != nil && nZ != nil && *dim > 0 && *nX > 0 && *nY > 0 && *nZ > 0
  # F: files read, CUR: the current one, S: its regions that have been sent
  ghost F int = 0
  ghost CUR *gl.Mesh = nil
  ghost S set[binvox.Key] = emptyset(binvox.Key)
  on call LoadSTL(p): assert [file] F < len(args) && p == args[F]
  on call LoadSTL(p): assert [complete] imp(F > 0, mrAll(S))
  on call LoadSTL(p): set F = F + 1
  on call LoadSTL(p): set S = emptyset(binvox.Key)
  on ret LoadSTL(p, m, e): set CUR = m
  on ret BoundingBox(m, b): assert [first] F == 1 && m == CUR
  on call Marshal(d): assert [kind] istype(d, *mr.MapIn) && iff(mapIn(d).Base, F == 1)
  on call Marshal(d): assert [mesh] len(mapIn(d).Triangles) == len(CUR.Triangles)
  on call Marshal(d): set S = store(S, binvox.Key{it5, it4, it3}, true)
  on close(): assert [files] F == len(args)
  on close(): assert [complete] imp(F > 0, mrAll(S))
  loop 1: writes heap(*mr.Triangle)
  loop 1: inv [frame] heapkept(*mr.Triangle, r, true)
  loop 1: inv [files] F == it1 && F <= len(args) && imp(F > 0, mrAll(S) && mbb != nil && dimX > 0 && dimY > 0 && dimZ > 0)
  loop 2: writes heap(*mr.Triangle)
  loop 2: inv [frame] heapkept(*mr.Triangle, r, true)
  loop 2: inv [triangles] len(mapIn.Triangles) == it2 && it2 <= len(mesh.Triangles) && mesh == CUR
  loop 2: inv [kind] iff(mapIn.Base, F == 1)
  loop 2: inv [fresh] blk(mapIn.Triangles) == 0 || fresh(mapIn.Triangles)
  loop 3: inv [kind] iff(mapIn.Base, F == 1) && len(mapIn.Triangles) == len(CUR.Triangles)
  loop 3: inv [z] it3 <= *nZ && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), mrBox(k) && k.Z < it3))
  loop 4: inv [kind] iff(mapIn.Base, F == 1) && len(mapIn.Triangles) == len(CUR.Triangles)
  loop 4: inv [y] it4 <= *nY && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), mrBox(k) && (k.Z < it3 || k.Z == it3 && k.Y < it4)))
  loop 5: inv [kind] iff(mapIn.Base, F == 1) && len(mapIn.Triangles) == len(CUR.Triangles)
  loop 5: inv [x] it5 <= *nX && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), mrBox(k) && (k.Z < it3 || k.Z == it3 && (k.Y < it4 || k.Y == it4 && k.X < it5))))

func dicemr:generateMR #grid
  props C20
  # BOX: bounding box of the first file, L: its longest axis, D: size of a region
  ghost BOX gl.Box
  ghost L float64 = 0
  ghost DX int = 0
  ghost DY int = 0
  ghost DZ int = 0
  ghost N int = 0
  on ret BoundingBox(m, b): set BOX = b
  on ret BoundingBox(m, b): set N = N + 1
  on ret BoundingBox(m, b): set L = longest(b)
  on ret BoundingBox(m, b): set DX = div(cover(b.Max.X - b.Min.X, L, *dim), *nX)
  on ret BoundingBox(m, b): set DY = div(cover(b.Max.Y - b.Min.Y, L, *dim), *nY)
  on ret BoundingBox(m, b): set DZ = div(cover(b.Max.Z - b.Min.Z, L, *dim), *nZ)
  on call Marshal(d): assert [size] reg(d).Nx == DX && reg(d).Ny == DY && reg(d).Nz == DZ && DX > 0 && DY > 0 && DZ > 0
  on call Marshal(d): assert [scale] reg(d).Scale == float(max(DX, max(DY, DZ))) * (1.0 / (float(*dim) / L))
  on call Marshal(d): assert [place] reg(d).Tx == BOX.Min.X + float(it5 * DX) * (1.0 / (float(*dim) / L)) && reg(d).Ty == BOX.Min.Y + float(it4 * DY) * (1.0 / (float(*dim) / L)) && reg(d).Tz == BOX.Min.Z + float(it3 * DZ) * (1.0 / (float(*dim) / L))
  loop 1: inv [first] N == ite(it1 > 0, 1, 0)
  loop 1: inv [box] imp(it1 > 0, mbb != nil && *mbb == BOX)
  loop 1: inv [voxel] imp(it1 > 0, mmpv == 1.0 / (float(*dim) / L))
  loop 1: inv [size] imp(it1 > 0, dimX == DX && dimY == DY && dimZ == DZ)
  loop 1: inv [positive] imp(it1 > 0, DX > 0 && DY > 0 && DZ > 0)
  loop 1: inv [scale] imp(it1 > 0, subregionScale == float(max(DX, max(DY, DZ))) * (1.0 / (float(*dim) / L)))
  loop 2: inv [same] true
  loop 3: inv [same] true
  loop 4: inv [same] true
  loop 5: inv [same] true

# the regions written by the stldice command (regions whose file exists, or that are empty, are left out)
extern pure strings.TrimPrefix strings.TrimSuffix
extern os.Stat (name) (fi, err)
extern os.IsExist (err) (r)
define inDice(k) = 0 <= k.X && k.X < nx && 0 <= k.Y && k.Y < ny && 0 <= k.Z && k.Z < nz
func dice:diceMesh
  props C20
  elsewhere binvox:(*BinVOX).Voxelize binvox:(*BinVOX).Write
  requires mesh != nil && mbb != nil && dim > 0 && nx > 0 && ny > 0 && nz > 0
  requires forall(i, trig(mesh.Triangles[i]), imp(0 <= i && i < len(mesh.Triangles), mesh.Triangles[i] != nil))
  requires scale > 0.0 && scale == longest(mbb) && mbb.Min.X <= mbb.Max.X && mbb.Min.Y <= mbb.Max.Y && mbb.Min.Z <= mbb.Max.Z
  let DX = div(cover(mbb.Max.X - mbb.Min.X, scale, dim), nx)
  let DY = div(cover(mbb.Max.Y - mbb.Min.Y, scale, dim), ny)
  let DZ = div(cover(mbb.Max.Z - mbb.Min.Z, scale, dim), nz)
  let MM = 1.0 / (float(dim) / scale)
  # S: regions looked at, CUR: the model of the current one
  ghost S set[binvox.Key] = emptyset(binvox.Key)
  ghost CUR *binvox.BinVOX = nil
  on call Stat(f): set S = store(S, binvox.Key{it3, it2, it1}, true)
  on call Voxelize(b, m): assert [mesh] m == mesh && b != nil && len(b.WhiteVoxels) == 0
  on call Voxelize(b, m): assert [size] b.NX == DX && b.NY == DY && b.NZ == DZ && DX > 0 && DY > 0 && DZ > 0
  on call Voxelize(b, m): assert [scale] b.Scale == float(max(DX, max(DY, DZ))) * MM
  on call Voxelize(b, m): assert [place] b.TX == mbb.Min.X + float(it3 * DX) * MM && b.TY == mbb.Min.Y + float(it2 * DY) * MM && b.TZ == mbb.Min.Z + float(it1 * DZ) * MM
  on call Voxelize(b, m): set CUR = b
  on call Write(b, f, x, y, z, i, j, k): assert [write] b == CUR && x == 0 && y == 0 && z == 0 && i == 0 && j == 0 && k == 0
  on call Write(b, f, x, y, z, i, j, k): set CUR = nil
  loop 1: inv [z] it1 <= nz && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), inDice(k) && k.Z < it1))
  loop 2: inv [y] it2 <= ny && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), inDice(k) && (k.Z < it1 || k.Z == it1 && k.Y < it2)))
  loop 3: inv [x] it3 <= nx && forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), inDice(k) && (k.Z < it1 || k.Z == it1 && (k.Y < it2 || k.Y == it2 && k.X < it3))))
  ensures [error] imp(DX == 0 || DY == 0 || DZ == 0, result1 != nil)
  ensures [all] imp(result1 == nil, forall(k(binvox.Key), trig(has(S, k)), iff(has(S, k), inDice(k))))
  ensures [within] imp(result1 == nil, nx * DX <= dim && ny * DY <= dim && nz * DZ <= dim)
