# C11: resolution, bounding box, lookups

define vpmmOf(nx, ny, nz, scale) = ite(scale <= 0, 1.0, float(max(max(nx, ny), nz)) / scale)

func binvox:(*BinVOX).Dim
  props C11
  requires b != nil
  ensures result == max(max(b.NX, b.NY), b.NZ)

func binvox:(*BinVOX).VoxelsPerMM
  props C11
  requires b != nil
  ensures result == vpmmOf(b.NX, b.NY, b.NZ, b.Scale)

func binvox:(*BinVOX).MBB
  props C11
  requires b != nil
  requires b.NX > 0 && b.NY > 0 && b.NZ > 0
  ensures [min] result.Min.X == b.TX && result.Min.Y == b.TY && result.Min.Z == b.TZ
  ensures [maxx] result.Max.X == b.TX + float(b.NX) / vpmmOf(b.NX, b.NY, b.NZ, b.Scale)
  ensures [maxy] result.Max.Y == b.TY + float(b.NY) / vpmmOf(b.NX, b.NY, b.NZ, b.Scale)
  ensures [maxz] result.Max.Z == b.TZ + float(b.NZ) / vpmmOf(b.NX, b.NY, b.NZ, b.Scale)
  ensures [fresh] fresh(result)

func binvox:(*BinVOX).Get
  props C11 C08
  requires b != nil
  ensures [present] result1 == (has(b.WhiteVoxels, Key{x, y, z}) || has(b.ColorVoxels, Key{x, y, z}))
  ensures [white] imp(has(b.WhiteVoxels, Key{x, y, z}), result0 == Color{1.0, 1.0, 1.0, 1.0})
  ensures [colour] imp(!has(b.WhiteVoxels, Key{x, y, z}) && has(b.ColorVoxels, Key{x, y, z}), result0 == b.ColorVoxels[Key{x, y, z}])

func binvox:(*BinVOX).Add
  props C11
  requires b != nil && b.WhiteVoxels != nil
  modifies contents(b.WhiteVoxels)
  ensures forall(k(Key), has(b.WhiteVoxels, k) == (old(has(b.WhiteVoxels, k)) || k == Key{x, y, z}))

func binvox:(*BinVOX).AddColor
  props C11
  requires b != nil && b.ColorVoxels != nil
  modifies contents(b.ColorVoxels)
  ensures [dom] forall(k(Key), has(b.ColorVoxels, k) == (old(has(b.ColorVoxels, k)) || k == Key{x, y, z}))
  ensures [val] b.ColorVoxels[Key{x, y, z}] == c
  ensures [others] forall(k(Key), imp(k != Key{x, y, z}, b.ColorVoxels[k] == old(b.ColorVoxels[k])))

func binvox:New
  props C11
  ensures [fields] result.NX == nx && result.NY == ny && result.NZ == nz && result.TX == offx && result.TY == offy && result.TZ == offz && result.Scale == scale
  ensures [maps] (fullColor && result.WhiteVoxels == nil && result.ColorVoxels != nil) || (!fullColor && result.WhiteVoxels != nil && result.ColorVoxels == nil)
  ensures [empty] forall(k(Key), !has(result.WhiteVoxels, k) && !has(result.ColorVoxels, k))
  ensures [fresh] fresh(result) && imp(fullColor, fresh(result.ColorVoxels)) && imp(!fullColor, fresh(result.WhiteVoxels))

func vshell:(*VShell).Dim
  props C11
  requires v != nil
  ensures result == max(max(v.NX, v.NY), v.NZ)

func vshell:(*VShell).VoxelsPerMM
  props C11
  requires v != nil
  ensures result == vpmmOf(v.NX, v.NY, v.NZ, v.Scale)

func vshell:(*VShell).MBB
  props C11
  requires v != nil
  requires v.NX > 0 && v.NY > 0 && v.NZ > 0
  ensures [min] result.Min.X == v.TX && result.Min.Y == v.TY && result.Min.Z == v.TZ
  ensures [maxx] result.Max.X == v.TX + float(v.NX) / vpmmOf(v.NX, v.NY, v.NZ, v.Scale)
  ensures [maxy] result.Max.Y == v.TY + float(v.NY) / vpmmOf(v.NX, v.NY, v.NZ, v.Scale)
  ensures [maxz] result.Max.Z == v.TZ + float(v.NZ) / vpmmOf(v.NX, v.NY, v.NZ, v.Scale)
  ensures [fresh] fresh(result)
