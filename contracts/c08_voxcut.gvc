# C08: cutting one model by another

# the voxel of the cut model at the place of voxel k of the base model
define placed(k) = binvox.Key{k.X + DX, k.Y + DY, k.Z + DZ}
define isCut(k) = has(cut.WhiteVoxels, placed(k))

func voxcut:voxcut
  props C08
  requires base != nil && cut != nil
  # the cut model has no coloured voxels, those of the base have components of at most 1
  requires forall(k(binvox.Key), trig(has(cut.ColorVoxels, k)), !has(cut.ColorVoxels, k))
  requires forall(k(binvox.Key), trig(base.ColorVoxels[k]), imp(has(base.ColorVoxels, k), base.ColorVoxels[k].R <= 1 && base.ColorVoxels[k].G <= 1 && base.ColorVoxels[k].B <= 1))
  let DX = round((base.TX - cut.TX) * base.VoxelsPerMM())
  let DY = round((base.TY - cut.TY) * base.VoxelsPerMM())
  let DZ = round((base.TZ - cut.TZ) * base.VoxelsPerMM())
  loop 1: inv [cut] forall(k(binvox.Key), trig(has(newVoxels, k)), iff(has(newVoxels, k), visited(k) && !isCut(k)))
  loop 2: inv [cut] forall(k(binvox.Key), trig(has(newVoxels, k)), iff(has(newVoxels, k), (has(base.WhiteVoxels, k) || visited(k)) && !isCut(k)))
  ensures [nothing] imp(len(cut.WhiteVoxels) == 0, result0 == base.WhiteVoxels && result1 == nil)
  ensures [empty] iff(result1 != nil, len(cut.WhiteVoxels) > 0 && len(base.WhiteVoxels) == 0)
  ensures [exact] imp(len(cut.WhiteVoxels) > 0 && result1 == nil, forall(k(binvox.Key), trig(has(result0, k)), iff(has(result0, k), (has(base.WhiteVoxels, k) || has(base.ColorVoxels, k)) && !isCut(k))))
