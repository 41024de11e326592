# C07: where merging puts the voxels

# how far apart two origins are, in voxels
define apart(t, b, v) = round((b - t) * v)
define shellV(v) = vpmmOf(v.NX, v.NY, v.NZ, v.Scale)
define shellDim(v) = max(max(v.NX, v.NY), v.NZ)
define covered(v) = forall(i, trig(v.Voxels[i]), imp(0 <= i && i < len(v.Voxels), v.Voxels[i].X < v.NX && v.Voxels[i].Y < v.NY && v.Voxels[i].Z < v.NZ))

# the model starting later along an axis is moved by the rounded offset: every voxel keeps its place
lemma keepsPlace(t float64, b float64, v float64, i int)
  props C07
  requires v > 0.0
  ensures [old] abs(min(t, b) + float(i + max(0 - apart(t, b, v), 0)) / v - (t + float(i) / v)) * 2.0 * v <= 1.0
  ensures [new] abs(min(t, b) + float(i + max(apart(t, b, v), 0)) / v - (b + float(i) / v)) * 2.0 * v <= 1.0

# the scale is adjusted so that the resolution stays
lemma rescale(s float64, d float64, r float64, v float64)
  props C07
  requires s > 0.0 && d > 0.0 && v > 0.0 && r == d / s
  ensures [same] s * (r / v) > 0.0 && d / (s * (r / v)) == v

func vshell:(*VShell).update
  props C07
  requires vs != nil && bv != nil && shellDim(vs) > 0
  modifies *vs
  modifies elems(vs.Voxels)
  let V = shellV(vs)
  let OX = round((bv.TX - vs.TX) * V)
  let OY = round((bv.TY - vs.TY) * V)
  let OZ = round((bv.TZ - vs.TZ) * V)
  let COV = covered(vs)
  loop 1: inv [shell] vs.Voxels == old(vs.Voxels) && vs.Scale == old(vs.Scale) && vs.TX == min(old(vs.TX), bv.TX) && vs.TY == min(old(vs.TY), bv.TY) && vs.TZ == min(old(vs.TZ), bv.TZ)
  loop 1: inv [moved] it1 <= len(vs.Voxels) && forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < it1, vs.Voxels[i].X == old(vs.Voxels[i].X) + mx && vs.Voxels[i].Y == old(vs.Voxels[i].Y) + my && vs.Voxels[i].Z == old(vs.Voxels[i].Z) + mz && vs.Voxels[i].N == old(vs.Voxels[i].N)))
  loop 1: inv [later] forall(i, trig(vs.Voxels[i]), imp(it1 <= i && i < len(vs.Voxels), vs.Voxels[i] == old(vs.Voxels[i])))
  loop 1: inv [dims] vs.NX >= old(vs.NX) && vs.NY >= old(vs.NY) && vs.NZ >= old(vs.NZ)
  loop 1: inv [cover] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < it1, vs.Voxels[i].X < vs.NX && vs.Voxels[i].Y < vs.NY && vs.Voxels[i].Z < vs.NZ))
  ensures [refused] iff(err != nil, trunc(V) != trunc(bv.VoxelsPerMM()))
  ensures [kept] imp(err != nil, unchanged(*vs) && forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i] == old(vs.Voxels[i]))))
  ensures [offset] imp(err == nil, dx == max(OX, 0) && dy == max(OY, 0) && dz == max(OZ, 0))
  ensures [origin] imp(err == nil, vs.TX == min(old(vs.TX), bv.TX) && vs.TY == min(old(vs.TY), bv.TY) && vs.TZ == min(old(vs.TZ), bv.TZ))
  ensures [moved] imp(err == nil, forall(i, trig(vs.Voxels[i]), trig(old(vs.Voxels[i])), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].X == old(vs.Voxels[i].X) + max(0 - OX, 0) && vs.Voxels[i].Y == old(vs.Voxels[i].Y) + max(0 - OY, 0) && vs.Voxels[i].Z == old(vs.Voxels[i].Z) + max(0 - OZ, 0) && vs.Voxels[i].N == old(vs.Voxels[i].N))))
  ensures [dims] vs.NX >= old(vs.NX) && vs.NY >= old(vs.NY) && vs.NZ >= old(vs.NZ)
  ensures [cover] imp(err == nil && COV, covered(vs))
  ensures [list] vs.Voxels == old(vs.Voxels)
  ensures [resolution] shellV(vs) == V

# the voxels of a model
define inModel(v, k) = has(v.WhiteVoxels, k) || has(v.ColorVoxels, k)
define vkey(v) = key{v.X, v.Y, v.Z}
define inside(s, k) = k.X < s.NX && k.Y < s.NY && k.Z < s.NZ
# where a voxel of the merged shell came from
define fromNew(k) = has(FN, vkey(k))
define fromOld(k) = has(FO, vkey(k))

# every listed voxel has been moved, nothing else
define movedBy(x, y, z) = len(vs.Voxels) == old(len(vs.Voxels)) && forall(i, trig(vs.Voxels[i]), trig(old(vs.Voxels[i])), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].X == old(vs.Voxels[i].X) + x && vs.Voxels[i].Y == old(vs.Voxels[i].Y) + y && vs.Voxels[i].Z == old(vs.Voxels[i].Z) + z && vs.Voxels[i].N == old(vs.Voxels[i].N)))

func vshell:(*VShell).Add
  props C07
  requires imp(vs != nil && bv != nil, shellDim(bv) > 0 && shellDim(vs) >= 0 && imp(shellDim(vs) == 0, len(vs.Voxels) == 0))
  modifies *vs, elems(vs.Voxels)
  # US: the voxels added so far (see c06_shell.gvc)
  ghost US set[key]
  modifies US
  let READY = vs != nil && bv != nil
  let EMPTY = shellDim(vs) == 0
  let V = ite(EMPTY, bv.VoxelsPerMM(), shellV(vs))
  let OX = ite(EMPTY, 0, round((bv.TX - vs.TX) * shellV(vs)))
  let OY = ite(EMPTY, 0, round((bv.TY - vs.TY) * shellV(vs)))
  let OZ = ite(EMPTY, 0, round((bv.TZ - vs.TZ) * shellV(vs)))
  let COV = covered(vs)
  # MX, DX ...: how far the old voxels and the new ones are moved
  ghost MX int
  ghost MY int
  ghost MZ int
  ghost DX int
  ghost DY int
  ghost DZ int
  assumes [def.M] imp(READY, MX == max(0 - OX, 0) && MY == max(0 - OY, 0) && MZ == max(0 - OZ, 0))
  assumes [def.D] imp(READY, DX == max(OX, 0) && DY == max(OY, 0) && DZ == max(OZ, 0))
  # FO, FN: where the voxels of the shell and those of the model belong
  ghost FO set[key]
  ghost FN set[key]
  assumes [def.FO] imp(READY, forall(k(key), trig(has(FO, k)), iff(has(FO, k), exists(i, trig(vs.Voxels[i]), 0 <= i && i < len(vs.Voxels) && key{vs.Voxels[i].X + MX, vs.Voxels[i].Y + MY, vs.Voxels[i].Z + MZ} == k))))
  assumes [def.FN] imp(READY, forall(k(key), trig(has(FN, k)), iff(has(FN, k), inModel(bv, binvox.Key{k.X - DX, k.Y - DY, k.Z - DZ}))))
  # PREV: the resolution computed last
  ghost PREV float64 = 0.0
  on ret VoxelsPerMM(s, r): apply rescale(s.Scale, float(shellDim(s)), r, PREV)
  on ret VoxelsPerMM(s, r): set PREV = r
  loop 1: inv [moved] dx == DX && dy == DY && dz == DZ && movedBy(MX, MY, MZ)
  loop 1: inv [new] forall(k(key), trig(has(lookup, k)), iff(has(lookup, k), visited(binvox.Key{k.X - dx, k.Y - dy, k.Z - dz})))
  loop 1: inv [shell] vs.Voxels == entry(vs.Voxels) && vs.Scale == entry(vs.Scale) && vs.TX == entry(vs.TX) && vs.TY == entry(vs.TY) && vs.TZ == entry(vs.TZ)
  loop 1: inv [dims] vs.NX >= entry(vs.NX) && vs.NY >= entry(vs.NY) && vs.NZ >= entry(vs.NZ)
  loop 1: inv [inside] forall(k(key), trig(has(lookup, k)), imp(has(lookup, k), inside(vs, k)))
  loop 1: inv [room] forall(b(binvox.Key), trig(visited(b)), imp(visited(b), b.X + dx < vs.NX && b.Y + dy < vs.NY && b.Z + dz < vs.NZ))
  loop 1: inv [old] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), fromOld(vs.Voxels[i])))
  loop 1: inv [cover] imp(COV, covered(vs))
  loop 1: inv [resolution] beforeVPMM == V
  loop 2: inv [resolution] beforeVPMM == V
  loop 2: inv [room] forall(b(binvox.Key), trig(visited(b)), imp(visited(b), b.X + dx < vs.NX && b.Y + dy < vs.NY && b.Z + dz < vs.NZ)) && forall(b(binvox.Key), trig(has(bv.WhiteVoxels, b)), imp(has(bv.WhiteVoxels, b), b.X + dx < vs.NX && b.Y + dy < vs.NY && b.Z + dz < vs.NZ))
  loop 2: inv [cover] imp(COV, covered(vs))
  loop 2: inv [new] forall(k(key), trig(has(lookup, k)), iff(has(lookup, k), has(bv.WhiteVoxels, binvox.Key{k.X - dx, k.Y - dy, k.Z - dz}) || visited(binvox.Key{k.X - dx, k.Y - dy, k.Z - dz})))
  loop 2: inv [shell] vs.Voxels == entry(vs.Voxels) && vs.Scale == entry(vs.Scale) && vs.TX == entry(vs.TX) && vs.TY == entry(vs.TY) && vs.TZ == entry(vs.TZ)
  loop 2: inv [dims] vs.NX >= entry(vs.NX) && vs.NY >= entry(vs.NY) && vs.NZ >= entry(vs.NZ)
  loop 2: inv [inside] forall(k(key), trig(has(lookup, k)), imp(has(lookup, k), inside(vs, k)))
  loop 3: inv [new] forall(k(key), trig(has(lookup, k)), imp(has(lookup, k), fromNew(k) && inside(vs, k)))
  loop 3: inv [resolution] shellV(vs) == V
  loop 3: inv [few] len(old) <= it3
  loop 3: inv [where] it3 <= len(vs.Voxels) && forall(k(key), trig(old[k]), imp(has(old, k), exists(i, trig(vs.Voxels[i]), 0 <= i && i < it3 && old[k] == &vs.Voxels[i])))
  loop 4: writes vs.Voxels
  loop 4: apply fewer(card(dom(toRemove)), dom(toRemove), dom(old))
  loop 4: inv [old] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), fromOld(vs.Voxels[i]) && imp(COV, inside(vs, vs.Voxels[i]))))
  loop 4: inv [own] blk(newShell) == 0 || fresh(newShell) && blk(newShell) != blk(vs.Voxels)
  loop 4: inv [new] forall(j, trig(newShell[j]), imp(0 <= j && j < len(newShell), fromNew(newShell[j]) && inside(vs, newShell[j])))
  loop 4: inv [few] forall(t(key), trig(has(toRemove, t)), imp(has(toRemove, t), has(old, t)))
  loop 5: writes vs.Voxels
  loop 5: inv [old] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), fromOld(vs.Voxels[i]) && imp(COV, inside(vs, vs.Voxels[i]))))
  loop 5: inv [range] it5 <= len(toCheck)
  loop 5: inv [new] forall(j, trig(newShell[j]), imp(0 <= j && j < len(newShell), fromNew(newShell[j]) && inside(vs, newShell[j])))
  loop 5: inv [few] forall(t(key), trig(has(toRemove, t)), imp(has(toRemove, t), has(old, t)))
  loop 6: inv [own] fresh(newVoxels) && blk(newVoxels) != blk(vs.Voxels)
  loop 6: inv [all] it6 <= len(vs.Voxels) && forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), (fromNew(vs.Voxels[i]) || fromOld(vs.Voxels[i])) && imp(COV, inside(vs, vs.Voxels[i]))))
  loop 6: inv [from] forall(j, trig(newVoxels[j]), imp(0 <= j && j < len(newVoxels), (fromNew(newVoxels[j]) || fromOld(newVoxels[j])) && imp(COV, inside(vs, newVoxels[j]))))
  ensures [refused] iff(err != nil, !READY || !EMPTY && trunc(old(shellV(vs))) != trunc(bv.VoxelsPerMM()))
  ensures [kept] imp(err != nil && READY, unchanged(*vs) && forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i] == old(vs.Voxels[i]))))
  ensures [origin] imp(err == nil, vs.TX == ite(EMPTY, bv.TX, min(old(vs.TX), bv.TX)) && vs.TY == ite(EMPTY, bv.TY, min(old(vs.TY), bv.TY)) && vs.TZ == ite(EMPTY, bv.TZ, min(old(vs.TZ), bv.TZ)))
  ensures [places] imp(err == nil, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), fromNew(vs.Voxels[i]) || fromOld(vs.Voxels[i]))))
  ensures [dims] imp(err == nil && COV, covered(vs))
  ensures [room] imp(err == nil, forall(k(binvox.Key), trig(inModel(bv, k)), imp(inModel(bv, k), k.X + DX < vs.NX && k.Y + DY < vs.NY && k.Z + DZ < vs.NZ)))
  ensures [resolution] imp(err == nil, shellV(vs) == V)
