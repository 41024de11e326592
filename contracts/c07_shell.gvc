# C06: which voxels a shell lists, with which neighbour bits

# the neighbours of k that are in A or in B, and those among the first c directions
opaque allBits(A set[key], B set[key], k key) NeighborBitMap vshell = ite(has(A, key{k.X - 1, k.Y - 1, k.Z - 1}) || has(B, key{k.X - 1, k.Y - 1, k.Z - 1}), X_1Y_1Z_1, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y - 1, k.Z}) || has(B, key{k.X - 1, k.Y - 1, k.Z}), X_1Y_1Z0, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y - 1, k.Z + 1}) || has(B, key{k.X - 1, k.Y - 1, k.Z + 1}), X_1Y_1Z1, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y, k.Z - 1}) || has(B, key{k.X - 1, k.Y, k.Z - 1}), X_1Y0Z_1, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y, k.Z}) || has(B, key{k.X - 1, k.Y, k.Z}), X_1Y0Z0, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y, k.Z + 1}) || has(B, key{k.X - 1, k.Y, k.Z + 1}), X_1Y0Z1, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y + 1, k.Z - 1}) || has(B, key{k.X - 1, k.Y + 1, k.Z - 1}), X_1Y1Z_1, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y + 1, k.Z}) || has(B, key{k.X - 1, k.Y + 1, k.Z}), X_1Y1Z0, bv32(0)) |
  ite(has(A, key{k.X - 1, k.Y + 1, k.Z + 1}) || has(B, key{k.X - 1, k.Y + 1, k.Z + 1}), X_1Y1Z1, bv32(0)) |
  ite(has(A, key{k.X, k.Y - 1, k.Z - 1}) || has(B, key{k.X, k.Y - 1, k.Z - 1}), X0Y_1Z_1, bv32(0)) |
  ite(has(A, key{k.X, k.Y - 1, k.Z}) || has(B, key{k.X, k.Y - 1, k.Z}), X0Y_1Z0, bv32(0)) |
  ite(has(A, key{k.X, k.Y - 1, k.Z + 1}) || has(B, key{k.X, k.Y - 1, k.Z + 1}), X0Y_1Z1, bv32(0)) |
  ite(has(A, key{k.X, k.Y, k.Z - 1}) || has(B, key{k.X, k.Y, k.Z - 1}), X0Y0Z_1, bv32(0)) |
  ite(has(A, key{k.X, k.Y, k.Z + 1}) || has(B, key{k.X, k.Y, k.Z + 1}), X0Y0Z1, bv32(0)) |
  ite(has(A, key{k.X, k.Y + 1, k.Z - 1}) || has(B, key{k.X, k.Y + 1, k.Z - 1}), X0Y1Z_1, bv32(0)) |
  ite(has(A, key{k.X, k.Y + 1, k.Z}) || has(B, key{k.X, k.Y + 1, k.Z}), X0Y1Z0, bv32(0)) |
  ite(has(A, key{k.X, k.Y + 1, k.Z + 1}) || has(B, key{k.X, k.Y + 1, k.Z + 1}), X0Y1Z1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y - 1, k.Z - 1}) || has(B, key{k.X + 1, k.Y - 1, k.Z - 1}), X1Y_1Z_1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y - 1, k.Z}) || has(B, key{k.X + 1, k.Y - 1, k.Z}), X1Y_1Z0, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y - 1, k.Z + 1}) || has(B, key{k.X + 1, k.Y - 1, k.Z + 1}), X1Y_1Z1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y, k.Z - 1}) || has(B, key{k.X + 1, k.Y, k.Z - 1}), X1Y0Z_1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y, k.Z}) || has(B, key{k.X + 1, k.Y, k.Z}), X1Y0Z0, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y, k.Z + 1}) || has(B, key{k.X + 1, k.Y, k.Z + 1}), X1Y0Z1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y + 1, k.Z - 1}) || has(B, key{k.X + 1, k.Y + 1, k.Z - 1}), X1Y1Z_1, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y + 1, k.Z}) || has(B, key{k.X + 1, k.Y + 1, k.Z}), X1Y1Z0, bv32(0)) |
  ite(has(A, key{k.X + 1, k.Y + 1, k.Z + 1}) || has(B, key{k.X + 1, k.Y + 1, k.Z + 1}), X1Y1Z1, bv32(0))
opaque someBits(A set[key], B set[key], k key, c int) NeighborBitMap vshell = ite(0 < c && (has(A, key{k.X - 1, k.Y - 1, k.Z - 1}) || has(B, key{k.X - 1, k.Y - 1, k.Z - 1})), X_1Y_1Z_1, bv32(0)) |
  ite(1 < c && (has(A, key{k.X - 1, k.Y - 1, k.Z}) || has(B, key{k.X - 1, k.Y - 1, k.Z})), X_1Y_1Z0, bv32(0)) |
  ite(2 < c && (has(A, key{k.X - 1, k.Y - 1, k.Z + 1}) || has(B, key{k.X - 1, k.Y - 1, k.Z + 1})), X_1Y_1Z1, bv32(0)) |
  ite(3 < c && (has(A, key{k.X - 1, k.Y, k.Z - 1}) || has(B, key{k.X - 1, k.Y, k.Z - 1})), X_1Y0Z_1, bv32(0)) |
  ite(4 < c && (has(A, key{k.X - 1, k.Y, k.Z}) || has(B, key{k.X - 1, k.Y, k.Z})), X_1Y0Z0, bv32(0)) |
  ite(5 < c && (has(A, key{k.X - 1, k.Y, k.Z + 1}) || has(B, key{k.X - 1, k.Y, k.Z + 1})), X_1Y0Z1, bv32(0)) |
  ite(6 < c && (has(A, key{k.X - 1, k.Y + 1, k.Z - 1}) || has(B, key{k.X - 1, k.Y + 1, k.Z - 1})), X_1Y1Z_1, bv32(0)) |
  ite(7 < c && (has(A, key{k.X - 1, k.Y + 1, k.Z}) || has(B, key{k.X - 1, k.Y + 1, k.Z})), X_1Y1Z0, bv32(0)) |
  ite(8 < c && (has(A, key{k.X - 1, k.Y + 1, k.Z + 1}) || has(B, key{k.X - 1, k.Y + 1, k.Z + 1})), X_1Y1Z1, bv32(0)) |
  ite(9 < c && (has(A, key{k.X, k.Y - 1, k.Z - 1}) || has(B, key{k.X, k.Y - 1, k.Z - 1})), X0Y_1Z_1, bv32(0)) |
  ite(10 < c && (has(A, key{k.X, k.Y - 1, k.Z}) || has(B, key{k.X, k.Y - 1, k.Z})), X0Y_1Z0, bv32(0)) |
  ite(11 < c && (has(A, key{k.X, k.Y - 1, k.Z + 1}) || has(B, key{k.X, k.Y - 1, k.Z + 1})), X0Y_1Z1, bv32(0)) |
  ite(12 < c && (has(A, key{k.X, k.Y, k.Z - 1}) || has(B, key{k.X, k.Y, k.Z - 1})), X0Y0Z_1, bv32(0)) |
  ite(14 < c && (has(A, key{k.X, k.Y, k.Z + 1}) || has(B, key{k.X, k.Y, k.Z + 1})), X0Y0Z1, bv32(0)) |
  ite(15 < c && (has(A, key{k.X, k.Y + 1, k.Z - 1}) || has(B, key{k.X, k.Y + 1, k.Z - 1})), X0Y1Z_1, bv32(0)) |
  ite(16 < c && (has(A, key{k.X, k.Y + 1, k.Z}) || has(B, key{k.X, k.Y + 1, k.Z})), X0Y1Z0, bv32(0)) |
  ite(17 < c && (has(A, key{k.X, k.Y + 1, k.Z + 1}) || has(B, key{k.X, k.Y + 1, k.Z + 1})), X0Y1Z1, bv32(0)) |
  ite(18 < c && (has(A, key{k.X + 1, k.Y - 1, k.Z - 1}) || has(B, key{k.X + 1, k.Y - 1, k.Z - 1})), X1Y_1Z_1, bv32(0)) |
  ite(19 < c && (has(A, key{k.X + 1, k.Y - 1, k.Z}) || has(B, key{k.X + 1, k.Y - 1, k.Z})), X1Y_1Z0, bv32(0)) |
  ite(20 < c && (has(A, key{k.X + 1, k.Y - 1, k.Z + 1}) || has(B, key{k.X + 1, k.Y - 1, k.Z + 1})), X1Y_1Z1, bv32(0)) |
  ite(21 < c && (has(A, key{k.X + 1, k.Y, k.Z - 1}) || has(B, key{k.X + 1, k.Y, k.Z - 1})), X1Y0Z_1, bv32(0)) |
  ite(22 < c && (has(A, key{k.X + 1, k.Y, k.Z}) || has(B, key{k.X + 1, k.Y, k.Z})), X1Y0Z0, bv32(0)) |
  ite(23 < c && (has(A, key{k.X + 1, k.Y, k.Z + 1}) || has(B, key{k.X + 1, k.Y, k.Z + 1})), X1Y0Z1, bv32(0)) |
  ite(24 < c && (has(A, key{k.X + 1, k.Y + 1, k.Z - 1}) || has(B, key{k.X + 1, k.Y + 1, k.Z - 1})), X1Y1Z_1, bv32(0)) |
  ite(25 < c && (has(A, key{k.X + 1, k.Y + 1, k.Z}) || has(B, key{k.X + 1, k.Y + 1, k.Z})), X1Y1Z0, bv32(0)) |
  ite(26 < c && (has(A, key{k.X + 1, k.Y + 1, k.Z + 1}) || has(B, key{k.X + 1, k.Y + 1, k.Z + 1})), X1Y1Z1, bv32(0))
# the bit of direction c
define bitAt(c) = ite(c == 0, bv32(1), ite(c == 1, bv32(2), ite(c == 2, bv32(4), ite(c == 3, bv32(8), ite(c == 4, bv32(16), ite(c == 5, bv32(32), ite(c == 6, bv32(64), ite(c == 7, bv32(128), ite(c == 8, bv32(256), ite(c == 9, bv32(512), ite(c == 10, bv32(1024), ite(c == 11, bv32(2048), ite(c == 12, bv32(4096), ite(c == 13, bv32(8192), ite(c == 14, bv32(16384), ite(c == 15, bv32(32768), ite(c == 16, bv32(65536), ite(c == 17, bv32(131072), ite(c == 18, bv32(262144), ite(c == 19, bv32(524288), ite(c == 20, bv32(1048576), ite(c == 21, bv32(2097152), ite(c == 22, bv32(4194304), ite(c == 23, bv32(8388608), ite(c == 24, bv32(16777216), ite(c == 25, bv32(33554432), ite(c == 26, bv32(67108864), ite(c == 27, bv32(134217728), bv32(0)))))))))))))))))))))))))))))
define near(a, b) = a != b && abs(a.X - b.X) <= 1 && abs(a.Y - b.Y) <= 1 && abs(a.Z - b.Z) <= 1
# the direction in which n lies, seen from its neighbour o
define dir(o, n) = 9 * (n.X - o.X + 1) + 3 * (n.Y - o.Y + 1) + (n.Z - o.Z + 1)
define step(o, n) = ite(near(o, n), bitAt(dir(o, n)), bv32(0))

func vshell:diffKeys
  props C06
  ensures [bit] result == step(o, n)

# IDX(t): how many neighbours were listed before t was looked at
ufun IDX(vshell.key) int
define lookedAt(t, c) = near(k, t) && dir(k, t) < c
define toList(t) = has(old, t) && !has(m, t)

func vshell:(lookupMap).findNeighbors
  props C06
  reveal someBits
  loop 1: inv [range] 0 - 1 <= x && x <= 2
  loop 1: inv [mask] mask == bitAt(9 * (x + 1))
  loop 1: inv [bits] result == someBits(dom(m), dom(old), k, 9 * (x + 1))
  loop 1: inv [only] forall(i, trig(toCheck[i]), imp(0 <= i && i < len(toCheck), near(k, toCheck[i]) && toList(toCheck[i])))
  loop 1: inv [all] forall(t(key), trig(IDX(t)), imp(lookedAt(t, 9 * (x + 1)) && toList(t), 0 <= IDX(t) && IDX(t) < len(toCheck) && toCheck[IDX(t)] == t))
  loop 2: inv [range] 0 - 1 <= x && x <= 1 && 0 - 1 <= y && y <= 2
  loop 2: inv [mask] mask == bitAt(9 * (x + 1) + 3 * (y + 1))
  loop 2: inv [bits] result == someBits(dom(m), dom(old), k, 9 * (x + 1) + 3 * (y + 1))
  loop 2: inv [only] forall(i, trig(toCheck[i]), imp(0 <= i && i < len(toCheck), near(k, toCheck[i]) && toList(toCheck[i])))
  loop 2: inv [all] forall(t(key), trig(IDX(t)), imp(lookedAt(t, 9 * (x + 1) + 3 * (y + 1)) && toList(t), 0 <= IDX(t) && IDX(t) < len(toCheck) && toCheck[IDX(t)] == t))
  loop 3: inv [range] 0 - 1 <= x && x <= 1 && 0 - 1 <= y && y <= 1 && 0 - 1 <= z && z <= 2
  loop 3: inv [mask] mask == bitAt(9 * (x + 1) + 3 * (y + 1) + z + 1)
  loop 3: inv [bits] result == someBits(dom(m), dom(old), k, 9 * (x + 1) + 3 * (y + 1) + z + 1)
  loop 3: assume [def.IDX] imp(z <= 1, IDX(key{k.X + x, k.Y + y, k.Z + z}) == len(toCheck))
  loop 3: inv [only] forall(i, trig(toCheck[i]), imp(0 <= i && i < len(toCheck), near(k, toCheck[i]) && toList(toCheck[i])))
  loop 3: inv [all] forall(t(key), trig(IDX(t)), imp(lookedAt(t, 9 * (x + 1) + 3 * (y + 1) + z + 1) && toList(t), 0 <= IDX(t) && IDX(t) < len(toCheck) && toCheck[IDX(t)] == t))
  ensures [bits] result == someBits(dom(m), dom(old), k, 27)
  ensures [only] forall(i, trig(toCheck[i]), imp(0 <= i && i < len(toCheck), near(k, toCheck[i]) && toList(toCheck[i])))
  ensures [all] forall(t(key), trig(IDX(t)), trig(has(old, t)), imp(near(k, t) && toList(t), 0 <= IDX(t) && IDX(t) < len(toCheck) && toCheck[IDX(t)] == t))

lemma allSame(A set[vshell.key], B set[vshell.key], k vshell.key) vshell
  props C06
  trig someBits(A, B, k, 27)
  reveal allBits someBits
  ensures [same] someBits(A, B, k, 27) == allBits(A, B, k)

# what a set of neighbours depends on
lemma sameNeighbours(A set[vshell.key], B set[vshell.key], C set[vshell.key], D set[vshell.key], k vshell.key) vshell
  props C06
  reveal allBits
  requires forall(t(key), trig(has(A, t)), trig(has(B, t)), trig(has(C, t)), trig(has(D, t)), imp(near(k, t), iff(has(A, t) || has(B, t), has(C, t) || has(D, t))))
  ensures [same] allBits(A, B, k) == allBits(C, D, k)

# shifting
lemma shifted(A set[vshell.key], B set[vshell.key], x int, y int, z int) vshell
  props C06
  reveal allBits
  requires forall(t(key), trig(has(B, t)), iff(has(B, t), has(A, key{t.X - x, t.Y - y, t.Z - z})))
  ensures [same] forall(k(key), trig(allBits(B, emptyset(key), k)), allBits(B, emptyset(key), k) == allBits(A, emptyset(key), key{k.X - x, k.Y - y, k.Z - z}))

# one more voxel
lemma oneMore(A set[vshell.key], B set[vshell.key], n vshell.key) vshell
  props C06
  reveal allBits
  ensures [bit] forall(k(key), trig(allBits(A, store(B, n, true), k)), allBits(A, store(B, n, true), k) == allBits(A, B, k) | step(k, n))

# a voxel with all its neighbours has every one of them
lemma enclosed(A set[vshell.key], B set[vshell.key], k vshell.key, n vshell.key) vshell
  props C06
  reveal allBits
  requires allBits(A, B, k) == allNeighbors && near(k, n)
  ensures [has] has(A, n) || has(B, n)

lemma fewer(n int, A set[vshell.key], B set[vshell.key]) vshell
  props C06,C07
  requires n == card(A) && forall(t(key), trig(has(A, t)), imp(has(A, t), has(B, t)))
  induct n
  apply fewer(n - 1, store(A, member(A), false), store(B, member(A), false))
  ensures [fewer] n <= card(B)

# a voxel that is missing is missed by its neighbours
lemma exposed(A set[vshell.key], n vshell.key) vshell
  props C06
  use enclosed
  requires !has(A, n)
  ensures [seen] forall(t(key), trig(allBits(A, emptyset(key), t)), imp(near(t, n), allBits(A, emptyset(key), t) != allNeighbors))

# more voxels, more neighbours
lemma grows(A set[vshell.key], B set[vshell.key]) vshell
  props C06
  reveal allBits
  ensures [all] forall(k(key), trig(allBits(A, B, k)), imp(allBits(A, emptyset(key), k) == allNeighbors, allBits(A, B, k) == allNeighbors))

# joining
lemma joined(A set[vshell.key], B set[vshell.key], C set[vshell.key]) vshell
  props C06
  use sameNeighbours
  requires forall(t(key), trig(has(C, t)), iff(has(C, t), has(A, t) || has(B, t)))
  ensures [same] forall(k(key), trig(allBits(A, B, k)), trig(allBits(C, emptyset(key), k)), allBits(C, emptyset(key), k) == allBits(A, B, k))

# the shell v of the voxels U: the exposed ones, once each, with their neighbours
define shellOf(v, U) = shellBits(v, U, emptyset(key)) && shellOnce(v) && forall(t(key), trig(has(U, t)), imp(has(U, t) && allBits(U, emptyset(key), t) != allNeighbors, exists(i, trig(v.Voxels[i]), 0 <= i && i < len(v.Voxels) && vkey(v.Voxels[i]) == t)))
define shellBits(v, U, W) = forall(i, trig(v.Voxels[i]), imp(0 <= i && i < len(v.Voxels), has(U, vkey(v.Voxels[i])) && v.Voxels[i].N == allBits(U, W, vkey(v.Voxels[i])))) && forall(i, trig(v.Voxels[i]), imp(0 <= i && i < len(v.Voxels), v.Voxels[i].N != allNeighbors))
define shellOnce(v) = forall(i, j, trig(v.Voxels[i], v.Voxels[j]), imp(0 <= i && i < j && j < len(v.Voxels), vkey(v.Voxels[i]) != vkey(v.Voxels[j])))

# where a voxel is listed
ufun NI(vshell.key) int
ufun OI(vshell.key) int
ufun RI(int) int
define listedAt(t, n) = 0 <= n && n < len(vs.Voxels) && vkey(vs.Voxels[n]) == t
func vshell:(*VShell).Add #shell
  props C06
  ghost US set[key]
  # P: the voxels added before, after moving; CK: the old ones updated for the current new one; W: all
  ghost P set[key]
  ghost W set[key]
  ghost CK set[key] = emptyset(key)
  # VS: the new ones looked at so far
  ghost VS set[key] = emptyset(key)
  assumes [def.P] imp(READY, forall(k(key), trig(has(P, k)), iff(has(P, k), has(US, key{k.X - MX, k.Y - MY, k.Z - MZ}))))
  assumes [def.W] imp(READY, forall(k(key), trig(has(W, k)), iff(has(W, k), has(P, k) || has(FN, k))))
  # GOOD: it was the shell of US, and no voxel is added again
  ghost GOOD bool
  assumes [def.GOOD] iff(GOOD, READY && shellOf(vs, US) && forall(k(key), trig(has(P, k)), trig(has(FN, k)), !(has(P, k) && has(FN, k))))
  # OI(t): where t was listed
  assumes [def.OI] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), OI(key{vs.Voxels[i].X + MX, vs.Voxels[i].Y + MY, vs.Voxels[i].Z + MZ}) == i)))
  let L = len(vs.Voxels)
  on call findNeighbors(m, n, o): assume [def.NI] NI(n) == len(newShell)
  on call findNeighbors(m, n, o): set CK = emptyset(key)
  on call findNeighbors(m, n, o): apply exposed(P, n)
  on call findNeighbors(m, n, o): apply oneMore(P, VS, n)
  on call findNeighbors(m, n, o): set VS = store(VS, n, true)
  on call findNeighbors(m, n, o): apply grows(P, VS)
  on ret findNeighbors(m, n, o, r, l): assert [near < old exposed def.GOOD] imp(GOOD, forall(t(key), trig(has(P, t)), trig(has(old, t)), trig(has(lookup, t)), imp(near(n, t), iff(has(lookup, t) || has(old, t), has(P, t) || has(lookup, t)))))
  on ret findNeighbors(m, n, o, r, l): assert [updated < listed old all def.GOOD] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels) && near(vkey(vs.Voxels[i]), n), exists(j, trig(l[j]), 0 <= j && j < len(l) && l[j] == vkey(vs.Voxels[i])))))
  on ret findNeighbors(m, n, o, r, l): apply allSame(dom(m), dom(old), n)
  on ret findNeighbors(m, n, o, r, l): apply sameNeighbours(dom(lookup), dom(old), P, dom(lookup), n)
  on ret findNeighbors(m, n, o, r, l): assert [bits < near sameNeighbours allSame] imp(GOOD, r == allBits(P, dom(lookup), n))
  on call diffKeys(o, n): set CK = store(CK, o, true)
  apply grows(P, FN)
  apply shifted(US, P, MX, MY, MZ)
  loop 1: inv [moved] dx == DX && dy == DY && dz == DZ && movedBy(MX, MY, MZ)
  loop 1: inv [bits < moved def.P def.GOOD shifted bits] imp(GOOD, shellBits(vs, P, emptyset(key)))
  loop 1: inv [once < moved def.GOOD once] imp(GOOD, shellOnce(vs))
  loop 1: inv [all < moved def.GOOD def.P shifted all] imp(GOOD, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, emptyset(key), t) != allNeighbors, exists(i, trig(vs.Voxels[i]), 0 <= i && i < len(vs.Voxels) && vkey(vs.Voxels[i]) == t))))
  loop 1: inv [place < moved @all all def.OI def.GOOD place] imp(GOOD, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, emptyset(key), t) != allNeighbors, listedAt(t, OI(t)))))
  loop 1: inv [list] vs.Voxels == entry(vs.Voxels)
  loop 1: inv [lookup] forall(k(key), trig(has(lookup, k)), iff(has(lookup, k), visited(binvox.Key{k.X - dx, k.Y - dy, k.Z - dz})))
  loop 2: inv [list] vs.Voxels == entry(vs.Voxels)
  loop 2: inv [lookup] forall(k(key), trig(has(lookup, k)), iff(has(lookup, k), has(bv.WhiteVoxels, binvox.Key{k.X - dx, k.Y - dy, k.Z - dz}) || visited(binvox.Key{k.X - dx, k.Y - dy, k.Z - dz})))
  loop 3: inv [lookup] forall(k(key), trig(has(lookup, k)), trig(has(FN, k)), iff(has(lookup, k), has(FN, k)))
  loop 3: inv [where] forall(t(key), trig(has(old, t)), imp(has(old, t), exists(i, trig(vs.Voxels[i]), 0 <= i && i < it3 && old[t] == &vs.Voxels[i] && vkey(vs.Voxels[i]) == t)))
  loop 3: inv [new < lookup def.FN new] dom(lookup) == FN
  loop 3: inv [old < old bits] imp(GOOD, forall(t(key), trig(has(old, t)), imp(has(old, t), has(P, t))))
  loop 3: inv [listed] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < it3, has(old, vkey(vs.Voxels[i])) && old[vkey(vs.Voxels[i])] == &vs.Voxels[i])))
  loop 4: inv [visited] VS == visitedset()
  loop 4: inv [old] imp(GOOD, forall(t(key), trig(has(old, t)), imp(has(old, t), has(P, t))))
  loop 4: inv [place < place keys moved] len(vs.Voxels) == L && imp(GOOD, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, emptyset(key), t) != allNeighbors, listedAt(t, OI(t)))))
  loop 4: inv [few < few only] forall(t(key), trig(has(toRemove, t)), imp(has(toRemove, t), has(old, t)))
  loop 4: inv [exposed < exposed listed place keys] imp(GOOD, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, emptyset(key), t) != allNeighbors, has(old, t))))
  loop 4: inv [listed < listed keys] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), has(old, vkey(vs.Voxels[i])) && old[vkey(vs.Voxels[i])] == &vs.Voxels[i])))
  loop 4: inv [seen < seen] forall(j, trig(newShell[j]), imp(0 <= j && j < len(newShell), visited(vkey(newShell[j]))))
  loop 4: inv [keys < keys] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vkey(vs.Voxels[i]) == entry(vkey(vs.Voxels[i]))))
  loop 4: inv [bits < bits oneMore updated done keys def.GOOD] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].N == allBits(P, visitedset(), vkey(vs.Voxels[i])))))
  loop 4: inv [full < full bits] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), iff(has(toRemove, vkey(vs.Voxels[i])), vs.Voxels[i].N == allNeighbors))))
  loop 4: inv [new < new bits] imp(GOOD, forall(j, trig(newShell[j]), imp(0 <= j && j < len(newShell), newShell[j].N == allBits(P, dom(lookup), vkey(newShell[j])) && newShell[j].N != allNeighbors)))
  loop 4: inv [once < once seen] forall(i, j, trig(newShell[i], newShell[j]), imp(0 <= i && i < j && j < len(newShell), vkey(newShell[i]) != vkey(newShell[j])))
  loop 4: inv [all < all] imp(GOOD, forall(t(key), trig(NI(t)), trig(visited(t)), imp(visited(t) && allBits(P, dom(lookup), t) != allNeighbors, 0 <= NI(t) && NI(t) < len(newShell) && vkey(newShell[NI(t)]) == t)))
  loop 5: inv [few < few only] forall(t(key), trig(has(toRemove, t)), imp(has(toRemove, t), has(old, t)))
  loop 5: inv [keys < keys] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vkey(vs.Voxels[i]) == entry(vkey(vs.Voxels[i]))))
  loop 5: inv [done < done] forall(j, trig(toCheck[j]), imp(0 <= j && j < it5, has(CK, toCheck[j])))
  loop 5: inv [bits < bits listed where keys only] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].N == ite(has(CK, vkey(vs.Voxels[i])), entry(vs.Voxels[i].N) | step(vkey(vs.Voxels[i]), k), entry(vs.Voxels[i].N)))))
  loop 5: inv [full < full listed where keys] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), iff(has(toRemove, vkey(vs.Voxels[i])), vs.Voxels[i].N == allNeighbors))))
  loop 6: inv [range] it6 <= len(vs.Voxels)
  loop 6: inv [same < same] forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i] == entry(vs.Voxels[i])))
  # the list before anything is removed
  loop 6: inv [in < in same listed old seen def.W] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), has(W, vkey(vs.Voxels[i])))))
  loop 6: inv [bits < bits new same] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].N == allBits(P, FN, vkey(vs.Voxels[i])))))
  loop 6: inv [full < full few old new seen def.GOOD same] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), iff(has(toRemove, vkey(vs.Voxels[i])), vs.Voxels[i].N == allNeighbors))))
  loop 6: inv [once < once keys listed old seen def.GOOD same] imp(GOOD, shellOnce(vs))
  loop 6: inv [allold < allold place grows same] imp(GOOD, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, OI(t)))))
  loop 6: inv [allnew < allnew all same] imp(GOOD, forall(t(key), trig(has(FN, t)), imp(has(FN, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, L + NI(t)))))
  # and what is kept of it
  loop 6: inv [newin < newin in same] imp(GOOD, forall(j, trig(newVoxels[j]), imp(0 <= j && j < len(newVoxels), has(W, vkey(newVoxels[j])))))
  loop 6: inv [newbits < newbits bits full same] imp(GOOD, forall(j, trig(newVoxels[j]), imp(0 <= j && j < len(newVoxels), newVoxels[j].N == allBits(P, FN, vkey(newVoxels[j])) && newVoxels[j].N != allNeighbors)))
  loop 6: inv [later < later once same] imp(GOOD, forall(j, i, trig(newVoxels[j], vs.Voxels[i]), imp(0 <= j && j < len(newVoxels) && it6 <= i && i < len(vs.Voxels), vkey(newVoxels[j]) != vkey(vs.Voxels[i]))))
  loop 6: inv [newonce < newonce later same] imp(GOOD, forall(i, j, trig(newVoxels[i], newVoxels[j]), imp(0 <= i && i < j && j < len(newVoxels), vkey(newVoxels[i]) != vkey(newVoxels[j]))))
  loop 6: assume [def.RI] RI(it6) == len(newVoxels)
  loop 6: inv [kept < kept full same] imp(GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < it6 && vs.Voxels[i].N != allNeighbors, 0 <= RI(i) && RI(i) < len(newVoxels) && vkey(newVoxels[RI(i)]) == vkey(vs.Voxels[i]))))
  # joining the two sets of voxels keeps the bits
  on return end(): assert [in < in newin listed old seen def.W] imp(err == nil && GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), has(W, vkey(vs.Voxels[i])))))
  on return end(): assert [bits < bits newbits new] imp(err == nil && GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].N == allBits(P, FN, vkey(vs.Voxels[i])))))
  on return end(): assert [open < newbits full new bits] imp(err == nil && GOOD, forall(i, trig(vs.Voxels[i]), imp(0 <= i && i < len(vs.Voxels), vs.Voxels[i].N != allNeighbors)))
  on return end(): assert [allold < place grows] imp(err == nil && GOOD, len(toRemove) > 0 || forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, OI(t)))))
  on return end(): assert [allnew < all] imp(err == nil && GOOD, len(toRemove) > 0 || forall(t(key), trig(has(FN, t)), imp(has(FN, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, L + NI(t)))))
  on return end(): assert [remold < allold kept bits] imp(err == nil && GOOD && len(toRemove) > 0, forall(t(key), trig(has(P, t)), imp(has(P, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, RI(OI(t))))))
  on return end(): assert [remnew < allnew kept bits] imp(err == nil && GOOD && len(toRemove) > 0, forall(t(key), trig(has(FN, t)), imp(has(FN, t) && allBits(P, FN, t) != allNeighbors, listedAt(t, RI(L + NI(t))))))
  on return end(): assert [all < allold allnew remold remnew] imp(err == nil && GOOD, forall(t(key), trig(has(P, t)), trig(has(FN, t)), imp((has(P, t) || has(FN, t)) && allBits(P, FN, t) != allNeighbors, exists(i, trig(vs.Voxels[i]), 0 <= i && i < len(vs.Voxels) && vkey(vs.Voxels[i]) == t))))
  on return end(): apply joined(P, FN, W)
  on return end(): set US = ite(err == nil, W, US)
  ensures [list < in bits open joined def.W] imp(err == nil && GOOD, shellBits(vs, US, emptyset(key)))
  ensures [once < once newonce keys listed old seen def.GOOD] imp(err == nil && GOOD, shellOnce(vs))
  ensures [all < all joined def.W] imp(err == nil && GOOD, forall(t(key), trig(has(US, t)), imp(has(US, t) && allBits(US, emptyset(key), t) != allNeighbors, exists(i, trig(vs.Voxels[i]), 0 <= i && i < len(vs.Voxels) && vkey(vs.Voxels[i]) == t))))
  ensures [union] imp(err == nil && READY, forall(k(key), trig(has(US, k)), iff(has(US, k), has(old(US), key{k.X - MX, k.Y - MY, k.Z - MZ}) || inModel(bv, binvox.Key{k.X - DX, k.Y - DY, k.Z - DZ}))))

func vshell:New
  props C06,C07
  requires bv != nil && shellDim(bv) > 0
  ghost US set[key] = emptyset(key)
  ensures [made] result1 == nil
  ensures [own] result0 != nil && fresh(result0)
  ensures [origin] result0.TX == bv.TX && result0.TY == bv.TY && result0.TZ == bv.TZ
  ensures [resolution] shellV(result0) == bv.VoxelsPerMM()
  ensures [dims] covered(result0)
  ensures [voxels] forall(k(key), trig(has(US, k)), iff(has(US, k), inModel(bv, binvox.Key{k.X, k.Y, k.Z})))
  ensures [list] shellBits(result0, US, emptyset(key))
  ensures [once] shellOnce(result0)
  ensures [all] forall(t(key), trig(has(US, t)), imp(has(US, t) && allBits(US, emptyset(key), t) != allNeighbors, exists(i, trig(result0.Voxels[i]), 0 <= i && i < len(result0.Voxels) && vkey(result0.Voxels[i]) == t)))
