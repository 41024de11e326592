# C14: filling the rows of one layer

# SEEN(y, x, i): the triangles counted before the i-th triangle of voxel x of row y
ufun SEEN(int, int, int) set[*gl.Triangle]
# IN, OUT: how many of the first i triangles of the voxel are counted as entering and as leaving
ufun IN(int, int, int) int
ufun OUT(int, int, int) int
# INS(y, x): the solid was entered to the left of voxel x and not left since
ufun INS(int, int) bool

define at(x, y) = Key{x, y, zi}
define inRow(x, y) = has(xMinMax, y) && xMinMax[y].min <= x && x <= xMinMax[y].max
define want(k) = k.Z == zi && inRow(k.X, k.Y) && 0 <= k.X && k.X < b.NX && (len(set[k]) > 0 || INS(k.Y, k.X))
define tri(x, y, i) = set[Key{x, y, zi}][i]

func binvox:(*BinVOX).floodFill
  props C14, C12
  requires b != nil && set != nil
  requires forall(y, trig(xMinMax[y]), imp(has(xMinMax, y), xMinMax[y] != nil))
  requires forall(k(Key), i, trig(set[k][i]), imp(0 <= i && i < len(set[k]), set[k][i] != nil))
  assumes [def] forall(y, trig(xMinMax[y]), SEEN(y, xMinMax[y].min, 0) == emptyset(*gl.Triangle) && INS(y, xMinMax[y].min) == false)
  assumes [def] forall(x, y, i, trig(SEEN(y, x, i + 1)), imp(inRow(x, y) && 0 <= i && i < len(set[at(x, y)]), SEEN(y, x, i + 1) == store(SEEN(y, x, i), tri(x, y, i), true)))
  assumes [def] forall(x, y, trig(SEEN(y, x + 1, 0)), imp(inRow(x, y), SEEN(y, x + 1, 0) == SEEN(y, x, len(set[at(x, y)]))))
  assumes [def] forall(x, y, trig(IN(y, x, 0)), IN(y, x, 0) == 0) && forall(x, y, trig(OUT(y, x, 0)), OUT(y, x, 0) == 0)
  assumes [def] forall(x, y, i, trig(IN(y, x, i + 1)), imp(inRow(x, y) && 0 <= i && i < len(set[at(x, y)]), IN(y, x, i + 1) == IN(y, x, i) + ite(!has(SEEN(y, x, i), tri(x, y, i)) && tri(x, y, i).V1.Normal.X < 0 - epsilon, 1, 0)))
  assumes [def] forall(x, y, i, trig(OUT(y, x, i + 1)), imp(inRow(x, y) && 0 <= i && i < len(set[at(x, y)]), OUT(y, x, i + 1) == OUT(y, x, i) + ite(!has(SEEN(y, x, i), tri(x, y, i)) && tri(x, y, i).V1.Normal.X > epsilon, 1, 0)))
  assumes [def] forall(x, y, trig(INS(y, x + 1)), imp(inRow(x, y), INS(y, x + 1) == (IN(y, x, len(set[at(x, y)])) > OUT(y, x, len(set[at(x, y)])) || IN(y, x, len(set[at(x, y)])) == OUT(y, x, len(set[at(x, y)])) && INS(y, x))))
  # V: the voxels set
  ghost V set[Key] = emptyset(Key)
  callback setVoxelFunc (k) ()
  on call setVoxelFunc(k): assert [region] 0 <= k.X && k.X < b.NX && k.Z == zi && has(xMinMax, k.Y)
  on call setVoxelFunc(k): set V = store(V, k, true)
  loop 1: inv [rows] forall(k(Key), trig(has(V, k)), iff(has(V, k), visited(k.Y) && want(k)))
  loop 2: inv [range] min <= xi
  loop 2: inv [seen] imp(xi <= max + 1, dom(seenTris) == SEEN(yi, xi, 0))
  loop 2: inv [inside] imp(xi <= max + 1, inside == INS(yi, xi))
  loop 2: inv [row] forall(k(Key), trig(has(V, k)), iff(has(V, k), want(k) && (k.Y != yi && visited(k.Y) || k.Y == yi && k.X < xi)))
  loop 3: inv [range] it3 <= len(set[k])
  loop 3: inv [seen] dom(seenTris) == SEEN(yi, xi, it3)
  loop 3: inv [counts] inCount == IN(yi, xi, it3) && outCount == OUT(yi, xi, it3)
  ensures [exact] forall(k(Key), trig(has(V, k)), iff(has(V, k), want(k)))
