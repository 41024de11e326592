# C13: rasterising one segment of a layer

# the lists of two different keys never share memory
define listsApart(s) = forall(a(Key), b(Key), trig(s[a], s[b]), imp(a != b && cap(s[a]) > 0, blk(s[a]) != blk(s[b])))
define listed(s, k, t) = exists(i, trig(s[k][i]), 0 <= i && i < len(s[k]) && s[k][i] == t)

func binvox:(setMap).addTri
  props C13
  requires s != nil && listsApart(s)
  modifies contents(s), elems(s[k])
  loop 1: inv [range] it1 <= len(s[k])
  loop 1: inv [none] forall(i, trig(s[k][i]), imp(0 <= i && i < it1, s[k][i] != tri))
  ensures [listed] listed(s, k, tri)
  ensures [once] len(s[k]) == old(len(s[k])) + ite(old(listed(s, k, tri)), 0, 1)
  ensures [keep] forall(i, trig(s[k][i]), imp(0 <= i && i < old(len(s[k])), s[k][i] == old(s[k][i])))
  ensures [others] forall(a(Key), trig(s[a]), imp(a != k, s[a] == old(s[a]) && has(s, a) == old(has(s, a))))
  ensures [elements] forall(a(Key), i, trig(s[a][i]), imp(a != k && 0 <= i && i < len(s[a]), s[a][i] == old(s[a][i])))
  ensures [others2] forall(a(Key), trig(old(s[a])), imp(a != k, s[a] == old(s[a]) && has(s, a) == old(has(s, a))))
  ensures [elements2] forall(a(Key), i, trig(old(s[a][i])), imp(a != k && 0 <= i && i < len(s[a]), s[a][i] == old(s[a][i])))
  ensures [keep2] forall(i, trig(old(s[k][i])), imp(0 <= i && i < old(len(s[k])), s[k][i] == old(s[k][i])))
  ensures [apart] listsApart(s)
  ensures [owner] blk(s[k]) == old(blk(s[k])) || fresh(s[k])
  ensures [added] forall(i, trig(s[k][i]), imp(0 <= i && i < len(s[k]), s[k][i] == tri || i < old(len(s[k]))))

# the extents of two different rows are different objects
define rowsApart(x) = forall(a, trig(x[a]), imp(has(x, a), x[a] != nil)) && forall(a, b, trig(x[a], x[b]), imp(a != b && has(x, a) && has(x, b), x[a] != x[b]))

func binvox:(xMinMaxMap).update
  props C13
  requires x != nil && rowsApart(x)
  modifies contents(x), x[yi].min, x[yi].max
  ensures [row] has(x, yi)
  ensures [new] imp(!old(has(x, yi)), x[yi].min == xi && x[yi].max == xi)
  ensures [widen] imp(old(has(x, yi)), x[yi] == old(x[yi]) && x[yi].min == min(old(x[yi].min), xi) && x[yi].max == max(old(x[yi].max), xi))
  ensures [rows] forall(a, trig(x[a]), imp(a != yi, has(x, a) == old(has(x, a)) && x[a] == old(x[a])))
  ensures [others] forall(a, trig(x[a]), imp(a != yi && has(x, a), x[a].min == old(x[a].min) && x[a].max == old(x[a].max)))
  ensures [apart] rowsApart(x)
  ensures [owner] x[yi] == old(x[yi]) && old(has(x, yi)) || fresh(x[yi])

define offX(px) = ite(X2 >= X1, px - X1, X1 - px)
define offY(py) = ite(Y2 >= Y1, py - Y1, Y1 - py)
define majOff(px, py) = ite(STEEP, offY(py), offX(px))
define minOff(px, py) = ite(STEEP, offX(px), offY(py))
# every marked voxel of a row of the region lists the triangle and lies within its row's extent
define recorded(p) = forall(k(Key), trig(has(p, k)), imp(has(p, k) && 0 <= k.Y && k.Y < b.NY, listed(set, k, pair.tri) && has(xMinMax, k.Y) && xMinMax[k.Y].min <= k.X && k.X <= xMinMax[k.Y].max))
# no other voxel and no triangle that was listed before is touched
define sameLists(p) = forall(k(Key), trig(set[k]), imp(!(has(p, k) && 0 <= k.Y && k.Y < b.NY), set[k] == old(set[k]) && has(set, k) == old(has(set, k)))) && forall(k(Key), trig(old(set[k])), imp(!(has(p, k) && 0 <= k.Y && k.Y < b.NY), set[k] == old(set[k])))
define keptTris() = forall(k(Key), trig(set[k]), old(len(set[k])) <= len(set[k])) && forall(k(Key), i, trig(set[k][i]), imp(0 <= i && i < old(len(set[k])), set[k][i] == old(set[k][i]))) && forall(k(Key), i, trig(old(set[k][i])), imp(0 <= i && i < old(len(set[k])), set[k][i] == old(set[k][i])))
# the extents grow to exactly what was marked
define rowsExact(p) = forall(a, trig(has(xMinMax, a)), imp(old(has(xMinMax, a)), has(xMinMax, a) && xMinMax[a] == old(xMinMax[a]) && xMinMax[a].min <= old(xMinMax[a].min) && xMinMax[a].max >= old(xMinMax[a].max))) && forall(a, trig(has(xMinMax, a)), imp(has(xMinMax, a), (old(has(xMinMax, a)) && xMinMax[a].min == old(xMinMax[a].min)) || (has(p, Key{xMinMax[a].min, a, zi}) && 0 <= a && a < b.NY))) && forall(a, trig(has(xMinMax, a)), imp(has(xMinMax, a), (old(has(xMinMax, a)) && xMinMax[a].max == old(xMinMax[a].max)) || (has(p, Key{xMinMax[a].max, a, zi}) && 0 <= a && a < b.NY)))

# no list holds a nil triangle
define noNil(s) = forall(k(Key), i, trig(s[k][i]), imp(0 <= i && i < len(s[k]), s[k][i] != nil))

# the lists and extents are those of before or new ones, and no other memory is written
define owned() = forall(k(Key), trig(set[k]), blk(set[k]) == old(blk(set[k])) || fresh(set[k])) && forall(a, trig(xMinMax[a]), imp(has(xMinMax, a), old(has(xMinMax, a)) && xMinMax[a] == old(xMinMax[a]) || fresh(xMinMax[a])))
define onlyOwned() = heapkept(*gl.Triangle, r, forall(k(Key), trig(old(set[k])), old(blk(set[k])) != r)) && heapkept(minMax, r, forall(a, trig(old(xMinMax[a])), imp(old(has(xMinMax, a)), old(blk(xMinMax[a])) != r)))

func binvox:(*BinVOX).rasterizeShellPair
  props C13
  requires pair.tri != nil && noNil(set)
  requires b != nil && pair != nil && set != nil && xMinMax != nil
  requires listsApart(set) && rowsApart(xMinMax)
  let X1 = floor(vpmm * (pair.v1.X - b.TX))
  let X2 = floor(vpmm * (pair.v2.X - b.TX))
  let Y1 = floor(vpmm * (pair.v1.Y - b.TY))
  let Y2 = floor(vpmm * (pair.v2.Y - b.TY))
  let STEEP = abs(Y2 - Y1) > abs(X2 - X1)
  let MAJ = ite(STEEP, abs(Y2 - Y1), abs(X2 - X1))
  let MIN = ite(STEEP, abs(X2 - X1), abs(Y2 - Y1))
  inline firstOctantBressenham
  loop 1: writes heap(minMax), heap(*gl.Triangle)
  loop 1: inv [apart] listsApart(set) && rowsApart(xMinMax)
  loop 1: inv [inside] forall(a, trig(has(xMinMax, a)), imp(has(xMinMax, a) && !old(has(xMinMax, a)), 0 <= a && a < b.NY))
  modifies contents(set), contents(xMinMax), heap(minMax), heap(*gl.Triangle)
  ensures [apart] listsApart(set) && rowsApart(xMinMax)
  ensures [inside] forall(a, trig(has(xMinMax, a)), imp(has(xMinMax, a) && !old(has(xMinMax, a)), 0 <= a && a < b.NY))

func binvox:(*BinVOX).rasterizeShellPair #owned
  props C13
  loop 1: inv [owned] owned()
  loop 1: inv [frame] onlyOwned()
  ensures [owned] owned()
  ensures [frame] onlyOwned()

func binvox:(*BinVOX).rasterizeShellPair #nonil
  props C13
  loop 1: inv [nonil] noNil(set)
  ensures [nonil] noNil(set)

# in the views below P is the set of voxels marked so far
func binvox:(*BinVOX).rasterizeShellPair #recorded
  props C13
  ghost P set[Key] = emptyset(Key)
  on call rasterizeShellPair$1(px, py): set P = store(P, Key{px, py, zi}, true)
  loop 1: inv [recorded] recorded(P)
  ensures [recorded] recorded(P)

func binvox:(*BinVOX).rasterizeShellPair #lists
  props C13
  ghost P set[Key] = emptyset(Key)
  on call rasterizeShellPair$1(px, py): set P = store(P, Key{px, py, zi}, true)
  loop 1: inv [untouched] sameLists(P)
  loop 1: inv [kept] keptTris()
  ensures [untouched] sameLists(P)
  ensures [kept] keptTris()

func binvox:(*BinVOX).rasterizeShellPair #rows
  props C13
  ghost P set[Key] = emptyset(Key)
  on call rasterizeShellPair$1(px, py): set P = store(P, Key{px, py, zi}, true)
  loop 1: inv [rows] rowsExact(P)
  ensures [rows] rowsExact(P)

# the voxels marked are a connected path of the right length that never strays more than half a voxel
func binvox:(*BinVOX).rasterizeShellPair #path
  props C13
  # K: voxels marked so far, PX, PY: the last one
  ghost K int = 0
  ghost PX int = 0
  ghost PY int = 0
  on call rasterizeShellPair$1(px, py): assert [column] majOff(px, py) == K
  on call rasterizeShellPair$1(px, py): assert [halfvoxel] 2 * (MIN * K - MAJ * minOff(px, py)) <= MAJ && 2 * (MAJ * minOff(px, py) - MIN * K) <= MAJ
  on call rasterizeShellPair$1(px, py): assert [first] imp(K == 0, px == X1 && py == Y1)
  on call rasterizeShellPair$1(px, py): assert [last] imp(K == MAJ, px == X2 && py == Y2)
  on call rasterizeShellPair$1(px, py): assert [adjacent] imp(K > 0, abs(px - PX) <= 1 && abs(py - PY) <= 1)
  on call rasterizeShellPair$1(px, py): set K = K + 1
  on call rasterizeShellPair$1(px, py): set PX = px
  on call rasterizeShellPair$1(px, py): set PY = py
  loop 1: inv [dims] dx == MAJ && dy == MIN && 0 <= MIN && MIN <= MAJ
  loop 1: inv [count] K == it1 && it1 <= MAJ + 1 && x == x1i + it1
  loop 1: inv [eps] eps == MIN * it1 - MAJ * (y - y1i)
  loop 1: inv [half] imp(MAJ > 0, 0 - MAJ <= 2 * eps && 2 * eps < MAJ)
  loop 1: inv [start] imp(it1 == 0, y == y1i)
  loop 1: inv [last] imp(it1 > 0, majOff(PX, PY) == it1 - 1 && 0 <= (y - y1i) - minOff(PX, PY) && (y - y1i) - minOff(PX, PY) <= 1)
  ensures [number] K == MAJ + 1
