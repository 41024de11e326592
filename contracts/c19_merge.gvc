# C19: merging STL files

# what loading the j-th file gave: whether it failed, its triangles
ufun BADF(int) bool
ufun TCNT(int) int
ufun SRC(int, int) *gl.Triangle

func stl:Merge
  props C19
  requires numWorkers >= 1
  inline merge (*Mesh).Add
  guard mesh by mu
  guard mergeErr by mu
  # S: tokens sent, LOADS: files whose loading was started, REL: those that gave their token back
  ghost S int = 0
  ghost LOADS set[int] = emptyset(int)
  ghost REL set[int] = emptyset(int)
  # K: how many files were merged, ORD: in which order, OFF: where the triangles of each start, POS: its place in the order
  ghost K int = 0
  ghost ORD arr[int]int
  ghost OFF arr[int]int
  ghost WHO int = 0
  ghost BAD bool = false
  ghost NEW bool = false
  ghost POS arr[int]int
  ghost OKS set[int] = emptyset(int)
  ghost ERRS set[int] = emptyset(int)
  shared mu: writes variable(mesh), variable(mergeErr), heap(gl.Mesh), heap(*gl.Triangle), heap(*gl.Line)
  shared mu: ghosts K, ORD, OFF, WHO
  shared mu: slots POS, OKS, ERRS by it1
  shared mu: foreign mesh, mesh.Triangles, mesh.Lines
  shared mu: inv [none] 0 <= K && iff(K == 0, mesh == nil)
  shared mu: inv [new] imp(mesh != nil, fresh(mesh))
  shared mu: inv [newtris] imp(mesh != nil, blk(mesh.Triangles) == 0 || fresh(mesh.Triangles))
  shared mu: inv [newlines] imp(mesh != nil, blk(mesh.Lines) == 0 || fresh(mesh.Lines))
  shared mu: inv [kept] heapkept(*gl.Triangle, r, true) && heapkept(gl.Mesh, r, true) && heapkept(*gl.Line, r, true)
  shared mu: inv [failed] forall(j, trig(has(ERRS, j)), imp(has(ERRS, j), mergeErr != nil && BADF(j)))
  shared mu: inv [who] imp(mergeErr != nil, has(ERRS, WHO))
  shared mu: inv [order] forall(k, trig(ORD[k]), imp(0 <= k && k < K, has(OKS, ORD[k]) && POS[ORD[k]] == k))
  shared mu: inv [places] forall(j, trig(has(OKS, j)), imp(has(OKS, j), 0 <= POS[j] && POS[j] < K && ORD[POS[j]] == j && !BADF(j)))
  shared mu: inv [starts] imp(mesh != nil, OFF[0] == 0 && OFF[K] == len(mesh.Triangles)) && forall(k, trig(ORD[k]), imp(0 <= k && k < K, OFF[k + 1] == OFF[k] + TCNT(ORD[k])))
  shared mu: inv [below] forall(k, trig(ORD[k]), imp(0 <= k && k < K, 0 <= OFF[k] && 0 <= TCNT(ORD[k]) && OFF[k] + TCNT(ORD[k]) <= len(mesh.Triangles)))
  shared mu: inv [triangles] forall(k, i, trig(SRC(ORD[k], i)), imp(0 <= k && k < K && 0 <= i && i < TCNT(ORD[k]), mesh.Triangles[OFF[k] + i] == SRC(ORD[k], i)))
  on send token(v): assert [workers] cap(ch) == numWorkers
  on send token(v): set S = S + 1
  on call LoadSTL(p): assert [file] p == files[it1] && !has(LOADS, it1)
  on call LoadSTL(p): assert [limit] S == it1 + 1 && !has(REL, it1)
  on call LoadSTL(p): set LOADS = store(LOADS, it1, true)
  on ret LoadSTL(p, m, e): assume [def] iff(BADF(it1), e != nil) && imp(e == nil, TCNT(it1) == len(m.Triangles) && forall(i, trig(SRC(it1, i)), imp(0 <= i && i < len(m.Triangles), SRC(it1, i) == m.Triangles[i])))
  on ret LoadSTL(p, m, e): set BAD = e != nil
  # what the goroutine does under the lock: merging its file or recording its failure
  on unlock mu(): set NEW = !has(OKS, it1) && !has(ERRS, it1)
  on unlock mu(): set OKS = ite(NEW, store(OKS, it1, !BAD), OKS)
  on unlock mu(): set ERRS = ite(NEW, store(ERRS, it1, BAD), ERRS)
  on unlock mu(): set WHO = ite(NEW && BAD, it1, WHO)
  on unlock mu(): set ORD = ite(NEW && !BAD, store(ORD, K, it1), ORD)
  on unlock mu(): set POS = ite(NEW && !BAD, store(POS, it1, K), POS)
  on unlock mu(): set OFF = ite(NEW && !BAD, store(store(OFF, 0, 0), K + 1, ite(K == 0, 0, OFF[K]) + TCNT(it1)), OFF)
  on unlock mu(): set K = ite(NEW && !BAD, K + 1, K)
  on recv token(v): assert [once] !has(REL, it1)
  on recv token(v): set REL = store(REL, it1, true)
  loop 1: writes heap(gl.Mesh), heap(*gl.Triangle), heap(*gl.Line)
  loop 1: inv [range] it1 <= len(files)
  loop 1: inv [tokens] S == it1 && forall(j, trig(has(threads, j)), imp(has(threads, j), 0 <= j && j < it1))
  loop 1: inv [each] forall(j, trig(has(LOADS, j)), trig(has(REL, j)), iff(has(LOADS, j), 0 <= j && j < it1) && iff(has(REL, j), 0 <= j && j < it1))
  loop 1: inv [outcome] forall(j, trig(has(OKS, j)), trig(has(ERRS, j)), trig(BADF(j)), trig(POS[j]), iff(has(OKS, j), 0 <= j && j < it1 && !BADF(j)) && iff(has(ERRS, j), 0 <= j && j < it1 && BADF(j)))
  ensures [all] forall(j, trig(has(OKS, j)), trig(has(ERRS, j)), trig(BADF(j)), trig(POS[j]), imp(0 <= j && j < len(files), iff(has(OKS, j), !BADF(j)) && iff(has(ERRS, j), BADF(j))))
  ensures [reported] forall(j, trig(BADF(j)), imp(0 <= j && j < len(files) && BADF(j), err != nil))
  ensures [cause] imp(err != nil, 0 <= WHO && WHO < len(files) && BADF(WHO))
  ensures [nomesh] imp(err != nil, mesh == nil)
  ensures [order] imp(err == nil, forall(k, trig(ORD[k]), imp(0 <= k && k < K, 0 <= ORD[k] && ORD[k] < len(files) && POS[ORD[k]] == k)))
  ensures [places] imp(err == nil, forall(j, trig(POS[j]), imp(0 <= j && j < len(files), 0 <= POS[j] && POS[j] < K && ORD[POS[j]] == j)))
  ensures [tiled] imp(err == nil && mesh != nil, OFF[0] == 0 && OFF[K] == len(mesh.Triangles) && forall(k, trig(ORD[k]), imp(0 <= k && k < K, OFF[k + 1] == OFF[k] + TCNT(ORD[k]))))
  ensures [triangles] imp(err == nil && mesh != nil, forall(k, i, trig(SRC(ORD[k], i)), imp(0 <= k && k < K && 0 <= i && i < TCNT(ORD[k]), mesh.Triangles[OFF[k] + i] == SRC(ORD[k], i))))
  ensures [nofiles] imp(err == nil, iff(mesh == nil, len(files) == 0))
