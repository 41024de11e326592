# C01: reading the run data of a model

# the bytes after the header: D(p) is byte p, there are DLEN of them, rpos have been read
ufun D(int) int
ufun DLEN() int
ghostvar rpos int
# NUM(s), REAL(s): the number written as s
ufun NUM(string) int
ufun REAL(string) float64

extern bufio.NewReader (r) (b)
  ensures b != nil && fresh(b)
extern (*bufio.Reader).ReadString (b, delim) (s, err)
extern (*regexp.Regexp).FindStringSubmatch (re, s) (r)
  ensures fresh(r)
extern strconv.Atoi (s) (n, err)
  ensures imp(err == nil, n == NUM(s))
extern strconv.ParseFloat (s, bits) (v, err)
  ensures imp(err == nil && bits == 64, v == REAL(s))
extern (*bufio.Reader).ReadByte (b) (c, err)
  modifies rpos
  ensures imp(err == nil, old(rpos) < DLEN() && c == D(old(rpos)) && rpos == old(rpos) + 1)
  ensures imp(err != nil, rpos == old(rpos))
  ensures imp(err == io.EOF, old(rpos) >= DLEN())

define upto(n, c) = ite(c == 0 || c > n, n, c)
# cell (x, y, z) is written before the cursor
define before(x, y, z, i, j, k) = x < i || (x == i && (z < k || (z == k && y < j)))
define window(x, y, z) = sx <= x && x < sx + upto(NX, cx) && sy <= y && y < sy + upto(NY, cy) && sz <= z && z < sz + upto(NZ, cz)
define ingrid(x, y, z) = 0 <= x && x < NX && 0 <= y && y < NY && 0 <= z && z < NZ

func binvox:read
  props C01, C03
  requires r != nil
  # LINES: lines read; LINE: the last one; PARTS: its parts; NUMS, REALS: numbers parsed
  ghost LINES int = 0
  ghost LINE string = ""
  ghost PARTS []string = nil
  ghost NUMS int = 0
  ghost REALS int = 0
  ghost NX int = 0
  ghost NY int = 0
  ghost NZ int = 0
  ghost TX float64 = 0
  ghost TY float64 = 0
  ghost TZ float64 = 0
  ghost SC float64 = 0
  # BADHEAD, BADRUN, BROKEN: the header is malformed, a run is, the file cannot be read
  ghost BADHEAD bool = false
  ghost BADRUN bool = false
  ghost BROKEN bool = false
  # PEND: a value V was read and its count is still to come; C: cells described so far
  ghost rpos int = 0
  ghost PEND bool = false
  ghost V int = 0
  ghost C int = 0
  ghost EX int = 0
  ghost EY int = 0
  ghost EZ int = 0
  on ret ReadString(b, d, s, err): set BADHEAD = BADHEAD || err != nil || (LINES == 0 && s != "#binvox 1\n") || (LINES == 4 && s != "data\n")
  on ret ReadString(b, d, s, err): set LINE = s
  on ret ReadString(b, d, s, err): set LINES = LINES + 1
  on ret ReadString(b, d, s, err): assume [def.PX] imp(LINES == 5, PX(0) == 0 && forall(x, trig(PX(x + 1)), PX(x + 1) == PZ(x, NZ)))
  on ret ReadString(b, d, s, err): assume [def.PZ] imp(LINES == 5, forall(x, trig(PZ(x, 0)), PZ(x, 0) == PX(x)) && forall(x, z, trig(PZ(x, z + 1)), PZ(x, z + 1) == PZ(x, z) + NY))
  on call FindStringSubmatch(re, s): assert [line] s == LINE && 2 <= LINES && LINES <= 4 && re == ite(LINES == 2, dimRE, ite(LINES == 3, translateRE, scaleRE))
  on ret FindStringSubmatch(re, s, p): set BADHEAD = BADHEAD || len(p) != ite(LINES == 4, 2, 4)
  on ret FindStringSubmatch(re, s, p): set PARTS = p
  on call Atoi(s): assert [dim] LINES == 2 && NUMS < 3 && s == PARTS[NUMS + 1]
  on ret Atoi(s, n, err): set NX = ite(NUMS == 0, n, NX)
  on ret Atoi(s, n, err): set NY = ite(NUMS == 1, n, NY)
  on ret Atoi(s, n, err): set NZ = ite(NUMS == 2, n, NZ)
  on ret Atoi(s, n, err): set NUMS = NUMS + 1
  on ret Atoi(s, n, err): set BADHEAD = BADHEAD || err != nil
  on call ParseFloat(s, bits): assert [placement] bits == 64 && LINES == ite(REALS < 3, 3, 4) && REALS < 4 && s == PARTS[ite(REALS < 3, REALS + 1, 1)]
  on ret ParseFloat(s, bits, v, err): set TX = ite(REALS == 0, v, TX)
  on ret ParseFloat(s, bits, v, err): set TY = ite(REALS == 1, v, TY)
  on ret ParseFloat(s, bits, v, err): set TZ = ite(REALS == 2, v, TZ)
  on ret ParseFloat(s, bits, v, err): set SC = ite(REALS == 3, v, SC)
  on ret ParseFloat(s, bits, v, err): set REALS = REALS + 1
  on ret ParseFloat(s, bits, v, err): set BADHEAD = BADHEAD || err != nil
  # positions count y fastest, then z, then x; W(p) is the value of cell p
  on ret ReadByte(b, c, err): assert [head] LINES == 5 && NUMS == 3 && REALS == 4
  on ret ReadByte(b, c, err): assume [def.W] imp(PEND && err == nil, forall(p, trig(W(p)), imp(C <= p && p < C + c, W(p) == V)))
  on ret ReadByte(b, c, err): set BROKEN = BROKEN || (err != nil && err != io.EOF)
  on ret ReadByte(b, c, err): set BADRUN = BADRUN || ite(PEND, err != nil || c == 0, err == nil && c != 0 && c != 1)
  on ret ReadByte(b, c, err): set C = ite(PEND && err == nil, C + c, C)
  on ret ReadByte(b, c, err): set V = ite(PEND, V, c)
  on ret ReadByte(b, c, err): set PEND = !PEND && err == nil
  on ret ReadByte(b, c, err): set EX = xi
  on ret ReadByte(b, c, err): set EY = yi
  on ret ReadByte(b, c, err): set EZ = zi
  loop 1: inv [head] LINES == 5 && NUMS == 3 && REALS == 4 && !BADHEAD && !BROKEN && !BADRUN && !PEND && rpos >= 0
  loop 1: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 1: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C == PZ(xi, zi) + yi && C >= 0)
  loop 1: inv [volume] imp(NX > 0 && NY > 0 && NZ > 0, PX(xi) == xi * NZ * NY && PZ(xi, zi) == PX(xi) + zi * NY)
  loop 1: inv [voxels] imp(NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(has(voxels, Key{x, y, z})), iff(has(voxels, Key{x, y, z}), ingrid(x, y, z) && window(x, y, z) && before(x, y, z, xi, yi, zi) && W(PZ(x, z) + y) == 1)))
  loop 2: inv [count] 0 <= i && i <= count
  loop 2: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 2: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C - count + i == PZ(xi, zi) + yi && PZ(xi, zi) + yi >= 0)
  loop 2: inv [volume] imp(NX > 0 && NY > 0 && NZ > 0, PX(xi) == xi * NZ * NY && PZ(xi, zi) == PX(xi) + zi * NY)
  loop 2: inv [voxels] imp(NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(has(voxels, Key{x, y, z})), iff(has(voxels, Key{x, y, z}), ingrid(x, y, z) && window(x, y, z) && before(x, y, z, xi, yi, zi) && W(PZ(x, z) + y) == 1)))
  ensures [rejects] imp(result1 == nil, result0 != nil && !BADHEAD && !BADRUN && !BROKEN && !PEND && rpos >= DLEN() && LINES == 5)
  ensures [rejects window] imp(result1 == nil, sx >= 0 && sy >= 0 && sz >= 0 && cx >= 0 && cy >= 0 && cz >= 0 && sx <= NX && sy <= NY && sz <= NZ)
  ensures [grid] imp(result1 == nil, result0.NX == NX && result0.NY == NY && result0.NZ == NZ && result0.TX == TX && result0.TY == TY && result0.TZ == TZ && result0.Scale == SC)
  ensures [cells] imp(result1 == nil && NX > 0 && NY > 0 && NZ > 0, C == PZ(EX, EZ) + EY && C <= NX * NZ * NY)
  ensures [voxels] imp(result1 == nil && NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(has(result0.WhiteVoxels, Key{x, y, z})), iff(has(result0.WhiteVoxels, Key{x, y, z}), ingrid(x, y, z) && window(x, y, z) && before(x, y, z, EX, EY, EZ) && W(PZ(x, z) + y) == 1)))
  ensures [accepts] imp(result1 != nil && NX > 0 && NY > 0 && NZ > 0, BADHEAD || BADRUN || BROKEN || sx < 0 || sy < 0 || sz < 0 || cx < 0 || cy < 0 || cz < 0 || sx > NX || sy > NY || sz > NZ || C > NX * NZ * NY)
