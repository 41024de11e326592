# C04: reading the run data of a shell (see c01_read.gvc for the header and the byte stream)

# CNT(x, z, y): the voxels wanted among the cells before cell (x, y, z)
ufun CNT(int, int, int) int

extern encoding/binary.Read (r, o, d) (err)
  modifies rpos
  modifies heap(uint32)
  modifies heap(uint16)
  ensures heapkept(uint32, r, !istype(d, *uint32) || r != blk(unbox(d, *uint32))) && heapkept(uint16, r, !istype(d, *uint16) || r != blk(unbox(d, *uint16)))
  ensures io.EOF != io.ErrUnexpectedEOF
  ensures imp(istype(d, *uint32), imp(err == nil, old(rpos) + 4 <= DLEN() && rpos == old(rpos) + 4))
  ensures imp(istype(d, *uint32), imp(err == nil && o == binary.LittleEndian, *unbox(d, *uint32) == D(old(rpos)) + 256 * D(old(rpos) + 1) + 65536 * D(old(rpos) + 2) + 16777216 * D(old(rpos) + 3)))
  ensures imp(istype(d, *uint16), imp(err == nil, old(rpos) + 2 <= DLEN() && rpos == old(rpos) + 2))
  ensures imp(istype(d, *uint16), imp(err == nil && o == binary.LittleEndian, *unbox(d, *uint16) == D(old(rpos)) + 256 * D(old(rpos) + 1)))
  ensures imp(err == io.EOF, old(rpos) >= DLEN() && rpos == old(rpos))

define at3(v, x, y, z) = v.X == x && v.Y == y && v.Z == z
define vwanted(x, y, z) = ingrid(x, y, z) && window(x, y, z) && !empty32(WN(PZ(x, z) + y))
define vcell(v) = vwanted(v.X, v.Y, v.Z) && int(v.N) == WN(PZ(v.X, v.Z) + v.Y)

func vshell:read
  props C04, C05
  requires r != nil
  modifies heap(uint32)
  modifies heap(uint16)
  # LINES: lines read; LINE: the last one; PARTS: its parts; NUMS, REALS: numbers parsed
  ghost LINES int = 0
  ghost LINE string = ""
  ghost PARTS []string = nil
  ghost NUMS int = 0
  ghost REALS int = 0
  ghost NX int = 0
  ghost NY int = 0
  ghost NZ int = 0
  ghost TX float64 = 0
  ghost TY float64 = 0
  ghost TZ float64 = 0
  ghost SC float64 = 0
  # BADHEAD, BADRUN, BROKEN: the header is malformed, a run is, the file cannot be read
  ghost BADHEAD bool = false
  ghost BADRUN bool = false
  ghost BROKEN bool = false
  # PEND: a value V was read and its count is still to come; C: cells described so far
  ghost rpos int = 0
  ghost PEND bool = false
  ghost V int = 0
  ghost C int = 0
  ghost EX int = 0
  ghost EY int = 0
  ghost EZ int = 0
  on ret ReadString(b, d, s, err): set BADHEAD = BADHEAD || err != nil || (LINES == 0 && s != "#vshell 1\n") || (LINES == 4 && s != "data\n")
  on ret ReadString(b, d, s, err): set LINE = s
  on ret ReadString(b, d, s, err): set LINES = LINES + 1
  on ret ReadString(b, d, s, err): assume [def.PX] imp(LINES == 5, PX(0) == 0 && forall(x, trig(PX(x + 1)), PX(x + 1) == PZ(x, NZ)))
  on ret ReadString(b, d, s, err): assume [def.CNT] CNT(0, 0, 0) == 0
  on ret ReadString(b, d, s, err): assume [def.PZ] imp(LINES == 5, forall(x, trig(PZ(x, 0)), PZ(x, 0) == PX(x)) && forall(x, z, trig(PZ(x, z + 1)), PZ(x, z + 1) == PZ(x, z) + NY))
  on call FindStringSubmatch(re, s): assert [line] s == LINE && 2 <= LINES && LINES <= 4 && re == ite(LINES == 2, dimRE, ite(LINES == 3, translateRE, scaleRE))
  on ret FindStringSubmatch(re, s, p): set BADHEAD = BADHEAD || len(p) != ite(LINES == 4, 2, 4)
  on ret FindStringSubmatch(re, s, p): set PARTS = p
  on call Atoi(s): assert [dim] LINES == 2 && NUMS < 3 && s == PARTS[NUMS + 1]
  on ret Atoi(s, n, err): set NX = ite(NUMS == 0, n, NX)
  on ret Atoi(s, n, err): set NY = ite(NUMS == 1, n, NY)
  on ret Atoi(s, n, err): set NZ = ite(NUMS == 2, n, NZ)
  on ret Atoi(s, n, err): set NUMS = NUMS + 1
  on ret Atoi(s, n, err): set BADHEAD = BADHEAD || err != nil
  on call ParseFloat(s, bits): assert [placement] bits == 64 && LINES == ite(REALS < 3, 3, 4) && REALS < 4 && s == PARTS[ite(REALS < 3, REALS + 1, 1)]
  on ret ParseFloat(s, bits, v, err): set TX = ite(REALS == 0, v, TX)
  on ret ParseFloat(s, bits, v, err): set TY = ite(REALS == 1, v, TY)
  on ret ParseFloat(s, bits, v, err): set TZ = ite(REALS == 2, v, TZ)
  on ret ParseFloat(s, bits, v, err): set SC = ite(REALS == 3, v, SC)
  on ret ParseFloat(s, bits, v, err): set REALS = REALS + 1
  on ret ParseFloat(s, bits, v, err): set BADHEAD = BADHEAD || err != nil
  # positions count y fastest, then z, then x; WN(p) is the value of cell p
  # a value takes four bytes, its count two bytes (empty cells) or one byte
  on call encoding/binary.Read(b, o, d): assert [value] LINES == 5 && NUMS == 3 && REALS == 4 && imp(!PEND, istype(d, *uint32))
  on call encoding/binary.Read(b, o, d): assert [count] imp(PEND, istype(d, *uint16) && empty32(V))
  on ret encoding/binary.Read(b, o, d, err): assume [def.WN] imp(PEND && err == nil, forall(p, trig(WN(p)), imp(C <= p && p < C + *unbox(d, *uint16), WN(p) == V)))
  on ret encoding/binary.Read(b, o, d, err): set BROKEN = BROKEN || (err != nil && err != io.EOF && err != io.ErrUnexpectedEOF)
  on ret encoding/binary.Read(b, o, d, err): set BADRUN = BADRUN || ite(PEND, err != nil, err == io.ErrUnexpectedEOF)
  on ret encoding/binary.Read(b, o, d, err): set C = ite(PEND && err == nil, C + *unbox(d, *uint16), C)
  on ret encoding/binary.Read(b, o, d, err): set V = ite(PEND, V, *unbox(d, *uint32))
  on ret encoding/binary.Read(b, o, d, err): set PEND = !PEND && err == nil
  on ret encoding/binary.Read(b, o, d, err): set EX = xi
  on ret encoding/binary.Read(b, o, d, err): set EY = yi
  on ret encoding/binary.Read(b, o, d, err): set EZ = zi
  on call ReadByte(b): assert [byte count] PEND && !empty32(V)
  on ret ReadByte(b, c, err): assume [def.WN] imp(err == nil, forall(p, trig(WN(p)), imp(C <= p && p < C + c, WN(p) == V)))
  on ret ReadByte(b, c, err): set BROKEN = BROKEN || (err != nil && err != io.EOF)
  on ret ReadByte(b, c, err): set BADRUN = BADRUN || err != nil || c == 0
  on ret ReadByte(b, c, err): set C = ite(err == nil, C + c, C)
  on ret ReadByte(b, c, err): set PEND = false
  loop 1: writes heap(uint32), heap(uint16)
  loop 1: inv [head] LINES == 5 && NUMS == 3 && REALS == 4 && !BADHEAD && !BROKEN && !BADRUN && !PEND && rpos >= 0
  loop 1: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 1: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C == PZ(xi, zi) + yi && C >= 0)
  loop 1: inv [number] imp(NX > 0 && NY > 0 && NZ > 0, len(voxels) == CNT(xi, zi, yi))
  loop 1: inv [voxels] imp(NX > 0 && NY > 0 && NZ > 0, forall(n, trig(voxels[n]), imp(0 <= n && n < len(voxels), vcell(voxels[n]) && before(voxels[n].X, voxels[n].Y, voxels[n].Z, xi, yi, zi))))
  loop 1: inv [all] imp(NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(CNT(x, z, y)), imp(vwanted(x, y, z) && before(x, y, z, xi, yi, zi), 0 <= CNT(x, z, y) && CNT(x, z, y) < len(voxels) && at3(voxels[CNT(x, z, y)], x, y, z))))
  loop 1: inv [order] imp(NX > 0 && NY > 0 && NZ > 0, forall(n, m, trig(voxels[n], voxels[m]), imp(0 <= n && n < m && m < len(voxels), before(voxels[n].X, voxels[n].Y, voxels[n].Z, voxels[m].X, voxels[m].Y, voxels[m].Z))))
  loop 2: assume [def.CNT] imp(ingrid(xi, yi, zi), CNT(xi, zi, yi + 1) == CNT(xi, zi, yi) + ite(vwanted(xi, yi, zi), 1, 0) && CNT(xi, zi + 1, 0) == CNT(xi, zi, NY) && CNT(xi + 1, 0, 0) == CNT(xi, NZ, 0))
  loop 2: inv [count] 0 <= i && i <= count
  loop 2: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 2: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C - count + i == PZ(xi, zi) + yi && PZ(xi, zi) + yi >= 0)
  loop 2: inv [number] imp(NX > 0 && NY > 0 && NZ > 0, len(voxels) == CNT(xi, zi, yi))
  loop 2: inv [voxels] imp(NX > 0 && NY > 0 && NZ > 0, forall(n, trig(voxels[n]), imp(0 <= n && n < len(voxels), vcell(voxels[n]) && before(voxels[n].X, voxels[n].Y, voxels[n].Z, xi, yi, zi))))
  loop 2: inv [all] imp(NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(CNT(x, z, y)), imp(vwanted(x, y, z) && before(x, y, z, xi, yi, zi), 0 <= CNT(x, z, y) && CNT(x, z, y) < len(voxels) && at3(voxels[CNT(x, z, y)], x, y, z))))
  loop 2: inv [order] imp(NX > 0 && NY > 0 && NZ > 0, forall(n, m, trig(voxels[n], voxels[m]), imp(0 <= n && n < m && m < len(voxels), before(voxels[n].X, voxels[n].Y, voxels[n].Z, voxels[m].X, voxels[m].Y, voxels[m].Z))))
  ensures [rejects] imp(result1 == nil, result0 != nil && !BADHEAD && !BADRUN && !BROKEN && !PEND && rpos >= DLEN() && LINES == 5)
  ensures [rejects window] imp(result1 == nil, sx >= 0 && sy >= 0 && sz >= 0 && cx >= 0 && cy >= 0 && cz >= 0 && sx <= NX && sy <= NY && sz <= NZ)
  ensures [grid] imp(result1 == nil, result0.NX == NX && result0.NY == NY && result0.NZ == NZ && result0.TX == TX && result0.TY == TY && result0.TZ == TZ && result0.Scale == SC)
  ensures [number] imp(result1 == nil, imp(NX > 0 && NY > 0 && NZ > 0, len(result0.Voxels) == CNT(EX, EZ, EY)))
  ensures [voxels] imp(result1 == nil, imp(NX > 0 && NY > 0 && NZ > 0, forall(n, trig(result0.Voxels[n]), imp(0 <= n && n < len(result0.Voxels), vcell(result0.Voxels[n]) && before(result0.Voxels[n].X, result0.Voxels[n].Y, result0.Voxels[n].Z, EX, EY, EZ)))))
  ensures [all] imp(result1 == nil, imp(NX > 0 && NY > 0 && NZ > 0, forall(x, y, z, trig(CNT(x, z, y)), imp(vwanted(x, y, z) && before(x, y, z, EX, EY, EZ), 0 <= CNT(x, z, y) && CNT(x, z, y) < len(result0.Voxels) && at3(result0.Voxels[CNT(x, z, y)], x, y, z)))))
  ensures [order] imp(result1 == nil, imp(NX > 0 && NY > 0 && NZ > 0, forall(n, m, trig(result0.Voxels[n], result0.Voxels[m]), imp(0 <= n && n < m && m < len(result0.Voxels), before(result0.Voxels[n].X, result0.Voxels[n].Y, result0.Voxels[n].Z, result0.Voxels[m].X, result0.Voxels[m].Y, result0.Voxels[m].Z)))))

func vshell:read #volume
  props C04, C05
  ghost LINES int = 0
  ghost LINE string = ""
  ghost PARTS []string = nil
  ghost NUMS int = 0
  ghost REALS int = 0
  ghost NX int = 0
  ghost NY int = 0
  ghost NZ int = 0
  ghost TX float64 = 0
  ghost TY float64 = 0
  ghost TZ float64 = 0
  ghost SC float64 = 0
  ghost BADHEAD bool = false
  ghost BADRUN bool = false
  ghost BROKEN bool = false
  ghost rpos int = 0
  ghost PEND bool = false
  ghost V int = 0
  ghost C int = 0
  ghost EX int = 0
  ghost EY int = 0
  ghost EZ int = 0
  on ret ReadString(b, d, s, err): set BADHEAD = BADHEAD || err != nil || (LINES == 0 && s != "#vshell 1\n") || (LINES == 4 && s != "data\n")
  on ret ReadString(b, d, s, err): set LINE = s
  on ret ReadString(b, d, s, err): set LINES = LINES + 1
  on ret ReadString(b, d, s, err): assume [def.PX] imp(LINES == 5, PX(0) == 0 && forall(x, trig(PX(x + 1)), PX(x + 1) == PZ(x, NZ)))
  on ret ReadString(b, d, s, err): assume [def.PZ] imp(LINES == 5, forall(x, trig(PZ(x, 0)), PZ(x, 0) == PX(x)) && forall(x, z, trig(PZ(x, z + 1)), PZ(x, z + 1) == PZ(x, z) + NY))
  on ret FindStringSubmatch(re, s, p): set BADHEAD = BADHEAD || len(p) != ite(LINES == 4, 2, 4)
  on ret FindStringSubmatch(re, s, p): set PARTS = p
  on ret Atoi(s, n, err): set NX = ite(NUMS == 0, n, NX)
  on ret Atoi(s, n, err): set NY = ite(NUMS == 1, n, NY)
  on ret Atoi(s, n, err): set NZ = ite(NUMS == 2, n, NZ)
  on ret Atoi(s, n, err): set NUMS = NUMS + 1
  on ret Atoi(s, n, err): set BADHEAD = BADHEAD || err != nil
  on ret ParseFloat(s, bits, v, err): set TX = ite(REALS == 0, v, TX)
  on ret ParseFloat(s, bits, v, err): set TY = ite(REALS == 1, v, TY)
  on ret ParseFloat(s, bits, v, err): set TZ = ite(REALS == 2, v, TZ)
  on ret ParseFloat(s, bits, v, err): set SC = ite(REALS == 3, v, SC)
  on ret ParseFloat(s, bits, v, err): set REALS = REALS + 1
  on ret ParseFloat(s, bits, v, err): set BADHEAD = BADHEAD || err != nil
  on ret encoding/binary.Read(b, o, d, err): set BROKEN = BROKEN || (err != nil && err != io.EOF && err != io.ErrUnexpectedEOF)
  on ret encoding/binary.Read(b, o, d, err): set BADRUN = BADRUN || ite(PEND, err != nil, err == io.ErrUnexpectedEOF)
  on ret encoding/binary.Read(b, o, d, err): set C = ite(PEND && err == nil, C + *unbox(d, *uint16), C)
  on ret encoding/binary.Read(b, o, d, err): set V = ite(PEND, V, *unbox(d, *uint32))
  on ret encoding/binary.Read(b, o, d, err): set PEND = !PEND && err == nil
  on ret encoding/binary.Read(b, o, d, err): set EX = xi
  on ret encoding/binary.Read(b, o, d, err): set EY = yi
  on ret encoding/binary.Read(b, o, d, err): set EZ = zi
  on ret ReadByte(b, c, err): set BROKEN = BROKEN || (err != nil && err != io.EOF)
  on ret ReadByte(b, c, err): set BADRUN = BADRUN || err != nil || c == 0
  on ret ReadByte(b, c, err): set C = ite(err == nil, C + c, C)
  on ret ReadByte(b, c, err): set PEND = false
  loop 1: inv [head] LINES == 5 && NUMS == 3 && REALS == 4 && !BADHEAD && !BROKEN && !BADRUN && !PEND && rpos >= 0
  loop 1: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 1: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C == PZ(xi, zi) + yi && C >= 0)
  loop 1: inv [volume] imp(NX > 0 && NY > 0 && NZ > 0, PX(xi) == xi * NZ * NY && PZ(xi, zi) == PX(xi) + zi * NY)
  loop 2: inv [count] 0 <= i && i <= count
  loop 2: inv [cursor] imp(NX > 0 && NY > 0 && NZ > 0, 0 <= xi && xi <= NX && 0 <= yi && yi < NY && 0 <= zi && zi < NZ && imp(xi == NX, yi == 0 && zi == 0))
  loop 2: inv [at] imp(NX > 0 && NY > 0 && NZ > 0, C - count + i == PZ(xi, zi) + yi && PZ(xi, zi) + yi >= 0)
  loop 2: inv [volume] imp(NX > 0 && NY > 0 && NZ > 0, PX(xi) == xi * NZ * NY && PZ(xi, zi) == PX(xi) + zi * NY)
  ensures [cells] imp(result1 == nil && NX > 0 && NY > 0 && NZ > 0, C == PZ(EX, EZ) + EY && C <= NX * NZ * NY)
  ensures [accepts] imp(result1 != nil && NX > 0 && NY > 0 && NZ > 0, BADHEAD || BADRUN || BROKEN || sx < 0 || sy < 0 || sz < 0 || cx < 0 || cy < 0 || cz < 0 || sx > NX || sy > NY || sz > NZ || C > NX * NZ * NY)
