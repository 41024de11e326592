# C05: run-length encoding of a window of a shell
# PX, PZ: see c02_rle.gvc; WN(p): the neighbour bits at position p
ufun WN(int) int

define bits(k) = ite(has(lookup, k), int(vs.Voxels[lookup[k]].N), 0)
define vrunOf(e, v) = v.count > 0 && forall(p, trig(WN(p)), imp(e <= p && p < e + v.count, WN(p) == v.value))

func vshell:(*VShell).encode
  props C05
  requires vs != nil && ch != nil && nx >= 0 && ny >= 0 && nz >= 0
  requires forall(k(key), trig(has(lookup, k)), imp(has(lookup, k), 0 <= lookup[k] && lookup[k] < len(vs.Voxels)))
  assumes [def.PX] PX(sx) == 0 && forall(x, trig(PX(x + 1)), PX(x + 1) == PZ(x, sz + nz))
  assumes [def.PZ] forall(x, trig(PZ(x, sz)), PZ(x, sz) == PX(x)) && forall(x, z, trig(PZ(x, z + 1)), PZ(x, z + 1) == PZ(x, z) + ny)
  assumes [def.WN] forall(x, y, z, trig(has(lookup, key{x, y, z})), imp(sx <= x && x < sx + nx && sy <= y && y < sy + ny && sz <= z && z < sz + nz, WN(PZ(x, z) + (y - sy)) == bits(key{x, y, z})))
  # E: cells sent so far
  ghost E int = 0
  on send rle(v): assert [run] vrunOf(E, v)
  on send rle(v): set E = E + v.count
  on close(): assert [all] E == PX(sx + nx) && E == nx * nz * ny
  loop 1: inv [at] sx <= xi && xi <= sx + nx && E + count == PX(xi)
  loop 1: inv [volume] PX(xi) == it1 * nz * ny
  loop 1: inv [run] count >= 0 && E >= 0 && forall(p, trig(WN(p)), imp(E <= p && p < E + count, WN(p) == value))
  loop 2: inv [at] sz <= zi && zi <= sz + nz && E + count == PZ(xi, zi)
  loop 2: inv [volume] PX(xi) == it1 * nz * ny && PZ(xi, zi) == PX(xi) + it2 * ny
  loop 2: inv [run] count >= 0 && E >= 0 && forall(p, trig(WN(p)), imp(E <= p && p < E + count, WN(p) == value))
  loop 3: inv [at] sy <= yi && yi <= sy + ny && E + count == PZ(xi, zi) + (yi - sy)
  loop 3: inv [run] count >= 0 && E >= 0 && forall(p, trig(WN(p)), imp(E <= p && p < E + count, WN(p) == value))

# five bytes, repeated: the value (low byte first) and the count
define at5(s, i) = ite(mod(i, 5) == 0, s[0], ite(mod(i, 5) == 1, s[1], ite(mod(i, 5) == 2, s[2], ite(mod(i, 5) == 3, s[3], s[4]))))
define pairs5(s) = mod(len(s), 5) == 0 && len(s) > 0 && 1 <= s[4] && s[4] <= 255 && forall(i, trig(s[i]), imp(0 <= i && i < len(s), s[i] == at5(s, i)))
define cells5(s) = div(len(s), 5) * s[4]
define value5(s) = int(s[0]) + 256 * int(s[1]) + 65536 * int(s[2]) + 16777216 * int(s[3])
define empty32(v) = v == 0 || v == 4294967295
define vplace(a) = istype(a[3], float64) && istype(a[4], float64) && istype(a[5], float64) && istype(a[6], float64) && unbox(a[3], float64) == vs.TX && unbox(a[4], float64) == vs.TY && unbox(a[5], float64) == vs.TZ && unbox(a[6], float64) == vs.Scale
define pos(i) = key{vs.Voxels[i].X, vs.Voxels[i].Y, vs.Voxels[i].Z}

func vshell:(*VShell).write
  props C05
  requires vs != nil && w != nil && vs.NX >= 0 && vs.NY >= 0 && vs.NZ >= 0 && nx >= 0 && ny >= 0 && nz >= 0
  let FMT = "#vshell 1\ndim %v %v %v\ntranslate %g %g %g\nscale %g\ndata\n"
  let NX = ite(nx == 0, old(vs.NX), nx)
  let NY = ite(ny == 0, old(vs.NY), ny)
  let NZ = ite(nz == 0, old(vs.NZ), nz)
  # E: cells received, P: cells written, FULL: cells written with neighbour bits
  # PEND: a value V was written and its count is still to come
  ghost E int = 0
  ghost P int = 0
  ghost FULL int = 0
  ghost PEND bool = false
  ghost V int = 0
  ghost TEXT string = ""
  ghost HEAD int = 0
  on call encode(r, c, l, x, y, z, i, j, k): assert [window] r == vs && l == lookup && x == sx && y == sy && z == sz && i == NX && j == NY && k == NZ
  on call encode(r, c, l, x, y, z, i, j, k): assert [lookup] forall(q(key), trig(has(l, q)), imp(has(l, q), pos(l[q]) == q)) && forall(j, trig(vs.Voxels[j]), imp(0 <= j && j < len(vs.Voxels), has(l, pos(j)) && l[pos(j)] >= j))
  on recv rle(v): assume [run] vrunOf(E, v)
  on recv rle(v): set E = E + v.count
  on drained rle(): assume [all] E == NX * NZ * NY
  on call encoding/binary.Write(f, o, d): assert [value] f == w && HEAD == 1 && imp(!PEND, istype(d, uint32) && empty32(unbox(d, uint32)))
  on call encoding/binary.Write(f, o, d): assert [count] imp(PEND, istype(d, uint16) && unbox(d, uint16) > 0 && forall(p, trig(WN(p)), imp(P <= p && p < P + unbox(d, uint16), WN(p) == V)))
  on call encoding/binary.Write(f, o, d): set P = P + ite(PEND, unbox(d, uint16), 0)
  on call encoding/binary.Write(f, o, d): set V = unbox(d, uint32)
  on call encoding/binary.Write(f, o, d): set PEND = !PEND
  on call (io.Writer).Write(f, s): assert [pairs] f == w && HEAD == 1 && !PEND && pairs5(s) && !empty32(value5(s))
  on call (io.Writer).Write(f, s): assert [values] forall(p, trig(WN(p)), imp(P <= p && p < P + cells5(s), WN(p) == value5(s)))
  on call (io.Writer).Write(f, s): set P = P + cells5(s)
  on call (io.Writer).Write(f, s): set FULL = FULL + cells5(s)
  # the header comes first, once
  on call Sprintf(f, a): assert [header] f == FMT && len(a) == 7 && istype(a[0], int) && istype(a[1], int) && istype(a[2], int) && unbox(a[0], int) == NX && unbox(a[1], int) == NY && unbox(a[2], int) == NZ && vplace(a)
  on ret Sprintf(f, a, r): set TEXT = r
  on call Fprint(f, a): assert [header] f == w && HEAD == 0 && len(a) == 1 && istype(a[0], string) && unbox(a[0], string) == TEXT
  on call Fprint(f, a): set HEAD = HEAD + 1
  on call Fprintf(f, g, a): assert [empty] f == w && HEAD == 0 && len(vs.Voxels) == 0 && g == FMT && len(a) == 7 && istype(a[0], int) && istype(a[1], int) && istype(a[2], int) && unbox(a[0], int) == 0 && unbox(a[1], int) == 0 && unbox(a[2], int) == 0 && vplace(a)
  on call Fprintf(f, g, a): set HEAD = HEAD + 1
  loop 1: inv [none] HEAD == 0 && E == 0
  loop 1: inv [lookup] forall(q(key), trig(has(lookup, q)), imp(has(lookup, q), 0 <= lookup[q] && lookup[q] < it1 && lookup[q] < len(vs.Voxels) && pos(lookup[q]) == q)) && forall(j, trig(vs.Voxels[j]), imp(0 <= j && j < it1, has(lookup, pos(j)) && lookup[pos(j)] >= j))
  loop 2: inv [written] HEAD == 1 && !PEND && P == E && numVoxels == FULL
  ensures [written] imp(result1 == nil, HEAD == 1 && !PEND && P == ite(len(vs.Voxels) == 0, 0, NX * NZ * NY))
  ensures [count] imp(result1 == nil, result0 == FULL)
