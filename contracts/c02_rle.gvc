# C02: run-length encoding of a window of a model

# PX(x), PZ(x, z): position of the first cell of plane x and of row (x, z); W(p): the value at position p
ufun PX(int) int
ufun PZ(int, int) int
ufun W(int) int

define bit(k) = ite(has(lookup, k), 1, 0)
define runOf(e, v) = v.count > 0 && (v.value == 0 || v.value == 1) && forall(p, trig(W(p)), imp(e <= p && p < e + v.count, W(p) == v.value))

func binvox:(*BinVOX).encode
  props C02, C03
  requires ch != nil && nx >= 0 && ny >= 0 && nz >= 0
  # positions count y fastest, then z, then x
  assumes [def.PX] PX(sx) == 0 && forall(x, trig(PX(x + 1)), PX(x + 1) == PZ(x, sz + nz))
  assumes [def.PZ] forall(x, trig(PZ(x, sz)), PZ(x, sz) == PX(x)) && forall(x, z, trig(PZ(x, z + 1)), PZ(x, z + 1) == PZ(x, z) + ny)
  assumes [def.W] forall(x, y, z, trig(has(lookup, Key{x, y, z})), imp(sx <= x && x < sx + nx && sy <= y && y < sy + ny && sz <= z && z < sz + nz, W(PZ(x, z) + (y - sy)) == bit(Key{x, y, z})))
  # E: cells sent so far
  ghost E int = 0
  on send rle(v): assert [run] runOf(E, v)
  on send rle(v): set E = E + v.count
  on close(): assert [all] E == PX(sx + nx) && E == nx * nz * ny
  loop 1: inv [at] sx <= xi && xi <= sx + nx && E + count == PX(xi)
  loop 1: inv [volume] PX(xi) == it1 * nz * ny
  loop 1: inv [run] count >= 0 && E >= 0 && (value == 0 || value == 1) && forall(p, trig(W(p)), imp(E <= p && p < E + count, W(p) == value))
  loop 2: inv [at] sz <= zi && zi <= sz + nz && E + count == PZ(xi, zi)
  loop 2: inv [volume] PX(xi) == it1 * nz * ny && PZ(xi, zi) == PX(xi) + it2 * ny
  loop 2: inv [run] count >= 0 && E >= 0 && (value == 0 || value == 1) && forall(p, trig(W(p)), imp(E <= p && p < E + count, W(p) == value))
  loop 3: inv [at] sy <= yi && yi <= sy + ny && E + count == PZ(xi, zi) + (yi - sy)
  loop 3: inv [run] count >= 0 && E >= 0 && (value == 0 || value == 1) && forall(p, trig(W(p)), imp(E <= p && p < E + count, W(p) == value))

extern bytes.Repeat (s, n) (r)
  requires n >= 0
  ensures fresh(r) && len(r) == len(s) * n && imp(len(s) == 2, forall(i, trig(r[i]), imp(0 <= i && i < len(r), r[i] == ite(mod(i, 2) == 0, s[0], s[1]))))
  ensures imp(len(s) == 5, forall(i, trig(r[i]), imp(0 <= i && i < len(r), r[i] == at5(s, i))))
extern havoc (*bytes.Buffer).Write
extern (*bytes.Buffer).Bytes (b) (r)
extern pure fmt.Sprintf
extern fmt.Fprint (w, a) (n, err)
  modifies failed
  ensures failed == (old(failed) || err != nil)
extern fmt.Fprintf (w, format, a) (n, err)
  modifies failed
  ensures failed == (old(failed) || err != nil)
extern (io.Writer).Write (w, p) (n, err)
  modifies failed
  ensures failed == (old(failed) || err != nil)

# a run-length pair repeated: s holds n times (value, count)
define pairs(s) = mod(len(s), 2) == 0 && len(s) > 0 && 1 <= s[1] && s[1] <= 255 && forall(i, trig(s[i]), imp(0 <= i && i < len(s), s[i] == ite(mod(i, 2) == 0, s[0], s[1])))
define cells(s) = div(len(s), 2) * s[1]
define place(a) = istype(a[3], float64) && istype(a[4], float64) && istype(a[5], float64) && istype(a[6], float64) && unbox(a[3], float64) == b.TX && unbox(a[4], float64) == b.TY && unbox(a[5], float64) == b.TZ && unbox(a[6], float64) == b.Scale

func binvox:(*BinVOX).write
  props C02, C03
  requires b != nil && w != nil && b.NX >= 0 && b.NY >= 0 && b.NZ >= 0 && nx >= 0 && ny >= 0 && nz >= 0
  let FMT = "#binvox 1\ndim %v %v %v\ntranslate %g %g %g\nscale %g\ndata\n"
  let NX = ite(nx == 0, old(b.NX), nx)
  let NY = ite(ny == 0, old(b.NY), ny)
  let NZ = ite(nz == 0, old(b.NZ), nz)
  # E: cells received, P: cells written, ONES: cells written with value 1, H: header written
  ghost E int = 0
  ghost P int = 0
  ghost ONES int = 0
  ghost BUF *bytes.Buffer = nil
  ghost DATA []byte = nil
  ghost OUT bool = false
  ghost TEXT string = ""
  ghost HEAD int = 0
  ghost DONE int = 0
  on call encode(r, c, l, x, y, z, i, j, k): assert [window] r == b && l == b.WhiteVoxels && x == sx && y == sy && z == sz && i == NX && j == NY && k == NZ
  on recv rle(v): assume [run] v.count > 0 && (v.value == 0 || v.value == 1) && forall(p, trig(W(p)), imp(E <= p && p < E + v.count, W(p) == v.value))
  on recv rle(v): set E = E + v.count
  on drained rle(): assume [all] E == NX * NZ * NY
  on call (*bytes.Buffer).Write(buf, s): assert [pairs] pairs(s)
  on call (*bytes.Buffer).Write(buf, s): assert [values] forall(p, trig(W(p)), imp(P <= p && p < P + cells(s), W(p) == s[0]))
  on call (*bytes.Buffer).Write(buf, s): set P = P + cells(s)
  on call (*bytes.Buffer).Write(buf, s): set ONES = ONES + ite(s[0] == 1, cells(s), 0)
  on call (*bytes.Buffer).Write(buf, s): assert [one buffer] !OUT && (BUF == nil || BUF == buf)
  on call (*bytes.Buffer).Write(buf, s): set BUF = buf
  on call (*bytes.Buffer).Bytes(buf): assert [whole buffer] !OUT && (BUF == nil || BUF == buf) && P == NX * NZ * NY
  on ret (*bytes.Buffer).Bytes(buf, r): set DATA = r
  on ret (*bytes.Buffer).Bytes(buf, r): set OUT = true
  # the header comes first, once
  on call Sprintf(f, a): assert [header] f == FMT && len(a) == 7 && istype(a[0], int) && istype(a[1], int) && istype(a[2], int) && unbox(a[0], int) == NX && unbox(a[1], int) == NY && unbox(a[2], int) == NZ && place(a)
  on ret Sprintf(f, a, r): set TEXT = r
  on call Fprint(f, a): assert [header] f == w && HEAD == 0 && DONE == 0 && len(a) == 1 && istype(a[0], string) && unbox(a[0], string) == TEXT
  on call Fprint(f, a): set HEAD = HEAD + 1
  on call Fprintf(f, g, a): assert [empty] f == w && HEAD == 0 && DONE == 0 && len(b.WhiteVoxels) == 0 && g == FMT && len(a) == 7 && istype(a[0], int) && istype(a[1], int) && istype(a[2], int) && unbox(a[0], int) == 0 && unbox(a[1], int) == 0 && unbox(a[2], int) == 0 && place(a)
  on call Fprintf(f, g, a): set HEAD = HEAD + 1
  on call (io.Writer).Write(f, s): assert [data] f == w && HEAD == 1 && DONE == 0 && OUT && s == DATA && len(b.WhiteVoxels) > 0
  on call (io.Writer).Write(f, s): set DONE = DONE + 1
  loop 1: inv [written] (BUF == nil || BUF == &buf) && !OUT && HEAD == 1 && DONE == 0 && P == E && numWhite == ONES
  ensures [written] imp(result1 == nil, HEAD == 1 && DONE == ite(len(b.WhiteVoxels) == 0, 0, 1))
  ensures [count] imp(result1 == nil, result0 == ONES)
