# C18: parsing STL data (D, DLEN and rpos: see c01_read.gvc)

define u32(p) = D(p) + 256 * D(p + 1) + 65536 * D(p + 2) + 16777216 * D(p + 3)
# the value of a 32-bit float
ufun F32(int) float64
define vec32(p) = gl.Vector{F32(u32(p)), F32(u32(p + 4)), F32(u32(p + 8))}

extern bytes.NewReader (b) (r)
  ensures r != nil && fresh(r)
extern (*bytes.Reader).Seek (r, off, whence) (n, err)
  modifies rpos
  ensures imp(whence == 0 && off >= 0, err == nil && rpos == off)
  ensures imp(err != nil, rpos == old(rpos))
# reading from memory: nothing but the end of the data is an error
extern encoding/binary.Read@*fauxgl.STLHeader (r, o, d) (err)
  modifies rpos
  modifies *unbox(d, *gl.STLHeader)
  ensures iff(err == nil, old(rpos) + 84 <= DLEN())
  ensures imp(err == nil, rpos == old(rpos) + 84)
  ensures imp(err == nil && o == binary.LittleEndian, unbox(d, *gl.STLHeader).Count == u32(old(rpos) + 80))
extern encoding/binary.Read@*fauxgl.STLTriangle (r, o, d) (err)
  modifies rpos
  modifies *unbox(d, *gl.STLTriangle)
  ensures iff(err == nil, old(rpos) + 50 <= DLEN())
  ensures imp(err == nil, rpos == old(rpos) + 50)
  ensures imp(err == nil && o == binary.LittleEndian, forall(i, trig(unbox(d, *gl.STLTriangle).V1[i]), imp(0 <= i && i < 3, unbox(d, *gl.STLTriangle).V1[i] == F32(u32(old(rpos) + 12 + 4 * i)))))
  ensures imp(err == nil && o == binary.LittleEndian, forall(i, trig(unbox(d, *gl.STLTriangle).V2[i]), imp(0 <= i && i < 3, unbox(d, *gl.STLTriangle).V2[i] == F32(u32(old(rpos) + 24 + 4 * i)))))
  ensures imp(err == nil && o == binary.LittleEndian, forall(i, trig(unbox(d, *gl.STLTriangle).V3[i]), imp(0 <= i && i < 3, unbox(d, *gl.STLTriangle).V3[i] == F32(u32(old(rpos) + 36 + 4 * i)))))
func slave:loadSTLB
  props C18
  inline (*Triangle).FixNormals (*Triangle).Normal
  requires r != nil
  ghost rpos int = 0
  loop 1: inv [read] 0 <= i && i <= count && rpos == 84 + 50 * i && rpos <= DLEN() && len(triangles) == count && count == u32(80)
  loop 1: inv [records] forall(k, trig(triangles[k]), imp(0 <= k && k < i, triangles[k] != nil && triangles[k].V1.Position == vec32(96 + 50 * k) && triangles[k].V2.Position == vec32(108 + 50 * k) && triangles[k].V3.Position == vec32(120 + 50 * k)))
  ensures [complete] iff(result1 == nil, 84 <= DLEN() && 84 + 50 * u32(80) <= DLEN())
  ensures [either] iff(result0 == nil, result1 != nil)
  ensures [count] imp(result1 == nil, len(result0.Triangles) == u32(80))
  ensures [records] imp(result1 == nil, forall(k, trig(result0.Triangles[k]), imp(0 <= k && k < u32(80), result0.Triangles[k] != nil && result0.Triangles[k].V1.Position == vec32(96 + 50 * k) && result0.Triangles[k].V2.Position == vec32(108 + 50 * k) && result0.Triangles[k].V3.Position == vec32(120 + 50 * k))))

# LINE(k): the k-th line, NF(s), FIELD(s, i): its fields, PF: the number a field gives
ufun LINE(int) string
ufun NF(string) int
ufun FIELD(string, int) string
ufun PF(string) float64
# VCNT(k): the vertex lines among the first k
ufun VCNT(int) int
define vline(k) = NF(LINE(k)) == 4 && FIELD(LINE(k), 0) == "vertex"
define vvec(k) = gl.Vector{PF(FIELD(LINE(k), 1)), PF(FIELD(LINE(k), 2)), PF(FIELD(LINE(k), 3))}
define corner(t, j) = ite(j == 0, t.V1.Position, ite(j == 1, t.V2.Position, t.V3.Position))

extern bufio.NewScanner (r) (s)
  ensures s != nil && fresh(s)
extern havoc (*bufio.Scanner).Scan (*bufio.Scanner).Text (*bufio.Scanner).Err
extern strings.Fields (s) (f)
  ensures fresh(f) && len(f) == NF(s) && forall(i, trig(f[i]), imp(0 <= i && i < len(f), f[i] == FIELD(s, i)))
extern github.com/fogleman/fauxgl.ParseFloats (items) (r)
  ensures fresh(r) && len(r) == len(items) && forall(i, trig(r[i]), imp(0 <= i && i < len(r), r[i] == PF(items[i])))

func slave:loadSTLA
  props C18
  inline (*Triangle).FixNormals (*Triangle).Normal
  requires r != nil
  assumes [def.VCNT] VCNT(0) == 0 && forall(k, trig(VCNT(k + 1)), VCNT(k + 1) == ite(vline(k), VCNT(k) + 1, VCNT(k)))
  # SC: the lines read, ENDED: there are no more, BROKEN: the scanner failed
  ghost SC int = 0
  ghost ENDED bool = false
  ghost BROKEN bool = false
  on ret Scan(s, ok): set SC = ite(ok, SC + 1, SC)
  on ret Scan(s, ok): set ENDED = !ok
  on ret Text(s, t): assume [def.LINE] t == LINE(SC - 1)
  on call Fields(s): assert [line] s == LINE(SC - 1)
  on ret Err(s, e): set BROKEN = e != nil
  loop 1: inv [count] SC == it1 && len(vertexes) == VCNT(SC) && VCNT(SC) <= SC
  loop 1: inv [own] blk(vertexes) == 0 || fresh(vertexes)
  loop 1: inv [vertices] forall(k, trig(LINE(k)), trig(VCNT(k)), imp(0 <= k && k < SC && vline(k), 0 <= VCNT(k) && VCNT(k) < len(vertexes) && vertexes[VCNT(k)] == vvec(k)))
  loop 2: inv [groups] i == 3 * len(triangles) && i <= len(vertexes)
  loop 2: inv [corners] forall(t, trig(triangles[t]), imp(0 <= t && t < len(triangles), triangles[t] != nil && triangles[t].V1.Position == vertexes[3 * t] && triangles[t].V2.Position == vertexes[3 * t + 1] && triangles[t].V3.Position == vertexes[3 * t + 2]))
  ensures [either] iff(result0 == nil, result1 != nil)
  ensures [rejects] imp(ENDED, iff(result1 != nil, BROKEN || mod(VCNT(SC), 3) != 0))
  ensures [all] imp(result1 == nil, ENDED && 3 * len(result0.Triangles) == VCNT(SC))
  ensures [corners] imp(result1 == nil, forall(k, trig(LINE(k)), imp(0 <= k && k < SC && vline(k), corner(result0.Triangles[div(VCNT(k), 3)], mod(VCNT(k), 3)) == vvec(k))))

func slave:stlToMesh
  props C18
  # TXT, BIN: which parser was used
  ghost rpos int = 0
  ghost TXT bool = false
  ghost BIN bool = false
  ghost M *gl.Mesh = nil
  ghost E bool = false
  on ret NewReader(b, r): assume [def.D] DLEN() == len(b) && forall(p, trig(D(p)), imp(0 <= p && p < len(b), D(p) == b[p]))
  on call NewReader(b): assert [data] b == buf
  on call loadSTLB(r): assert [start] rpos == 0
  on call loadSTLB(r): set BIN = true
  on call loadSTLA(r): assert [start] rpos == 0
  on call loadSTLA(r): set TXT = true
  on ret loadSTLA(r, m, e): set M = m
  on ret loadSTLA(r, m, e): set E = e != nil
  ensures [either] iff(result0 == nil, result1 != nil)
  ensures [short] imp(len(buf) < 84, result1 != nil)
  ensures [binary] imp(len(buf) >= 84, iff(len(buf) == 84 + 50 * u32(80), BIN) && TXT == !BIN)
  ensures [text] imp(TXT, result0 == M && iff(result1 != nil, E))
  ensures [accepts] imp(BIN, result1 == nil && len(result0.Triangles) == u32(80))
  ensures [records] imp(BIN, forall(k, trig(result0.Triangles[k]), imp(0 <= k && k < u32(80), result0.Triangles[k].V1.Position == vec32(96 + 50 * k) && result0.Triangles[k].V2.Position == vec32(108 + 50 * k) && result0.Triangles[k].V3.Position == vec32(120 + 50 * k))))
