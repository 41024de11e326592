# C03, C05: what was written reads back

extern os.Open (name) (f, err)
  ensures imp(err == nil, f != nil && fresh(f))

# the file named is what is decoded, with the window asked for
func binvox:Read
  props C01, C03
  ghost FILE *os.File = nil
  ghost OK bool = false
  ghost M *BinVOX = nil
  on call Open(name): assert [name] name == filename
  on ret Open(name, f, err): set FILE = f
  on call read(r, x, y, z, i, j, k): assert [window] istype(r, *os.File) && unbox(r, *os.File) == FILE && x == sx && y == sy && z == sz && i == nx && j == ny && k == nz
  on ret read(r, x, y, z, i, j, k, m, err): set OK = err == nil
  on ret read(r, x, y, z, i, j, k, m, err): set M = m
  ensures [model] imp(result1 == nil, OK && result0 == M && M != nil)
  ensures [error] imp(OK, result1 == nil)

func vshell:Read
  props C04, C05
  modifies heap(uint32)
  modifies heap(uint16)
  ghost FILE *os.File = nil
  ghost OK bool = false
  ghost M *VShell = nil
  on call Open(name): assert [name] name == filename
  on ret Open(name, f, err): set FILE = f
  on call read(r, x, y, z, i, j, k): assert [window] istype(r, *os.File) && unbox(r, *os.File) == FILE && x == sx && y == sy && z == sz && i == nx && j == ny && k == nz
  on ret read(r, x, y, z, i, j, k, m, err): set OK = err == nil
  on ret read(r, x, y, z, i, j, k, m, err): set M = m
  ensures [model] imp(result1 == nil, OK && result0 == M && M != nil)
  ensures [error] imp(OK, result1 == nil)

# Run j of a file has value RV(j) and count RC(j); S(j) is its first cell.
# A(p) is what the writer's contract says of cell p, B(p) what the reader's contract says.
ufun RV(int) int
ufun RC(int) int
ufun S(int) int
ufun A(int) int
ufun B(int) int

lemma sameCells(n int)
  props C03, C05
  requires n >= 0 && S(0) == 0
  requires forall(j, trig(S(j + 1)), imp(0 <= j && j < n, S(j + 1) == S(j) + RC(j) && RC(j) >= 0))
  requires forall(j, p, trig(S(j), A(p)), imp(0 <= j && j < n && S(j) <= p && p < S(j) + RC(j), A(p) == RV(j)))
  requires forall(j, p, trig(S(j), B(p)), imp(0 <= j && j < n && S(j) <= p && p < S(j) + RC(j), B(p) == RV(j)))
  induct n
  ensures forall(p, trig(A(p)), imp(0 <= p && p < S(n), A(p) == B(p)))

# cell (x, y, z) of a grid has position (x * nz + z) * ny + y: positions are in the order of the cells, all below nx * nz * ny
lemma cellOrder(ny int, nz int, x int, y int, z int, u int, v int, w int)
  props C01, C02, C03, C04, C05
  requires ny > 0 && nz > 0 && 0 <= y && y < ny && 0 <= v && v < ny && 0 <= z && z < nz && 0 <= w && w < nz
  requires before(x, y, z, u, v, w)
  ensures (x * nz + z) * ny + y < (u * nz + w) * ny + v
