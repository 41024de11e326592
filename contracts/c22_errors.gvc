# C22: an export that reports success had no failed write (voxcut's writer: c23_vox.gvc)
# failed: some write so far has failed (ghostvar of c23_vox.gvc)

extern (*os.File).Close (f) (err)
  modifies failed
  ensures failed == (old(failed) || err != nil)

extern os.Create (name) (f, err)
  ensures imp(err == nil, f != nil && fresh(f))

func binvox:(*BinVOX).write #errors
  props C22
  ghost failed bool = false
  loop 1: inv [ok] !failed
  ensures [reported] imp(result1 == nil, !failed)

# BAD: creating, writing or closing the file failed; CLOSED: it was closed after it was written
func binvox:(*BinVOX).Write
  props C22
  requires b != nil && b.NX >= 0 && b.NY >= 0 && b.NZ >= 0 && nx >= 0 && ny >= 0 && nz >= 0
  ghost BAD bool = false
  ghost FILE *os.File = nil
  ghost WROTE bool = false
  ghost CLOSED bool = false
  on ret Create(name, f, err): set BAD = BAD || err != nil || name != filename
  on ret Create(name, f, err): set FILE = f
  on call write(r, w, x, y, z, i, j, k): assert [window] r == b && istype(w, *os.File) && unbox(w, *os.File) == FILE && x == sx && y == sy && z == sz && i == nx && j == ny && k == nz
  on ret write(r, w, x, y, z, i, j, k, n, err): set BAD = BAD || err != nil
  on ret write(r, w, x, y, z, i, j, k, n, err): set WROTE = true
  on ret Close(f, err): set BAD = BAD || err != nil
  on ret Close(f, err): set CLOSED = WROTE && f == FILE
  ensures [reported] imp(result == nil, !BAD && CLOSED)

func vshell:(*VShell).write #errors
  props C22
  ghost failed bool = false
  loop 1: inv [a] true
  loop 2: inv [ok] !failed
  ensures [reported] imp(result1 == nil, !failed)

func vshell:(*VShell).Write
  props C22
  requires b != nil && b.NX >= 0 && b.NY >= 0 && b.NZ >= 0 && nx >= 0 && ny >= 0 && nz >= 0
  ghost BAD bool = false
  ghost FILE *os.File = nil
  ghost WROTE bool = false
  ghost CLOSED bool = false
  on ret Create(name, f, err): set BAD = BAD || err != nil || name != filename
  on ret Create(name, f, err): set FILE = f
  on call write(r, w, x, y, z, i, j, k): assert [window] r == b && istype(w, *os.File) && unbox(w, *os.File) == FILE && x == sx && y == sy && z == sz && i == nx && j == ny && k == nz
  on ret write(r, w, x, y, z, i, j, k, n, err): set BAD = BAD || err != nil
  on ret write(r, w, x, y, z, i, j, k, n, err): set WROTE = true
  on ret Close(f, err): set BAD = BAD || err != nil
  on ret Close(f, err): set CLOSED = WROTE && f == FILE
  ensures [reported] imp(result == nil, !BAD && CLOSED)
