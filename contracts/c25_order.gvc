# C25: the order used to sort triangles

define lex9(a1, a2, a3, a4, a5, a6, a7, a8, a9, b1, b2, b3, b4, b5, b6, b7, b8, b9) =
    a1 < b1 || (a1 == b1 && (a2 < b2 || (a2 == b2 && (a3 < b3 || (a3 == b3 && (a4 < b4 || (a4 == b4 && (a5 < b5 || (a5 == b5 &&
    (a6 < b6 || (a6 == b6 && (a7 < b7 || (a7 == b7 && (a8 < b8 || (a8 == b8 && a9 < b9)))))))))))))))
define posLess(p1, p2, p3, q1, q2, q3) = lex9(p1.Z, p1.Y, p1.X, p2.Z, p2.Y, p2.X, p3.Z, p3.Y, p3.X, q1.Z, q1.Y, q1.X, q2.Z, q2.Y, q2.X, q3.Z, q3.Y, q3.X)
define triLess(s, t) = posLess(s.V1.Position, s.V2.Position, s.V3.Position, t.V1.Position, t.V2.Position, t.V3.Position)

func binvox:TriangleLess$1
  props C25
  requires 0 <= a && a < len(t) && 0 <= b && b < len(t)
  requires forall(i, imp(0 <= i && i < len(t), t[i] != nil))
  ensures [lexicographic] result == triLess(t[a], t[b])

# order laws of the specified comparison
lemma lessIrreflexive(p1 gl.Vector, p2 gl.Vector, p3 gl.Vector) binvox
  props C25
  ensures !posLess(p1, p2, p3, p1, p2, p3)

lemma lessAsymmetric(p1 gl.Vector, p2 gl.Vector, p3 gl.Vector, q1 gl.Vector, q2 gl.Vector, q3 gl.Vector) binvox
  props C25
  requires posLess(p1, p2, p3, q1, q2, q3)
  ensures !posLess(q1, q2, q3, p1, p2, p3)

lemma lessTransitive(p1 gl.Vector, p2 gl.Vector, p3 gl.Vector, q1 gl.Vector, q2 gl.Vector, q3 gl.Vector, r1 gl.Vector, r2 gl.Vector, r3 gl.Vector) binvox
  props C25
  requires posLess(p1, p2, p3, q1, q2, q3) && posLess(q1, q2, q3, r1, r2, r3)
  ensures posLess(p1, p2, p3, r1, r2, r3)

lemma lessTotal(p1 gl.Vector, p2 gl.Vector, p3 gl.Vector, q1 gl.Vector, q2 gl.Vector, q3 gl.Vector) binvox
  props C25
  requires !posLess(p1, p2, p3, q1, q2, q3) && !posLess(q1, q2, q3, p1, p2, p3)
  ensures p1 == q1 && p2 == q2 && p3 == q3
