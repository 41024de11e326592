# C15: triangles against a layer plane

# the segment a-b is steep enough and reaches the plane
define meets(a, b, z) = (b.Z - a.Z >= 0.000000001 || a.Z - b.Z >= 0.000000001) && ((a.Z <= z && z <= b.Z) || (b.Z <= z && z <= a.Z))
# p lies on the segment a-b and on the plane
define onEdge(p, a, b, z) = p.Z == z && meets(a, b, z) &&
    (p.X - a.X) * (b.Z - a.Z) == (b.X - a.X) * (z - a.Z) &&
    (p.Y - a.Y) * (b.Z - a.Z) == (b.Y - a.Y) * (z - a.Z)

define e12(t, z) = meets(t.V1.Position, t.V2.Position, z)
define e23(t, z) = meets(t.V2.Position, t.V3.Position, z)
define e31(t, z) = meets(t.V3.Position, t.V1.Position, z)
define sliced(t, z) = (e12(t, z) && e23(t, z)) || (e12(t, z) && e31(t, z)) || (e23(t, z) && e31(t, z))
# p and q are points of the plane on two different edges of the triangle a, b, c
opaque onTwo(p gl.Vector, q gl.Vector, a gl.Vector, b gl.Vector, c gl.Vector, z real) bool binvox =
    (onEdge(p, a, b, z) && (onEdge(q, b, c, z) || onEdge(q, c, a, z))) ||
    (onEdge(p, b, c, z) && (onEdge(q, a, b, z) || onEdge(q, c, a, z))) ||
    (onEdge(p, c, a, z) && (onEdge(q, a, b, z) || onEdge(q, b, c, z)))
define onTwoOf(p, q, t, z) = onTwo(p, q, t.V1.Position, t.V2.Position, t.V3.Position, z)

func binvox:intersectSegment
  props C15
  ensures [iff] result1 == meets(v0, v1, z)
  ensures [on] imp(result1, onEdge(result0, v0, v1, z))

func binvox:intersectTriZPlane
  props C15
  requires t != nil
  reveal onTwo
  ensures [iff] result1 == sliced(t, z)
  ensures [points] imp(result1, result0 != nil && result0.tri == t && onTwoOf(result0.v1, result0.v2, t, z))
  ensures [fresh] imp(result1, fresh(result0))

# a triangle entirely on one side of the plane, or with two edges properly crossing it
lemma slicedSides(a gl.Vector, b gl.Vector, c gl.Vector, z real) binvox
  props C15
  ensures [away] imp((a.Z < z && b.Z < z && c.Z < z) || (a.Z > z && b.Z > z && c.Z > z), !meets(a, b, z) && !meets(b, c, z) && !meets(c, a, z))
  ensures [proper] imp(a.Z <= z - 0.000000001 && b.Z >= z && c.Z >= z, meets(a, b, z) && meets(c, a, z))
  ensures [proper2] imp(a.Z >= z + 0.000000001 && b.Z <= z && c.Z <= z, meets(a, b, z) && meets(c, a, z))

ufun SLICED(int) int

func binvox:intersectZPlane
  props C15
  requires mesh != nil && forall(i, imp(0 <= i && i < len(mesh.Triangles), mesh.Triangles[i] != nil))
  # SLICED(i): how many of the first i triangles are sliced
  assumes [def] SLICED(0) == 0 && forall(i, trig(SLICED(i + 1)), imp(0 <= i && i < len(mesh.Triangles), SLICED(i + 1) == SLICED(i) + ite(sliced(mesh.Triangles[i], z), 1, 0)))
  loop 1: inv [range] it1 <= len(mesh.Triangles)
  loop 1: inv [count] len(result) == SLICED(it1)
  loop 1: inv [pairs] forall(i, trig(mesh.Triangles[i]), imp(0 <= i && i < it1 && sliced(mesh.Triangles[i], z), 0 <= SLICED(i) && SLICED(i) < len(result) && result[SLICED(i)] != nil && result[SLICED(i)].tri == mesh.Triangles[i] && onTwoOf(result[SLICED(i)].v1, result[SLICED(i)].v2, mesh.Triangles[i], z)))
  loop 1: inv [valid] forall(j, trig(result[j]), imp(0 <= j && j < len(result), result[j] != nil && result[j].tri != nil))
  ensures [count] len(result) == SLICED(len(mesh.Triangles))
  ensures [valid] forall(j, trig(result[j]), imp(0 <= j && j < len(result), result[j] != nil && result[j].tri != nil))
  ensures [once] forall(i, trig(mesh.Triangles[i]), imp(0 <= i && i < len(mesh.Triangles) && sliced(mesh.Triangles[i], z), 0 <= SLICED(i) && SLICED(i) < len(result) && result[SLICED(i)].tri == mesh.Triangles[i] && onTwoOf(result[SLICED(i)].v1, result[SLICED(i)].v2, mesh.Triangles[i], z)))
