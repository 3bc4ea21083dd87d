------------------------------- MODULE Shapes -------------------------------
(* Vectors in registers, and the measures of segments, polygons and           *)
(* polyhedra. Coordinates of registers are integers in sixteenths.            *)
EXTENDS Mesh

U == 16
(* ---- registers ---- *)
Put(rg, h, v) == IF h >= Len(rg) THEN Append(rg, v) ELSE [rg EXCEPT ![h + 1] = v]
V(rg, h) == rg[h + 1]
AfterPt(rg, op) ==
  CASE op.op = "mk" -> Append(rg, IF op.how = "n" THEN VZero(op.n) ELSE IF op.how = "copy" THEN V(rg, op.a) ELSE op.v)
    [] op.op = "set" -> Put(rg, op.h, IF op.how = "all" THEN [k \in 1 .. Len(V(rg, op.h)) |-> op.v[1]] ELSE IF op.how = "pt" THEN V(rg, op.a)
                                      ELSE IF op.how = "swap" THEN LET x == V(rg, op.h) IN [k \in 1 .. Len(x) |-> x[Len(x) + 1 - k]] ELSE op.v)
    [] op.op = "asg" -> Put(rg, op.h, V(rg, op.a))
    [] op.op = "at" -> Put(rg, op.h, [V(rg, op.h) EXCEPT ![op.i + 1] = op.v[1]])
    [] op.op = "add=" -> Put(rg, op.h, VAdd(V(rg, op.h), V(rg, op.a)))
    [] op.op = "sub=" -> Put(rg, op.h, VSub(V(rg, op.h), V(rg, op.a)))
    [] op.op = "mul=" -> Put(rg, op.h, VScale(op.c, V(rg, op.h)))
    [] op.op = "div=" -> Put(rg, op.h, [k \in 1 .. Len(V(rg, op.h)) |-> V(rg, op.h)[k] \div op.c])
    [] op.op = "mulby=" -> Put(rg, op.h, LET x == V(rg, op.h) IN [k \in 1 .. Len(x) |-> (x[k] * x[op.i + 1]) \div U])
    [] op.op = "add" -> Put(rg, op.h, VAdd(V(rg, op.a), V(rg, op.b)))
    [] op.op = "sub" -> Put(rg, op.h, VSub(V(rg, op.a), V(rg, op.b)))
    [] op.op = "neg" -> Put(rg, op.h, VNeg(V(rg, op.a)))
    [] op.op \in { "rmul", "mulr" } -> Put(rg, op.h, VScale(op.c, V(rg, op.a)))
    [] op.op = "div" -> Put(rg, op.h, [k \in 1 .. Len(V(rg, op.a)) |-> V(rg, op.a)[k] \div op.c])
    [] OTHER -> rg
(* products, in units of 1/(U*U) *)
Cross(a, b) == IF Len(a) = 3 THEN Cross3(a, b) ELSE IF Len(a) = 2 THEN << Cross2(a, b), 0 >> ELSE VZero(Len(a))
Printed(v) == IF v = << >> THEN "0" ELSE FoldLeft(LAMBDA acc, k : IF k = 1 THEN ToString(v[1] \div U) ELSE acc \o " " \o ToString(v[k] \div U), "", [k \in 1 .. Len(v) |-> k])
WholeV(v) == \A k \in 1 .. Len(v) : v[k] % U = 0
RegOK(v, o) ==
  /\ o.dim = Len(v) /\ o.c = v
  /\ o.xyz = [k \in 1 .. 3 |-> IF k <= Len(v) THEN v[k] ELSE 0]
  /\ o.ok = (Len(v) \in 1 .. 3)
  /\ v # << >> /\ WholeV(v) => o.s = Printed(v)
QueryOK(rg, op, e) ==
  LET a == V(rg, op.a)  b == V(rg, op.b) IN
  << <<"dot product", e.dot = Dot(a, b) /\ e.dot2 = Dot(a, b)>>, <<"cross product", e.cross = Cross(a, b)>>,
     <<"length", e.l22 = Dot(a, a) /\ Close(e.nn, Dot(a, a))>> >>

(* ---- polygons ---- *)
(* An area or volume is exact when the shape, cut from the mean of its nodes,  *)
(* falls into pieces that are all the right way round, or all inverted; when   *)
(* only some are inverted, it is not positive                                 *)
PolygonOK(op, e) ==
  LET p == op.pts IN
  IF Len(p[1]) = 2
  THEN LET a == Area2(p)  cuts == Cuts2(p)  even == cuts \in { { 1 }, { -1 } } IN
       << <<"area", ~ even \/ Close(e.area, FixDiv(a, 2))>>, <<"centroid", ~ even \/ VNear(e.cen, Centroid2(p), Tol)>>, <<"normal", VClose(e.nrm, << FixDiv(a, 2), 0 >>)>>,
          <<"area of an inverted polygon", -1 \notin cuts \/ e.area < 0>>,
          <<"inside", \A k \in 1 .. Len(op.ask) : LET w == InShape2([i \in 1 .. Len(p) |-> VScale(4, p[i])], op.ask[k]) IN w = -1 \/ e.in[k] = w>> >>
  ELSE LET n == AreaVec2(p) IN
       << <<"area", e.area >= 0 /\ IF Plane(p) THEN CutsP(p, n) # { 1 } \/ Close(e.a4, 100 * Dot(n, n))
                                    ELSE Len(p) # 4 \/ LET a == CurvedArea(p) IN Near(e.area, a, 5 + a \div 1000)>>,
          <<"area is not less than the normal's length", Plane(p) \/ Len(p) # 4 \/ Dot(n, n) > 4000000 \/ e.area + 3 >= 5 * LongRoot(Dot(n, n))>>,
          <<"centroid", (IF Plane(p) THEN CutsP(p, n) # { 1 } ELSE Len(p) # 4) \/ VNear(e.cen, IF Plane(p) THEN FaceCentroid3(p) ELSE CurvedCentroid(p), IF Plane(p) THEN Tol ELSE 8)>>,
          <<"normal", VClose(e.nrm, [k \in 1 .. 3 |-> FixDiv(n[k], 2)])>> >>

(* ---- polyhedra, by points and outward faces ---- *)
FacePts(s, f) == [j \in 1 .. Len(f) |-> At(s.pts, f[j])]
BentFace(s, f) == Len(f) = 4 /\ ~ Plane(FacePts(s, f))
SolidMul(s) == IF \E f \in ToSet(s.faces) : BentFace(s, f) THEN 4 ELSE 1
SolidTets(s) ==
  LET o == s.pts[1]  k == SolidMul(s)
      tri(f) == LET p == TLCEval([j \in 1 .. Len(f) |-> VSub(At(s.pts, f[j]), o)])  z == VSum(p, 3) IN
                IF BentFace(s, f) THEN [j \in 1 .. 4 |-> << Det3(p[j], Nx(p, j), z), VAdd(z, VScale(4, VAdd(p[j], Nx(p, j)))) >>]
                ELSE [j \in 1 .. Len(f) - 2 |-> << k * Det3(p[1], p[j + 1], p[j + 2]), VScale(k, VAdd(p[1], VAdd(p[j + 1], p[j + 2]))) >>]
  IN TLCEval(FoldLeft(LAMBDA acc, i : acc \o tri(s.faces[i]), << >>, [i \in 1 .. Len(s.faces) |-> i]))
SixVol(s) == LET t == SolidTets(s) IN Sum([i \in 1 .. Len(t) |-> t[i][1]])      \* or 24 volumes
SolidCentroid(s) ==
  LET t == SolidTets(s)  v == Sum([i \in 1 .. Len(t) |-> t[i][1]]) IN
  [k \in 1 .. 3 |-> S * s.pts[1][k] + FixDiv(Sum([i \in 1 .. Len(t) |-> t[i][1] * t[i][2][k]]), 4 * SolidMul(s) * v)]
(* the signs of the tetrahedra from the mean of the points (2: not known)     *)
SolidCuts(s) ==
  LET n == Len(s.pts)  z == VSum(s.pts, 3)
      cut(f) == LET p == FacePts(s, f)  a == AreaVec2(p) IN
                IF Len(f) = 3 \/ Plane(p) THEN { Sgn(Dot(a, VSub(VScale(n, p[1]), z))) * x : x \in CutsP(p, a) }
                ELSE IF n # 8 \/ Len(f) # 4 THEN { 2 }
                ELSE LET q == TLCEval([i \in 1 .. 4 |-> VSub(VScale(8, p[i]), z)]) IN { Sgn(Det3(q[i], Nx(q, i), VSub(VScale(2, VSum(p, 3)), z))) : i \in 1 .. 4 }
  IN IF n = 4 THEN { Sgn(SixVol(s)) } ELSE UNION { cut(f) : f \in ToSet(s.faces) }
OutVec(s, f) == AreaVec2([j \in 1 .. Len(f) |-> At(s.pts, f[j])])
(* closed: every edge used once each way; convex: all points behind each face *)
ClosedSolid(s) ==
  LET es == FoldLeft(LAMBDA acc, i : acc \o [j \in 1 .. Len(s.faces[i]) |-> << s.faces[i][j], Nx(s.faces[i], j) >>], << >>, [i \in 1 .. Len(s.faces) |-> i])
  IN NoDup(es) /\ \A e \in ToSet(es) : << e[2], e[1] >> \in ToSet(es)
ConvexSolid(s) == \A i \in 1 .. Len(s.faces) : \A q \in ToSet(s.pts) : Dot(OutVec(s, s.faces[i]), VSub(q, At(s.pts, s.faces[i][1]))) <= 0
FlatFaces(s) == \A i \in 1 .. Len(s.faces) : \A j \in 1 .. Len(s.faces[i]) : Dot(OutVec(s, s.faces[i]), VSub(At(s.pts, s.faces[i][j]), At(s.pts, s.faces[i][1]))) = 0
InSolid(s, q, den) ==          \* 1 inside, 0 outside, -1 on the boundary
  LET d == { Dot(OutVec(s, f), VSub(q, VScale(den, At(s.pts, f[1])))) : f \in ToSet(s.faces) } IN
  IF \A x \in d : x < 0 THEN 1 ELSE IF \E x \in d : x > 0 THEN 0 ELSE -1
SolidOK(op, e) ==
  LET s == op.s  cuts == SolidCuts(s)  even == cuts \in { { 1 }, { -1 } } IN
  << <<"volume", ~ even \/ Close(e.vol, FixDiv(SixVol(s), 6 * SolidMul(s)))>>, <<"centroid", ~ even \/ VNear(e.cen, SolidCentroid(s), Tol)>>,
     <<"volume of an inverted solid", 2 \in cuts \/ -1 \notin cuts \/ e.vol <= 0>>,
     <<"inside", ~ op.convex \/ SixVol(s) < 0 \/ \A k \in 1 .. Len(op.ask) : LET w == InSolid(s, op.ask[k], 4) IN w = -1 \/ e.in[k] = w>> >>

(* ---- segments and the faces of one-dimensional meshes ---- *)
SegOK(op, e) ==
  LET a == op.a  b == op.b IN
  IF op.sph THEN << <<"volume", Close(e.vol, S * (Cube(b[1]) - Cube(a[1])))>>, <<"area", Close(e.area, S * a[1] * a[1])>> >>      \* units 4 pi / 3, 4 pi
  ELSE << <<"length", Close(e.v2, 100 * Dot(VSub(b, a), VSub(b, a)))>>, <<"middle", VNear(e.cen, [k \in 1 .. Len(a) |-> FixDiv(a[k] + b[k], 2)], 1)>>, <<"area", e.area = S>> >>

IsPtOp(op) == op.op \notin { "query", "polygon", "solid", "segment" }
Answer(rg, op, e) ==
  CASE op.op = "query" -> QueryOK(rg, op, e)
    [] op.op = "polygon" -> PolygonOK(op, e)
    [] op.op = "solid" -> SolidOK(op, e)
    [] op.op = "segment" -> SegOK(op, e)
    [] OTHER -> << >>
=============================================================================
