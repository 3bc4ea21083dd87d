-------------------------------- MODULE Mesh --------------------------------
(* The meaning of a mesh record (see MeshGen): incidence, ownership, exact     *)
(* geometry, sides, wedges and corners, halos and tile ownership.             *)
EXTENDS MeshGen

NC(m) == Len(m.cn)  NF(m) == Len(m.fn)  NE(m) == Len(m.en)  NN(m) == Len(m.X)
Cells(m) == Ids(NC(m))  Faces(m) == Ids(NF(m))  Edges(m) == Ids(NE(m))  Nodes(m) == Ids(NN(m))

(* ---- incidence ---- *)
NodesOfCell(m, c) == ToSet(At(m.cn, c))
FacesOfCell(m, c) == ToSet(At(m.cf, c))
EdgesOfCell(m, c) == ToSet(At(m.ce, c))
NodesOfFace(m, f) == ToSet(At(m.fn, f))
EdgesOfFace(m, f) == ToSet(At(m.fe, f))
NodesOfEdge(m, e) == ToSet(At(m.en, e))
(* upward relations, tabulated once by Enrich *)
Enrich(m) == TLCEval(m @@
  [ conT |-> TLCEval([n \in 1 .. NN(m) |-> { c \in Cells(m) : n - 1 \in NodesOfCell(m, c) }]),
    fonT |-> TLCEval([n \in 1 .. NN(m) |-> { f \in Faces(m) : n - 1 \in NodesOfFace(m, f) }]),
    cofT |-> TLCEval([f \in 1 .. NF(m) |-> { c \in Cells(m) : f - 1 \in FacesOfCell(m, c) }]) ])
CellsOfNode(m, n) == At(m.conT, n)
FacesOfNode(m, n) == At(m.fonT, n)
CellsOfFace(m, f) == At(m.cofT, f)
CellFacesAtNode(m, c, n) == { f \in FacesOfCell(m, c) : n \in NodesOfFace(m, f) }
FaceNbrs(m, c) == UNION { CellsOfFace(m, f) : f \in FacesOfCell(m, c) } \ { c }
NodeNbrs(m, c) == UNION { CellsOfNode(m, n) : n \in NodesOfCell(m, c) } \ { c }
Dir(m, c, f) == At(m.cd, c)[PosOf(At(m.cf, c), f)]

(* A well-formed mesh: what every incidence relation of a conforming mesh of   *)
(* polygons or polyhedra satisfies.                                           *)
OppositeDirs(m, f) == LET cs == CellsOfFace(m, f) IN
   Cardinality(cs) = 2 => \A c \in cs, d \in cs : c # d => Dir(m, c, f) = -Dir(m, d, f)
(* every edge of a cell is in two of the cell's faces, used once in each sense *)
EdgeUse(m, c, f, e) == Dir(m, c, f) * At(m.fd, f)[PosOf(At(m.fe, f), e)]
Closed(m, c) == m.dim # 3 \/ \A e \in EdgesOfCell(m, c) :
   LET fs == { f \in FacesOfCell(m, c) : e \in EdgesOfFace(m, f) } IN
   Cardinality(fs) = 2 /\ \A f \in fs, g \in fs : f # g => EdgeUse(m, c, f, e) = -EdgeUse(m, c, g, e)
WellFormedBut(m) ==
  << <<"cell lists", \A c \in Cells(m) : NoDup(At(m.cn, c)) /\ NoDup(At(m.cf, c)) /\ NodesOfCell(m, c) \subseteq Nodes(m)
                                        /\ FacesOfCell(m, c) \subseteq Faces(m) /\ Len(At(m.cd, c)) = Len(At(m.cf, c))
                                        /\ \A i \in 1 .. Len(At(m.cd, c)) : At(m.cd, c)[i] \in { -1, 1 }>>,
     <<"face lists", \A f \in Faces(m) : NoDup(At(m.fn, f)) /\ NodesOfFace(m, f) \subseteq Nodes(m)>>,
     <<"nodes of a cell are those of its faces", \A c \in Cells(m) : NodesOfCell(m, c) = UNION { NodesOfFace(m, f) : f \in FacesOfCell(m, c) }>>,
     <<"one or two cells per face", \A f \in Faces(m) : Cardinality(CellsOfFace(m, f)) \in { 1, 2 }>>,
     <<"distinct faces", m.dim = 1 \/ \A f \in Faces(m), g \in Faces(m) : f # g => NodesOfFace(m, f) # NodesOfFace(m, g)>>,
     <<"opposite directions", \A f \in Faces(m) : OppositeDirs(m, f)>> >>
EdgesFormedBut(m) ==
  << <<"edge nodes", m.dim = 1 \/ \A e \in Edges(m) : Cardinality(NodesOfEdge(m, e)) = 2 /\ NodesOfEdge(m, e) \subseteq Nodes(m)>>,
     <<"distinct edges", \A e \in Edges(m), g \in Edges(m) : e # g => NodesOfEdge(m, e) # NodesOfEdge(m, g)>>,
     <<"edges of a face go round it", m.dim = 1 \/ \A f \in Faces(m) :
          LET fn == At(m.fn, f)  fe == At(m.fe, f)  fd == At(m.fd, f)  n == Len(fn)
          IN  IF m.dim = 2 THEN Len(fe) = 1 /\ At(m.en, fe[1]) = (IF fd[1] = 1 THEN fn ELSE Reversed(fn))
              ELSE /\ Len(fe) = n /\ Len(fd) = n /\ NoDup(fe)
                   /\ \A i \in 1 .. n : At(m.en, fe[i]) = (IF fd[i] = 1 THEN << fn[i], fn[(i % n) + 1] >> ELSE << fn[(i % n) + 1], fn[i] >>)>>,
     <<"edges of a cell are those of its faces", \A c \in Cells(m) : NoDup(At(m.ce, c)) /\
          (EdgesOfCell(m, c) = IF m.dim = 1 THEN FacesOfCell(m, c) ELSE UNION { EdgesOfFace(m, f) : f \in FacesOfCell(m, c) })>>,
     <<"closed cells", \A c \in Cells(m) : Closed(m, c)>> >>
WellFormed(m) == Failing(WellFormedBut(m)) \cup Failing(EdgesFormedBut(m)) = {}

Surface(m) == m.dim = 2 /\ m.sdim = 3
(* ---- exact geometry, from coordinates X (integers) ---- *)
P(X, n) == At(X, n)
Pts(X, l) == [i \in 1 .. Len(l) |-> At(X, l[i])]
Nx(s, i) == s[(i % Len(s)) + 1]

(* twice the area of a plane polygon, and its centroid in thousandths *)
Area2(p) == Sum([i \in 1 .. Len(p) |-> Cross2(VSub(p[i], p[1]), VSub(Nx(p, i), p[1]))])
Centroid2(p) ==
  LET a == Area2(p)
      w == [i \in 1 .. Len(p) |-> Cross2(VSub(p[i], p[1]), VSub(Nx(p, i), p[1]))]
  IN  [k \in 1 .. 2 |-> S * p[1][k] + FixDiv(Sum([i \in 1 .. Len(p) |-> w[i] * ((p[i][k] - p[1][k]) + (Nx(p, i)[k] - p[1][k]))]), 3 * a)]
(* twice the area vector of a polygon in space, and its centroid *)
AreaVec2(p) == LET t == TLCEval([i \in 1 .. Len(p) |-> Cross3(VSub(p[i], p[1]), VSub(Nx(p, i), p[1]))])
               IN  TLCEval(VSum(t, 3))
BigAxis(v) == CHOOSE k \in 1 .. 3 : \A j \in 1 .. 3 : Abs(v[k]) >= Abs(v[j])
FaceCentroid3(p) ==
  LET n == AreaVec2(p)  x == BigAxis(n)
      w == TLCEval([i \in 1 .. Len(p) |-> Cross3(VSub(p[i], p[1]), VSub(Nx(p, i), p[1]))[x]])
  IN  TLCEval([k \in 1 .. 3 |-> S * p[1][k] + FixDiv(Sum([i \in 1 .. Len(p) |-> w[i] * ((p[i][k] - p[1][k]) + (Nx(p, i)[k] - p[1][k]))]), 3 * n[x])])
(* a face through whose nodes no plane goes is the triangles from the mean of  *)
(* its nodes to its edges (here for faces of four nodes)                      *)
Plane(p) == LET a == AreaVec2(p) IN \A i \in 1 .. Len(p) : Dot(a, VSub(p[i], p[1])) = 0
RECURSIVE RootFrom(_, _, _)
RootFrom(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= n THEN RootFrom(n, k, hi) ELSE RootFrom(n, lo, k)
Root(n) == RootFrom(n, 0, 46341)
LongRoot(n) == IF n < 200000 THEN Root(10000 * n) ELSE IF n < 20000000 THEN 10 * Root(100 * n) ELSE 100 * Root(n)     \* in hundredths
(* the triangles of such a face: weights (3200 areas) and sums of corners (times 4) *)
Facets4(p) == LET c == VSum(p, 3) IN TLCEval([i \in 1 .. 4 |->
     LET v == Cross3(VSub(VScale(4, p[i]), c), VSub(VScale(4, Nx(p, i)), c)) IN << LongRoot(Dot(v, v)), VAdd(c, VScale(4, VAdd(p[i], Nx(p, i)))) >>])
CurvedCentroid(p) ==
  LET q == [i \in 1 .. 4 |-> VSub(p[i], p[1])]  t == Facets4(q)  w == Sum([i \in 1 .. 4 |-> t[i][1] \div 4]) IN
  [k \in 1 .. 3 |-> S * p[1][k] + FixDiv(Sum([i \in 1 .. 4 |-> (t[i][1] \div 4) * t[i][2][k]]), 12 * w)]
CurvedArea(p) == (5 * Sum([i \in 1 .. 4 |-> Facets4([j \in 1 .. 4 |-> VSub(p[j], p[1])])[i][1]])) \div 16        \* thousandths
Curved(m, X, f) == m.dim = 3 /\ Len(At(m.fn, f)) = 4 /\ ~ Plane(Pts(X, At(m.fn, f)))
CurvedCell(m, X, c) == m.dim = 3 /\ \E f \in FacesOfCell(m, c) : Curved(m, X, f)
(* six times the volume of a cell and its centroid: pyramids over triangulated *)
(* faces with the first node as apex; 24 times when a face is curved          *)
VolMul(m, X, c) == IF CurvedCell(m, X, c) THEN 4 ELSE 1
CellTets(m, X, c) ==
  LET o == P(X, At(m.cn, c)[1])
      k == VolMul(m, X, c)
      tri(i) == LET f == At(m.cf, c)[i]  d == At(m.cd, c)[i]
                    fp == TLCEval([j \in 1 .. Len(At(m.fn, f)) |-> VSub(P(X, At(m.fn, f)[j]), o)])  z == VSum(fp, 3)
                IN  IF k = 4 /\ Curved(m, X, f)
                    THEN [j \in 1 .. 4 |-> << d * Det3(fp[j], Nx(fp, j), z), VAdd(z, VScale(4, VAdd(fp[j], Nx(fp, j)))) >>]
                    ELSE [j \in 1 .. Len(fp) - 2 |->
                      LET u == fp[1]  v == fp[j + 1]  w == fp[j + 2]
                      IN  << d * k * Det3(u, v, w), VScale(k, VAdd(u, VAdd(v, w))) >>]
  IN  TLCEval(FoldLeft(LAMBDA acc, i : acc \o tri(i), << >>, [i \in 1 .. Len(At(m.cf, c)) |-> i]))
Cube(x) == x * x * x
(* volume times VDen: 1 in 1D, 2 in 2D, 6 or 24 in 3D                         *)
VDen(m, X, c) == IF m.dim = 3 THEN 6 * VolMul(m, X, c) ELSE IF m.dim = 2 THEN 2 ELSE 1
CellVolN(m, X, c, sph) ==
  IF m.dim = 3 THEN LET t == CellTets(m, X, c) IN Sum([i \in 1 .. Len(t) |-> t[i][1]])
  ELSE IF m.dim = 2 /\ m.sdim = 3 THEN LET a == AreaVec2(Pts(X, At(m.cn, c))) IN Dot(a, a)   \* of a surface: (2 area)^2
  ELSE IF m.dim = 2 THEN Area2(Pts(X, At(m.cn, c)))
  ELSE LET a == P(X, At(m.cn, c)[1])[1]  b == P(X, At(m.cn, c)[2])[1]
       IN  IF sph THEN Cube(b) - Cube(a) ELSE b - a           \* unit 4 pi / 3
CellVol(m, X, c, sph) == FixDiv(CellVolN(m, X, c, sph), VDen(m, X, c))      \* thousandths
CellCentroid(m, X, c) ==
  IF m.dim = 3 THEN
     LET t == CellTets(m, X, c)  o == P(X, At(m.cn, c)[1])
         v == Sum([i \in 1 .. Len(t) |-> t[i][1]])
     IN  TLCEval([k \in 1 .. 3 |-> S * o[k] + FixDiv(Sum([i \in 1 .. Len(t) |-> t[i][1] * t[i][2][k]]), 4 * VolMul(m, X, c) * v)])
  ELSE IF m.dim = 2 /\ m.sdim = 3 THEN FaceCentroid3(Pts(X, At(m.cn, c)))
  ELSE IF m.dim = 2 THEN Centroid2(Pts(X, At(m.cn, c)))
  ELSE << FixDiv(P(X, At(m.cn, c)[1])[1] + P(X, At(m.cn, c)[2])[1], 2) >>
(* the natural normal of a face, times NDen: 1 in 1D and 2D, 2 in 3D          *)
NDen(m) == IF m.dim = 3 THEN 2 ELSE 1
FaceNormalN(m, X, f, sph) ==
  IF m.dim = 3 THEN AreaVec2(Pts(X, At(m.fn, f)))
  ELSE IF m.dim = 2 THEN LET p == Pts(X, At(m.fn, f)) IN << p[2][2] - p[1][2], p[1][1] - p[2][1] >>
  ELSE << IF sph THEN P(X, At(m.fn, f)[1])[1] * P(X, At(m.fn, f)[1])[1] ELSE 1 >>      \* unit 4 pi
FaceCentroid(m, X, f) ==
  IF Curved(m, X, f) THEN CurvedCentroid(Pts(X, At(m.fn, f)))
  ELSE IF m.dim = 3 THEN FaceCentroid3(Pts(X, At(m.fn, f)))
  ELSE IF m.dim = 2 THEN LET p == Pts(X, At(m.fn, f)) IN [k \in 1 .. m.sdim |-> FixDiv(p[1][k] + p[2][k], 2)]
  ELSE VScale(S, P(X, At(m.fn, f)[1]))
(* four times the squared area of a face (one side of the square) *)
FaceAreaSq4(m, X, f, sph) == IF Surface(m) THEN LET p == Pts(X, At(m.fn, f)) d == VSub(p[2], p[1]) IN 4 * Dot(d, d) ELSE LET n == FaceNormalN(m, X, f, sph) IN IF m.dim = 3 THEN Dot(n, n) ELSE 4 * Dot(n, n)
EdgeVec(m, X, e) == VSub(P(X, At(m.en, e)[2]), P(X, At(m.en, e)[1]))
EdgeMid(m, X, e) == [k \in 1 .. m.sdim |-> FixDiv(P(X, At(m.en, e)[1])[k] + P(X, At(m.en, e)[2])[k], 2)]

(* in a surface: in the plane of the cell, across the edge, scaled by twice the cell's area *)
SurfN(m, X, c, f) == LET p == Pts(X, At(m.fn, f)) IN Cross3(VSub(p[2], p[1]), AreaVec2(Pts(X, At(m.cn, c))))
OutN(m, X, c, f) == IF Surface(m) THEN VScale(Dir(m, c, f), SurfN(m, X, c, f)) ELSE VScale(Dir(m, c, f), FaceNormalN(m, X, f, FALSE))
Below0(m, X, c, f, q) == Dot(OutN(m, X, c, f), VSub(q, P(X, At(m.fn, f)[1])))   \* <0: inside of f
(* The shape of a cell. Cut from the mean of its nodes (and those of the means  *)
(* of its faces' nodes) it falls into triangles (tetrahedra): "good" when all  *)
(* of them are the right way round, "bad" when one is inverted, "thin" when    *)
(* one is flat, "unknown" when a face is curved and not of four nodes of eight *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cuts2(p) == LET n == Len(p)  z == VSum(p, 2)  q == TLCEval([i \in 1 .. n |-> VSub(VScale(n, p[i]), z)]) IN { Sgn(Cross2(q[i], Nx(q, i))) : i \in 1 .. n }
CutsP(p, a) == IF Len(p) = 3 THEN { Sgn(Dot(a, a)) }            \* of a plane polygon, seen along a
               ELSE LET n == Len(p)  z == VSum(p, 3)  q == TLCEval([i \in 1 .. n |-> VSub(VScale(n, p[i]), z)]) IN { Sgn(Dot(a, Cross3(q[i], Nx(q, i)))) : i \in 1 .. n }
CutsOfFace(m, X, c, f) ==
  LET d == Dir(m, c, f)  p == Pts(X, At(m.fn, f))  a == AreaVec2(p)  cp == Pts(X, At(m.cn, c))  n == Len(cp)  z == VSum(cp, 3) IN
  IF Len(p) = 3 \/ Plane(p) THEN { -d * Sgn(Dot(a, VSub(z, VScale(n, p[1])))) * x : x \in CutsP(p, a) }
  ELSE IF n # 8 \/ Len(p) # 4 THEN { 2 }
  ELSE LET fz == VScale(2, VSum(p, 3))  q == TLCEval([i \in 1 .. 4 |-> VSub(VScale(8, p[i]), z)]) IN { d * Sgn(Det3(q[i], Nx(q, i), VSub(fz, z))) : i \in 1 .. 4 }
CellShape(m, X, c) ==
  LET cuts == IF m.dim = 1 THEN { Sgn(CellVolN(m, X, c, FALSE)) }
              ELSE IF Surface(m) THEN LET p == Pts(X, At(m.cn, c)) IN IF Plane(p) THEN CutsP(p, AreaVec2(p)) ELSE { 2 }
              ELSE IF m.dim = 2 THEN Cuts2(Pts(X, At(m.cn, c)))
              ELSE UNION { CutsOfFace(m, X, c, f) : f \in FacesOfCell(m, c) }
  IN IF 2 \in cuts THEN "unknown" ELSE IF cuts = { 1 } THEN "good" ELSE IF -1 \in cuts THEN "bad" ELSE "thin"
(* the same from the centroid: all sides of the cell have a positive volume   *)
Tenths(v) == [k \in 1 .. Len(v) |-> (v[k] + 50) \div 100]
SidesGood(m, X, c) ==
  LET cc == CellCentroid(m, X, c)  off(q) == Tenths(VSub(q, cc))  at(n) == off(VScale(S, P(X, n))) IN
  m.dim = 1 \/ Surface(m) \/
  IF m.dim = 2 THEN LET p == At(m.cn, c) IN \A i \in 1 .. Len(p) : Cross2(at(p[i]), at(Nx(p, i))) > 20
  ELSE \A f \in FacesOfCell(m, c) : LET p == At(m.fn, f)  d == Dir(m, c, f)  fc == off(FaceCentroid(m, X, f)) IN
          \A i \in 1 .. Len(p) : d * Det3(at(p[i]), at(Nx(p, i)), fc) > 200
ValidCell(m, X, c) == CellShape(m, X, c) = "good" /\ SidesGood(m, X, c)
Valid(m, X) == \A c \in Cells(m) : ValidCell(m, X, c)
(* plane faces, and all nodes on or behind each                               *)
Convex(m, X, c) == m.dim = 1 \/ \A f \in FacesOfCell(m, c) :
       /\ \A n \in NodesOfCell(m, c) : Below0(m, X, c, f, P(X, n)) <= 0
       /\ \A n \in NodesOfFace(m, f) : Below0(m, X, c, f, P(X, n)) = 0

(* ---- polygons, by their nodes in order ---- *)
Edge2(pts, i) == VSub(Nx(pts, i), pts[i])
OnBorder(pts, q) == \E i \in 1 .. Len(pts) : LET u == Edge2(pts, i)  w == VSub(q, pts[i]) IN Cross2(u, w) = 0 /\ 0 <= Dot(u, w) /\ Dot(u, w) <= Dot(u, u)
CrossedBy(pts, q) == Cardinality({ i \in 1 .. Len(pts) :
    LET s == pts[i]  t == Nx(pts, i)  lhs == (q[1] - s[1]) * (t[2] - s[2])  rhs == (q[2] - s[2]) * (t[1] - s[1])
    IN (s[2] > q[2]) # (t[2] > q[2]) /\ IF t[2] > s[2] THEN lhs < rhs ELSE lhs > rhs })
(* 1 inside, 0 outside, -1 on the boundary *)
InShape2(pts, q) == IF OnBorder(pts, q) THEN -1 ELSE CrossedBy(pts, q) % 2
(* position of a point q/den in a cell, convex or plane: -1 inside, 0 on the   *)
(* boundary, 1 out                                                            *)
WhereIn(m, X, c, q, den) ==
  IF m.dim = 2 /\ m.sdim = 2 THEN LET w == InShape2([i \in 1 .. Len(At(m.cn, c)) |-> VScale(den, P(X, At(m.cn, c)[i]))], q) IN IF w = 1 THEN -1 ELSE IF w = 0 THEN 1 ELSE 0
  ELSE
  LET s == { Dot(OutN(m, X, c, f), VSub(q, VScale(den, P(X, At(m.fn, f)[1])))) : f \in FacesOfCell(m, c) }
  IN  IF \A v \in s : v < 0 THEN -1 ELSE IF \E v \in s : v > 0 THEN 1 ELSE 0
\* (in one dimension the direction of a face is that of the axis)

(* ---- sides, wedges and corners, by what they are made of ---- *)
SidesOf(m, c) ==
  IF m.dim = 1 THEN { << c, f, f >> : f \in FacesOfCell(m, c) }
  ELSE { << c, fe[1], fe[2] >> : fe \in UNION { { << f, e >> : e \in EdgesOfFace(m, f) } : f \in FacesOfCell(m, c) } }
AllSides(m) == UNION { SidesOf(m, c) : c \in Cells(m) }
HasOpp(m, s) == Cardinality(CellsOfFace(m, s[2])) = 2
OppSide(m, s) == << CHOOSE c \in CellsOfFace(m, s[2]) : c # s[1], s[2], s[3] >>
(* the order of a side's two nodes: along the cell's boundary in 2D; in 3D the *)
(* triangle node 0, node 1, face centre looks into the cell                   *)
SideNodes(m, s) ==
  IF m.dim = 1 THEN << At(m.en, s[3])[1], At(m.en, s[3])[1] >>
  ELSE LET a == At(m.en, s[3])[1]  b == At(m.en, s[3])[2] IN
       IF m.dim = 2 THEN IF EdgeUse(m, s[1], s[2], s[3]) = 1 THEN << a, b >> ELSE << b, a >>
       ELSE IF EdgeUse(m, s[1], s[2], s[3]) = 1 THEN << b, a >> ELSE << a, b >>
WedgesOf(m, s) == { << s[1], s[2], s[3], i >> : i \in { 1, 2 } }
CornersOf(m, c) == { << c, n >> : n \in NodesOfCell(m, c) }

(* ---- ownership ---- *)
ClassOf(m, kind, e) == CASE kind = "node" -> At(m.nt, e) [] kind = "edge" -> At(m.et, e)
                         [] kind = "face" -> At(m.ft, e) [] kind = "cell" -> At(m.tp, e)

(* ---- tiles: own = sequence of disjoint sets of cells ---- *)
RECURSIVE Grow(_, _, _)
Grow(m, set, n) == IF n = 0 THEN set
                   ELSE Grow(m, TLCEval(set \cup UNION { NodeNbrs(m, c) : c \in set }), n - 1)
Halo(m, own, n) == Grow(m, own, n) \ own

(* tiles made by the user: disjoint sets of owned cells of a mesh without     *)
(* tiles of its own, each with its own halo and kinds                         *)
CellCount(m) == IF m.fam = "s1" THEN Len(m.x) - 1 ELSE IF m.fam = "s3" THEN m.n[1] * m.n[2] * m.n[3] ELSE NC(m)
Owned(m) == { c \in 0 .. CellCount(m) - 1 : m.fam # "h" \/ At(m.tp, c) = OWNED }
Kinds7(sd, o, j) ==      \* node, edge, face, cell, side, wedge, corner
  LET f == o.faces \/ o.sides \/ o.wedges \/ o.corners  e == o.edges \/ o.sides \/ o.wedges \/ o.corners
      on(k) == Below(sd, 5000 + 10 * j + k, 4) # 0
  IN  << TRUE, e /\ on(2), f /\ on(3), TRUE, (o.sides \/ o.wedges \/ o.corners) /\ on(5), (o.wedges \/ o.corners) /\ on(6), o.corners /\ on(7) >>
UserTiles(sd, m, o) ==
  LET lone == Below(sd, 5004, 3) = 0 /\ m.fam = "h" /\ Owned(m) # {}       \* a tile in the midst of the others, made last
      mid == TLCEval(LET deg(c) == Cardinality({ x \in 1 .. NC(m) : ToSet(m.cn[x]) \cap ToSet(At(m.cn, c)) # {} }) IN CHOOSE c \in Owned(m) : \A x \in Owned(m) : deg(c) >= deg(x))
      nt == IF lone THEN 2 ELSE 1 + Below(sd, 5001, 4)
      tile == IF lone THEN [c \in Owned(m) |-> IF c = mid THEN 1 ELSE 0] ELSE TLCEval([c \in Owned(m) |-> IF Below(sd, 5002, 3) = 0 THEN (c * nt) \div CellCount(m) ELSE Below(sd, 5100 + c, nt + 1)])
      list(j) == LET q == SetToSortSeq({ c \in DOMAIN tile : tile[c] = j }, LAMBDA a, b : a < b)   how == Below(sd, 5003 + j, 4)
                 IN IF how = 0 THEN q ELSE IF how = 1 THEN Reverse(q) ELSE LET p == Perm(sd + 5300 + j, Len(q)) IN [k \in 1 .. Len(q) |-> q[p[k] + 1]]
  IN  TLCEval([j \in 1 .. nt |-> [cells |-> list(j - 1), halo |-> Below(sd, 5020 + j, 4), has |-> Kinds7(sd, o, j)]])
=============================================================================
