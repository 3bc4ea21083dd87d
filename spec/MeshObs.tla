------------------------------ MODULE MeshObs ------------------------------
(* What every observation of a mesh must look like, given the mesh record and *)
(* coordinates the specification says it has. Each operator yields a sequence *)
(* of named clauses.                                                          *)
EXTENDS Mesh

Filter(m, kind, set, t) == IF t = 4 THEN set ELSE { e \in set : ClassOf(m, kind, e) = t }
ALL == 4
AOG == << ALL, OWNED, GHOST >>
Listed(m, kind, lists, set) == \A i \in 1 .. Len(lists) : IsSetOf(lists[i], Filter(m, kind, set, << ALL, OWNED, GHOST, BGHOST >>[i]))
AsMap(l, d) == { << l[i], d[i] >> : i \in 1 .. Len(l) }

(* the mesh record made of the downward queries *)
ObservedMesh(o, sc) ==
  LET noe == o.ne = 0
  IN [ fam |-> "o", dim |-> IF sc.fam = "s3" THEN 3 ELSE 1, sdim |-> IF sc.fam = "s3" THEN 3 ELSE 1,
       X |-> o.X, ct |-> o.ct, cn |-> o.cn, cf |-> IF o.nf = 0 THEN Repeat(<< >>, o.nc) ELSE o.cf, cd |-> IF o.nf = 0 THEN Repeat(<< >>, o.nc) ELSE o.cd, ce |-> IF noe THEN << >> ELSE o.ce,
       fn |-> IF o.nf = 0 THEN << >> ELSE o.fn, fe |-> IF noe THEN << >> ELSE IF sc.fam = "s1" THEN [n \in 1 .. Len(o.X) |-> << n - 1 >>] ELSE o.fe,
       fd |-> IF noe THEN << >> ELSE IF sc.fam = "s1" THEN [n \in 1 .. Len(o.X) |-> << 1 >>] ELSE o.fd,
       en |-> IF noe THEN << >> ELSE o.en,
       nt |-> Repeat(OWNED, Len(o.X)), ft |-> Repeat(OWNED, o.nf),
       et |-> IF noe THEN << >> ELSE Repeat(OWNED, Len(o.en)), tp |-> Repeat(OWNED, Len(o.cn)) ]

(* ---- M01: the lattice ---- *)
Axis(sc, k, i) == S * sc.lo[k] + FixDiv((sc.hi[k] - sc.lo[k]) * i, sc.n[k])    \* i-th line of axis k
LatticeIds(sc) == Ids(sc.n[1] + 1) \X Ids(sc.n[2] + 1) \X Ids(sc.n[3] + 1)
Lattice(sc, i, j, k) == << Axis(sc, 1, i), Axis(sc, 2, j), Axis(sc, 3, k) >>
(* the index triple of a point: unique if the lines are further apart than the tolerance *)
IndexOn(sc, k, v) == { i \in Ids(sc.n[k] + 1) : Near(Axis(sc, k, i), v, Tol) }
RectOf(c, k) ==   \* the four corners of the face of brick c with low corner moved along axis k
  { << c[1] + a, c[2] + b, c[3] + e >> : a \in IF k = 1 THEN { 0 } ELSE { 0, 1 },
       b \in IF k = 2 THEN { 0 } ELSE { 0, 1 }, e \in IF k = 3 THEN { 0 } ELSE { 0, 1 } }
LatticeRects(sc) ==
  LET n == sc.n IN
  { RectOf(c, 1) : c \in Ids(n[1] + 1) \X Ids(n[2]) \X Ids(n[3]) } \cup
  { RectOf(c, 2) : c \in Ids(n[1]) \X Ids(n[2] + 1) \X Ids(n[3]) } \cup
  { RectOf(c, 3) : c \in Ids(n[1]) \X Ids(n[2]) \X Ids(n[3] + 1) }
BrickFaces(c) == { RectOf(c, 1), RectOf(c, 2), RectOf(c, 3),
                   RectOf(<< c[1] + 1, c[2], c[3] >>, 1), RectOf(<< c[1], c[2] + 1, c[3] >>, 2), RectOf(<< c[1], c[2], c[3] + 1 >>, 3) }
HexOrder(c) == LET h(a, b, e) == << c[1] + a, c[2] + b, c[3] + e >>
               IN << h(0,0,0), h(1,0,0), h(1,1,0), h(0,1,0), h(0,0,1), h(1,0,1), h(1,1,1), h(0,1,1) >>
(* round a rectangle consecutive corners differ in one coordinate            *)
Cyclic(q) == Len(q) = 4 /\ \A i \in 1 .. 4 : Cardinality({ k \in 1 .. 3 : q[i][k] # Nx(q, i)[k] }) = 1
LatticeClauses(sc, o) ==
  LET n == sc.n
      onl == \A i \in 1 .. Len(o.X) : Len(o.X[i]) = 3 /\ \A k \in 1 .. 3 : IndexOn(sc, k, o.X[i][k]) # {}
      idx == TLCEval([i \in 1 .. Len(o.X) |-> [k \in 1 .. 3 |-> CHOOSE j \in IndexOn(sc, k, o.X[i][k]) : TRUE]])
      I(l) == [q \in 1 .. Len(l) |-> idx[l[q] + 1]]
      counts == << <<"node count", o.nn = (n[1] + 1) * (n[2] + 1) * (n[3] + 1) /\ Len(o.X) = o.nn>>,
                   <<"cell count", o.nc = n[1] * n[2] * n[3] /\ Len(o.cn) = o.nc>>,
                   <<"a rectangular mesh of space", << o.sd, o.md, o.rect, o.sph >> = << 3, 3, TRUE, FALSE >> >>,
                   <<"nodes on the lattice", onl>> >>
  IN IF Failing(counts) # {} THEN counts ELSE counts \o
     << <<"one node per lattice point", Cardinality({ idx[i] : i \in 1 .. Len(o.X) }) = o.nn>>,
        <<"cells are bricks in standard order", \A c \in 1 .. o.nc : Len(o.cn[c]) = 8 /\ I(o.cn[c]) = HexOrder(I(o.cn[c])[1])>>,
        <<"one cell per brick", Cardinality({ I(o.cn[c])[1] : c \in 1 .. o.nc }) = o.nc>>,
        <<"cell type", \A c \in 1 .. o.nc : o.ct[c] = HEX>>,
        <<"cell coordinates", \A c \in 1 .. o.nc : o.cX[c] = [i \in 1 .. Len(o.cn[c]) |-> At(o.X, o.cn[c][i])]>>,
        <<"coordinates as array", o.Xa = o.X>> >>
     \o IF o.nf = 0 THEN << >> ELSE
     << <<"face count", o.nf = Cardinality(LatticeRects(sc))>>,
        <<"faces are rectangles", /\ \A f \in 1 .. o.nf : Cyclic(I(o.fn[f]))
                                  /\ { ToSet(I(o.fn[f])) : f \in 1 .. o.nf } = LatticeRects(sc)>>,
        <<"faces of a brick", \A c \in 1 .. o.nc : Len(o.cf[c]) = 6 /\
              { ToSet(I(At(o.fn, o.cf[c][q]))) : q \in 1 .. 6 } = BrickFaces(I(o.cn[c])[1])>>,
        <<"face coordinates", \A f \in 1 .. o.nf : o.fX[f] = [i \in 1 .. Len(o.fn[f]) |-> At(o.X, o.fn[f][i])]>> >>
(* o.Xn: the coordinates times the counts, which were whole numbers if fine   *)
LatticeExact(sc, o, fine) ==
  LET n == sc.n
      pt(i) == [k \in 1 .. 3 |-> LET j == CHOOSE q \in IndexOn(sc, k, o.X[i][k]) : TRUE IN sc.lo[k] * n[k] + j * (sc.hi[k] - sc.lo[k])]
  IN << <<"lattice points to the last digit", fine /\ o.Xn = [i \in 1 .. o.nn |-> pt(i)]>> >>
LineExact(fine) == << <<"nodes to the last digit", fine>> >>
LineClauses(sc, o) ==
  LET n == Len(sc.x) IN
  << <<"node count", o.nn = n /\ Len(o.X) = n>>, <<"cell count", o.nc = n - 1>>, <<"a mesh of a line", << o.sd, o.md >> = << 1, 1 >> >>,
     <<"nodes in order", \A i \in 1 .. n : o.X[i] = << S * sc.x[i] >>>>,
     <<"segments in order", o.cn = [c \in 1 .. n - 1 |-> << c - 1, c >>]>>,
     <<"cell coordinates", o.cX = [c \in 1 .. n - 1 |-> << << S * sc.x[c] >>, << S * sc.x[c + 1] >> >>]>>,
     <<"coordinates as array", o.Xa = o.X>> >>
  \o IF o.nf = 0 THEN << >> ELSE
  << <<"face count", o.nf = n>>,
     <<"faces are end points", { ToSet(o.fn[f]) : f \in 1 .. o.nf } = { { i } : i \in Ids(n) }>>,
     <<"faces of a segment", \A c \in 1 .. o.nc : { At(o.fn, o.cf[c][q])[1] : q \in 1 .. Len(o.cf[c]) } = ToSet(o.cn[c])>>,
     <<"directions of a segment", \A c \in 1 .. o.nc : { << At(o.fn, o.cf[c][q])[1], o.cd[c][q] >> : q \in 1 .. Len(o.cf[c]) } = { << c - 1, -1 >>, << c, 1 >> }>> >>

(* ---- M02: one incidence relation ---- *)
SameDownClauses(m, o, nf, ne) ==
  << <<"nodes of a cell", o.cn = m.cn>>,
     <<"cell coordinates", o.cX = [c \in 1 .. Len(o.cn) |-> [i \in 1 .. Len(o.cn[c]) |-> At(o.X, o.cn[c][i])]]>> >>
  \o IF nf = 0 THEN << >> ELSE
  << <<"number of faces", o.nf = NF(m)>>,
     <<"faces and directions of a cell", Len(o.cf) = NC(m) /\ \A c \in 1 .. NC(m) : Len(o.cf[c]) = Len(m.cf[c]) /\ Len(o.cd[c]) = Len(m.cf[c]) /\ AsMap(o.cf[c], o.cd[c]) = AsMap(m.cf[c], m.cd[c])>>,
     <<"nodes of a face", o.fn = m.fn>> >>
  \o IF ne = 0 THEN << >> ELSE
  << <<"number of edges", o.ne = NE(m)>>,
     <<"edges of a cell", Len(o.ce) = NC(m) /\ \A c \in 1 .. NC(m) : IsSetOf(o.ce[c], ToSet(m.ce[c])) >>,
     <<"nodes of an edge", o.en = m.en>>,
     <<"edges and directions of a face", m.dim = 1 \/ (Len(o.fe) = NF(m) /\ \A f \in 1 .. NF(m) : Len(o.fe[f]) = Len(m.fe[f]) /\ Len(o.fd[f]) = Len(m.fe[f]) /\ AsMap(o.fe[f], o.fd[f]) = AsMap(m.fe[f], m.fd[f]))>>,
     <<"edges and directions of a 2D cell", m.dim # 2 \/ \A c \in 1 .. NC(m) : Len(o.c2[c]) = Len(m.cf[c]) /\ Len(o.c2d[c]) = Len(m.cf[c]) /\ AsMap(o.c2[c], o.c2d[c]) = AsMap(m.cf[c], m.cd[c])>> >>
IncidenceClauses(m, o) ==
  << <<"node neighbours of a cell", \A c \in Cells(m) : Listed(m, "cell", At(o.cna, c), NodeNbrs(m, c))>>,
     <<"cells of a node", \A n \in Nodes(m) : Listed(m, "cell", At(o.nca, n), CellsOfNode(m, n))>> >>
  \o IF o.nf = 0 THEN << >> ELSE
  << <<"face neighbours of a cell", \A c \in Cells(m) : Listed(m, "cell", At(o.cfa, c), FaceNbrs(m, c))>>,
     <<"faces of a node", \A n \in Nodes(m) : Listed(m, "face", At(o.nfa, n), FacesOfNode(m, n))>>,
     <<"cells of a face", \A f \in Faces(m) : Listed(m, "cell", At(o.fc, f), CellsOfFace(m, f))>>,
     <<"faces of a cell at a node", \A n \in Nodes(m) :
          LET l == At(o.ncf, n) IN
          /\ Cardinality({ l[i][1] : i \in 1 .. Len(l) }) = Len(l) /\ { l[i][1] : i \in 1 .. Len(l) } = CellsOfNode(m, n)
          /\ \A i \in 1 .. Len(l) : Listed(m, "face", << l[i][2], l[i][3], l[i][4] >>, CellFacesAtNode(m, l[i][1], n))>>,
     <<"number of faces of a cell", \A c \in Cells(m) : At(o.cnf, c) = Len(At(m.cf, c))>>,
     <<"faces without directions", \A c \in Cells(m) : IsSetOf(At(o.cf1, c), FacesOfCell(m, c))>>,
     <<"ordered faces of a cell", \A c \in Cells(m) : Len(At(o.cfo, c)) = Len(At(m.cf, c)) /\ AsMap(At(o.cfo, c), At(o.cdo, c)) = AsMap(At(m.cf, c), At(m.cd, c))>>,
     <<"face coordinates", o.fX = [f \in 1 .. Len(o.fn) |-> [i \in 1 .. Len(o.fn[f]) |-> At(o.X, o.fn[f][i])]]>> >>
  \o IF o.ne = 0 \/ m.dim = 1 THEN << >> ELSE
  << <<"edges of a face within a cell", \A f \in Faces(m) : LET l == At(o.fce, f) IN
          /\ { l[i][1] : i \in 1 .. Len(l) } = CellsOfFace(m, f)
          /\ \A i \in 1 .. Len(l) : Len(l[i][2]) = Len(At(o.fe, f)) /\ \A j \in 1 .. Len(l[i][2]) :
                /\ l[i][2][j] \in Ids(Len(At(o.ce, l[i][1])))
                /\ At(At(o.ce, l[i][1]), l[i][2][j]) = At(o.fe, f)[j]>> >>

(* ---- M03: ownership classes ---- *)
KindClauses(k, r, want) ==         \* want[t] = set of ids of class t
  << << <<"lists by class", k>>, \A i \in 1 .. 3 : IsSetOf(r.lst[i], want[i]) >>,
     << <<"list of all", k>>, IsSetOf(r.lst[4], want[1] \cup want[2] \cup want[3]) >>,
     << <<"counts", k>>, r.cnt = [i \in 1 .. 4 |-> Len(r.lst[i])] >>,
     << <<"templated counts", k>>, r.tcnt = r.cnt >>,
     << <<"global ids", k>>, Len(r.gid) = Len(r.lst[4]) /\ NoDup(r.gid) >>,
     << <<"class of each", k>>, Len(r.ty) = Len(r.lst[4]) /\ \A i \in 1 .. Len(r.ty) : r.ty[i] \in 1 .. 3 /\ r.lst[4][i] \in want[r.ty[i]] >> >>
OfClass(cl) == [t \in 1 .. 3 |-> { i \in Ids(Len(cl)) : At(cl, i) = t }]
NoEntity == [t \in 1 .. 3 |-> {}]
ByParent(m, r) == [t \in 1 .. 3 |-> { r.lst[4][i] : i \in { j \in 1 .. Len(r.par) : At(m.tp, r.par[j]) = t } }]
SubClauses(m, k, r, count) ==
  << << <<"number of entities", k>>, Len(r.par) = Len(r.lst[4]) /\ NoDup(r.lst[4]) /\
        \A c \in Cells(m) : At(m.tp, c) = BGHOST \/ Cardinality({ i \in 1 .. Len(r.par) : r.par[i] = c }) = count[c + 1] >> >>
  \o KindClauses(k, r, ByParent(m, r))
Requested(opt, k) ==
  CASE k = "node" -> TRUE [] k = "cell" -> TRUE
    [] k = "corner" -> opt.corners [] k = "wedge" -> opt.wedges \/ opt.corners
    [] k = "side" -> opt.sides \/ opt.wedges \/ opt.corners
    [] k = "face" -> opt.faces \/ opt.sides \/ opt.wedges \/ opt.corners
    [] k = "edge" -> opt.edges \/ opt.sides \/ opt.wedges \/ opt.corners
ClassClauses(m, opt, o) ==
  LET ns == TLCEval([c \in 1 .. NC(m) |-> Cardinality(SidesOf(m, c - 1))])
      simple(k, cl) == KindClauses(k, o[k], IF Requested(opt, k) THEN OfClass(cl) ELSE NoEntity)
      sub(k, n) == IF Requested(opt, k) THEN SubClauses(m, k, o[k], n) ELSE KindClauses(k, o[k], NoEntity)
  IN simple("node", m.nt) \o simple("edge", m.et) \o simple("face", m.ft) \o simple("cell", m.tp)
     \o sub("side", ns) \o sub("wedge", [c \in 1 .. NC(m) |-> 2 * ns[c]])
     \o sub("corner", [c \in 1 .. NC(m) |-> Len(m.cn[c])])

(* ---- M04, M05: measures and normals of cells, faces, edges ---- *)
PN(X, n) == VScale(S, P(X, n))
FixV(v, den) == [k \in 1 .. Len(v) |-> FixDiv(v[k], den)]
CoordClauses(m, X, o) ==      \* X: the current coordinates
  << <<"node coordinates", Len(o.X) = NN(m) /\ \A n \in Nodes(m) : At(o.X, n) = PN(X, n)>>,
     <<"cell coordinates", \A c \in Cells(m) : At(o.cX, c) = [i \in 1 .. Len(At(m.cn, c)) |-> PN(X, At(m.cn, c)[i])]>>,
     <<"face coordinates", "fX" \notin DOMAIN o \/ \A f \in Faces(m) : At(o.fX, f) = [i \in 1 .. Len(At(m.fn, f)) |-> PN(X, At(m.fn, f)[i])]>> >>
Small(v) == LET b == Max({ 0 } \cup { Abs(v[i]) : i \in 1 .. Len(v) }) IN IF b > 10000 THEN [i \in 1 .. Len(v) |-> v[i] \div (b \div 5000)] ELSE v
(* in a surface: v (thousandths) is parallel to the outward normal and as long as the edge *)
AlongOut(m, X, c, f, v) ==
  LET w == OutN(m, X, c, f)  k == 1 + Max({ Abs(w[1]), Abs(w[2]), Abs(w[3]) }) \div 4000
      u == [i \in 1 .. 3 |-> w[i] \div k]                  \* small enough to multiply
      d == VSub(P(X, At(m.fn, f)[2]), P(X, At(m.fn, f)[1]))
      par(i, j) == Abs(v[i] * u[j] - v[j] * u[i]) <= 2 * (Abs(u[i]) + Abs(u[j])) + (IF k = 1 THEN 0 ELSE Abs(v[i]) + Abs(v[j]))
      sq(x) == (x * x) \div 100
  IN  Len(v) = 3 /\ par(1, 2) /\ par(2, 3) /\ par(1, 3) /\ Dot(Small(v), Small(w)) > 0
      /\ Near(sq(v[1]) + sq(v[2]) + sq(v[3]), 10000 * Dot(d, d), 6 + (Abs(v[1]) + Abs(v[2]) + Abs(v[3])) \div 25)
SurfNatural(m, X, f, v) ==
  LET cs == CellsOfFace(m, f)  fwd == { c \in cs : Dir(m, c, f) = 1 }
  IN  cs = {} \/ IF fwd # {} THEN \A c \in fwd : AlongOut(m, X, c, f, v) ELSE \A c \in cs : AlongOut(m, X, c, f, VNeg(v))
(* a plane face that does not go once round the mean of its nodes, or a curved one of other than four nodes *)
OddFace(m, X, f) == m.dim = 3 /\ LET p == Pts(X, At(m.fn, f)) IN IF Plane(p) THEN CutsP(p, AreaVec2(p)) # { 1 } ELSE Len(p) # 4
(* a mesh of boxes along the axes: every measure is a multiple of 1/48 of a unit *)
Boxes(m, X) == m.dim = m.sdim /\ \A c \in 1 .. Len(m.cn) :
  LET p == Pts(X, m.cn[c])  v(k) == { p[i][k] : i \in 1 .. Len(p) } IN
  /\ Len(p) = 2 ^ m.dim /\ Cardinality(ToSet(p)) = Len(p) /\ Len(m.cf[c]) \in { 0, 2 * m.dim }
  /\ \A k \in 1 .. m.dim : Cardinality(v(k)) = 2
  /\ \A f \in ToSet(m.cf[c]) : LET q == Pts(X, At(m.fn, f)) IN \E k \in 1 .. m.dim : \A i \in 1 .. Len(q) : q[i][k] = q[1][k]
ExactClauses(m, X, G, fine, sph) == << <<"to the last digit", fine \/ sph \/ ~ Boxes(m, X) \/ ~ Boxes(m, G)>> >>
GeomClauses(m, X, o, sph) ==
  LET shape == TLCEval([c \in 1 .. NC(m) |-> CellShape(m, X, c - 1)]) IN
  << <<"cell volume", \A c \in Cells(m) : At(m.tp, c) = BGHOST \/ At(shape, c) # "good" \/ IF Surface(m) THEN At(o.cv, c) > 0 /\ Close(At(o.cv2, c), 100 * CellVolN(m, X, c, sph)) ELSE Near(At(o.cv, c), CellVol(m, X, c, sph), Tol)>>,
     <<"volume of an inverted cell is not positive", \A c \in Cells(m) : At(m.tp, c) = BGHOST \/ At(shape, c) # "bad" \/ m.dim = 1 \/ Surface(m) \/ At(o.cv, c) <= 0>>,
     <<"cell centroid", \A c \in Cells(m) : At(m.tp, c) = BGHOST \/ At(shape, c) # "good" \/ VNear(At(o.cc, c), CellCentroid(m, X, c), Tol)>> >>
  \o IF "fa" \notin DOMAIN o THEN << >> ELSE
  << <<"face area", \A f \in Faces(m) :
         IF sph THEN Near(At(o.fa, f), S * FaceNormalN(m, X, f, sph)[1], Tol)
         ELSE IF Curved(m, X, f) THEN LET a == CurvedArea(Pts(X, At(m.fn, f))) IN Near(At(o.fa, f), a, 5 + a \div 2000)
         ELSE OddFace(m, X, f) \/ Close(At(o.fa2, f), 100 * FaceAreaSq4(m, X, f, sph))>>,
     <<"face centroid", \A f \in Faces(m) : OddFace(m, X, f) \/ VNear(At(o.fc, f), FaceCentroid(m, X, f), IF Curved(m, X, f) THEN 8 ELSE Tol)>>,
     <<"natural face normal", \A f \in Faces(m) : IF Surface(m) THEN SurfNatural(m, X, f, At(o.fn, f)[2]) ELSE VNear(At(o.fn, f)[2], FixV(FaceNormalN(m, X, f, sph), NDen(m)), Tol)>>,
     <<"outward face normals", \A f \in Faces(m) :
         LET l == At(o.fcn, f) IN
         /\ { l[i][1] : i \in 1 .. Len(l) } = CellsOfFace(m, f)
         /\ \A i \in 1 .. Len(l) : /\ l[i][2] = Dir(m, l[i][1], f)
                                   /\ IF Surface(m) THEN AlongOut(m, X, l[i][1], f, l[i][3]) ELSE VNear(l[i][3], FixV(VScale(Dir(m, l[i][1], f), FaceNormalN(m, X, f, sph)), NDen(m)), Tol)>> >>
  \o IF "el" \notin DOMAIN o THEN << >> ELSE
  << <<"edge length", \A e \in Edges(m) : Close(At(o.el2, e), 100 * Dot(EdgeVec(m, X, e), EdgeVec(m, X, e)))>>,
     <<"edge vector", \A e \in Edges(m) : At(o.ev, e) = VScale(S, EdgeVec(m, X, e))>>,
     <<"edge vector from a node", \A e \in Edges(m) :
         LET l == At(o.evn, e) IN m.dim = 1 \/
         (Len(l) = 2 /\ \A i \in 1 .. 2 : l[i] = << At(m.en, e)[i], IF i = 1 THEN 1 ELSE -1, VScale(IF i = 1 THEN S ELSE -S, EdgeVec(m, X, e)) >>)>> >>
(* the centre of an edge is asked for without a choice of recomputing it      *)
EdgeMidClauses(m, X, G, o) ==
  IF "ec" \notin DOMAIN o THEN << >> ELSE << <<"edge centre", \A e \in Edges(m) : VNear(At(o.ec, e), EdgeMid(m, X, e), Tol) \/ VNear(At(o.ec, e), EdgeMid(m, G, e), Tol)>> >>

(* ---- K01: sides. A row is cell, face, edge, edge use, node 0, node 1, opposite *)
Key(r) == << r[1], r[2], r[3] >>
SideShape(m, s) == \A i \in 1 .. Len(s) : s[i][1] \in Cells(m) /\ s[i][2] \in FacesOfCell(m, s[i][1]) /\ s[i][3] \in Edges(m)
                     /\ (m.dim = 1 \/ s[i][3] \in EdgesOfFace(m, s[i][2]))
SideBijection(m, s) == Cardinality({ Key(s[i]) : i \in 1 .. Len(s) }) = Len(s) /\ { Key(s[i]) : i \in 1 .. Len(s) } = AllSides(m)
SideClauses(m, s, cs) ==
  LET first == << <<"side names a face of its cell and an edge of that face", SideShape(m, s)>> >> IN
  IF Failing(first) # {} THEN first ELSE first \o
  << <<"one side per cell, face and edge", SideBijection(m, s)>>,
     <<"sides of a cell", \A c \in Cells(m) : IsSetOf(At(cs, c), { i \in Ids(Len(s)) : At(s, i)[1] = c })>>,
     <<"side nodes", \A i \in 1 .. Len(s) : << s[i][5], s[i][6] >> = SideNodes(m, Key(s[i]))>>,
     <<"edge use", m.dim = 1 \/ \A i \in 1 .. Len(s) : s[i][4] = IF << s[i][5], s[i][6] >> = At(m.en, s[i][3]) THEN 1 ELSE 0>>,
     <<"opposite side", \A i \in 1 .. Len(s) :
         IF HasOpp(m, Key(s[i])) THEN s[i][7] \in Ids(Len(s)) /\ Key(At(s, s[i][7])) = OppSide(m, Key(s[i]))
         ELSE s[i][7] = -1>>,
     <<"opposite of opposite", \A i \in 1 .. Len(s) : s[i][7] \in Ids(Len(s)) => At(s, s[i][7])[7] = i - 1>> >>

(* ---- K02: wedges. A row is side, cell, face, edge, node, adjacent, opposite, corner *)
WedgeClauses(m, s, o) ==
  LET w == o.w  W == Ids(Len(w))  R(i) == At(w, i)  Sd == Ids(Len(s))
      first == << <<"two wedges per side", Len(w) = 2 * Len(s) /\ (\A i \in W : R(i)[1] \in Sd)
                     /\ Len(o.sw) = Len(s) /\ \A i \in Sd : IsSetOf(At(o.sw, i), { j \in W : R(j)[1] = i }) /\ Len(At(o.sw, i)) = 2>> >>
  IN IF Failing(first) # {} THEN first ELSE first \o
  << <<"cell, face and edge of a wedge", \A i \in W : << R(i)[2], R(i)[3], R(i)[4] >> = Key(At(s, R(i)[1]))>>,
     <<"node of a wedge", \A i \in Sd : R(At(o.sw, i)[1])[5] = At(s, i)[5] /\ R(At(o.sw, i)[2])[5] = At(s, i)[6]>>,
     <<"adjacent wedge", \A i \in W : R(i)[6] \in W /\ R(i)[6] # i /\ R(R(i)[6])[1] = R(i)[1]>>,
     <<"opposite wedge", \A i \in W : LET os == At(s, R(i)[1])[7] IN
          IF os = -1 THEN R(i)[7] = -1 ELSE R(i)[7] \in W /\ R(R(i)[7])[1] = os /\ R(R(i)[7])[5] = R(i)[5]>>,
     <<"opposite of opposite wedge", \A i \in W : R(i)[7] \in W => R(R(i)[7])[7] = i>>,
     <<"wedges of a cell", \A c \in Cells(m) : IsSetOf(At(o.cw, c), { i \in W : R(i)[2] = c })>> >>
  \o IF Len(o.nw) = 0 THEN << >> ELSE
  << <<"wedges of a node", \A n \in Nodes(m) : LET at == { i \in W : R(i)[5] = n } IN
        /\ IsSetOf(At(o.nw, n)[1], at)
        /\ \A t \in 1 .. 3 : IsSetOf(At(o.nw, n)[t + 1], { i \in at : At(m.tp, R(i)[2]) = t })>> >>

(* ---- K03: corners. A row is cell, node, wedges ---- *)
CornerClauses(m, o) ==
  LET k == o.k  K == Ids(Len(k))  R(i) == At(k, i)
      AllC == UNION { CornersOf(m, c) : c \in Cells(m) }
      first == << <<"one corner per cell and node", Cardinality({ << R(i)[1], R(i)[2] >> : i \in K }) = Len(k)
                      /\ { << R(i)[1], R(i)[2] >> : i \in K } = AllC>> >>
  IN IF Failing(first) # {} THEN first ELSE first \o
  << <<"corners of a cell", \A c \in Cells(m) : IsSetOf(At(o.cc, c), { i \in K : R(i)[1] = c })>>,
     <<"corner at a node", \A c \in Cells(m) : LET l == At(o.at, c) IN Len(l) = Len(At(m.cn, c)) /\
          \A i \in 1 .. Len(l) : l[i][2] \in K /\ R(l[i][2])[1] = c /\ R(l[i][2])[2] = l[i][1]>>,
     <<"corners of a node", \A n \in Nodes(m) : LET at == { i \in K : R(i)[2] = n } IN
          /\ IsSetOf(At(o.nk, n)[1], at)
          /\ \A t \in 1 .. 3 : IsSetOf(At(o.nk, n)[t + 1], { i \in at : At(m.tp, R(i)[1]) = t })>>,
     <<"wedges of a corner", \A i \in K : IsSetOf(R(i)[3], { j \in Ids(Len(o.w)) : At(o.w, j)[2] = R(i)[1] /\ At(o.w, j)[5] = R(i)[2] })>>,
     <<"corner of a wedge", \A j \in Ids(Len(o.w)) : At(o.w, j)[8] \in K /\ Has(R(At(o.w, j)[8])[3], j)>> >>

(* ---- K04: geometry of sides, wedges, corners ---- *)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Cardinality({ i \in 1 .. Len(a) : a[i] = x }) = Cardinality({ i \in 1 .. Len(b) : b[i] = x })
TriNormal(a, b, c) == LET u == VSub(b, a)  v == VSub(c, a) IN     \* from fixed-point positions: thousandths
  << FixMul2(u[2], v[3], u[3], v[2]), FixMul2(u[3], v[1], u[1], v[3]), FixMul2(u[1], v[2], u[2], v[1]) >>
SignAgree(v, w) == Dot(Small(v), Small(w)) > 0
VTol(a, b, tol) == \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)
(* cur: the nodes have not moved since the last update *)
SubGeomClauses(m, X, o, sph, cur) ==
  LET st == o.st
      NS == Ids(Len(st))
      fcT == TLCEval([f \in 1 .. NF(m) |-> FaceCentroid(m, X, f - 1)])
      ccT == TLCEval([c \in 1 .. NC(m) |-> CellCentroid(m, X, c - 1)])
      outN == TLCEval([c \in 1 .. NC(m) |-> [i \in 1 .. Len(m.cf[c]) |-> FixV(VScale(m.cd[c][i], FaceNormalN(m, X, m.cf[c][i], sph)), NDen(m))]])
      Out(c, f) == At(outN, c)[PosOf(At(m.cf, c), f)]
      curved == TLCEval([c \in 1 .. NC(m) |-> CurvedCell(m, X, c - 1)])
      cv == TLCEval([c \in 1 .. NC(m) |-> CellVol(m, X, c - 1, sph)])
      sx(r) == IF m.dim = 3 THEN << PN(X, r[5]), PN(X, r[6]), At(fcT, r[2]), At(ccT, r[1]) >>
               ELSE IF m.dim = 2 THEN << PN(X, r[5]), PN(X, r[6]), At(ccT, r[1]) >>
               ELSE << PN(X, r[5]), At(ccT, r[1]) >>
      PtsNear(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : VNear(a[i], b[i], Tol)
      vtol == 40
      mid(e) == EdgeMid(m, X, e)
      hv(a, cc) == LET p == 2 * a q == (cc + cc) \div S IN FixDiv(Abs(Cube(p) - Cube(q)), 8)
      sideOf(c) == { i \in NS : At(st, i)[1] = c }
      base == <<
        <<"side coordinates", ~ cur \/ \A i \in NS : PtsNear(At(o.s, i).x, sx(At(st, i)))>>,
        <<"side coordinates for positive volume", ~ cur \/ \A i \in NS : SameBag(At(o.s, i).px, At(o.s, i).x) /\ At(o.s, i).pv > 0>>,
        <<"side volume is that of its shape", \A i \in NS : At(o.s, i).v > 0 /\ (~ cur \/
             IF sph THEN Near(At(o.s, i).v, hv(P(X, At(st, i)[5])[1], At(ccT, At(st, i)[1])[1]), Tol) ELSE Near(At(o.s, i).v, At(o.s, i).pv, Tol))>>,
        <<"sides fill the cell", \A c \in Cells(m) : At(curved, c) \/ Near(SumOver(sideOf(c), LAMBDA i : At(o.s, i).v), At(cv, c), 2 + Cardinality(sideOf(c)))>>,
        <<"side normal points out", \A i \in NS : LET w == Out(At(st, i)[1], At(st, i)[2]) IN w = VZero(m.sdim) \/ SignAgree(At(o.s, i).n, w)>>,
        <<"side normal is that of its facet", \A i \in NS : LET r == At(st, i) IN
             IF m.dim = 3 THEN VTol(At(o.s, i).n, TriNormal(PN(X, r[6]), PN(X, r[5]), At(fcT, r[2])), vtol)
             ELSE VNear(At(o.s, i).n, Out(r[1], r[2]), Tol)>>,
        <<"side normals of a face add up", \A c \in Cells(m) : \A f \in FacesOfCell(m, c) :
             LET ss == { i \in sideOf(c) : At(st, i)[2] = f } IN
             VTol(VSumOver(ss, LAMBDA i : At(o.s, i).n, m.sdim), Out(c, f), 2 + Cardinality(ss))>> >>
      wt == o.wt  NW == Ids(Len(wt))
      other(i) == At(wt, At(wt, i)[6])[5]
      wx(r) == IF m.dim = 3 THEN << PN(X, r[5]), mid(r[4]), At(fcT, r[3]), At(ccT, r[2]) >>
               ELSE IF m.dim = 2 THEN << PN(X, r[5]), mid(r[4]), At(ccT, r[2]) >>
               ELSE << PN(X, r[5]), At(ccT, r[2]) >>
      wedges == <<
        <<"wedge coordinates", ~ cur \/ \A i \in NW : PtsNear(At(o.w, i).x, wx(At(wt, i)))>>,
        <<"wedge coordinates for positive volume", ~ cur \/ m.dim = 1 \/ \A i \in NW : SameBag(At(o.w, i).px, At(o.w, i).x) /\ At(o.w, i).pv > 0>>,
        <<"wedge volume is that of its shape", \A i \in NW : At(o.w, i).v > 0 /\ (~ cur \/ m.dim = 1 \/ Near(At(o.w, i).v, At(o.w, i).pv, Tol))>>,
        <<"wedges fill the side", \A i \in NS : Near(SumOver({ j \in NW : At(wt, j)[1] = i }, LAMBDA j : At(o.w, j).v), At(o.s, i).v, 3)>>,
        <<"wedge normal is half the side's", \A i \in NW : VTol(VScale(2, At(o.w, i).n0), At(o.s, At(wt, i)[1]).n, 3)>>,
        <<"inner wedge normals are opposite", m.dim = 1 \/ \A i \in NW : VNear(At(o.w, i).n1, VNeg(At(o.w, At(wt, i)[6]).n1), Tol)>>,
        <<"inner wedge normal points to the other wedge", m.dim = 1 \/ \A i \in NW :
             Dot(At(o.w, i).n1, VSub(P(X, other(i)), P(X, At(wt, i)[5]))) > 0>>,
        <<"inner wedge normal is that of its facet", m.dim = 1 \/ \A i \in NW : LET r == At(wt, i)
              IN IF m.dim = 3 THEN LET n == TriNormal(mid(r[4]), At(fcT, r[3]), At(ccT, r[2])) IN VTol(At(o.w, i).n1, n, vtol) \/ VTol(At(o.w, i).n1, VNeg(n), vtol)
                 ELSE LET d == VSub(At(ccT, r[2]), mid(r[4]))  n == << d[2], -d[1] >> IN VNear(At(o.w, i).n1, n, Tol) \/ VNear(At(o.w, i).n1, VNeg(n), Tol)>> >>
      kt == o.kt  NK == Ids(Len(kt))
      Around(i) == LET r == At(kt, i) IN       \* the points of a corner
         IF m.dim = 1 THEN { PN(X, r[2]), At(ccT, r[1]) }
         ELSE { PN(X, r[2]), At(ccT, r[1]) } \cup { mid(At(wt, j)[4]) : j \in ToSet(r[3]) }
              \cup (IF m.dim = 3 THEN { At(fcT, At(wt, j)[3]) : j \in ToSet(r[3]) } ELSE {})
      Covers(pts, set) == /\ \A i \in 1 .. Len(pts) : \E q \in set : VNear(pts[i], q, Tol)
                          /\ \A q \in set : \E i \in 1 .. Len(pts) : VNear(pts[i], q, Tol)
      Ar2(p) == Sum([i \in 1 .. Len(p) |-> FixMul2(p[i][1] - p[1][1], Nx(p, i)[2] - p[1][2], p[i][2] - p[1][2], Nx(p, i)[1] - p[1][1])])
      corners == <<
        <<"corner volume is that of its wedges", \A i \in NK : At(o.k, i).v > 0 /\
             Near(At(o.k, i).v, SumOver(ToSet(At(kt, i)[3]), LAMBDA j : At(o.w, j).v), 2 + Len(At(kt, i)[3]))>>,
        <<"corners fill the cell", \A c \in Cells(m) : At(curved, c) \/ LET ks == { i \in NK : At(kt, i)[1] = c } IN
             Near(SumOver(ks, LAMBDA i : At(o.k, i).v), At(cv, c), 2 + Cardinality(ks))>>,
        <<"corner coordinates", ~ cur \/ \A i \in NK : Covers(At(o.k, i).x, Around(i)) /\ (m.dim = 3 \/ Len(At(o.k, i).x) = Cardinality(Around(i)))>>,
        <<"corner coordinates go round", ~ cur \/ m.dim # 2 \/ \A i \in NK : Near(Ar2(At(o.k, i).x), At(o.k, i).v, vtol)>>,
        <<"corner facets use its points", ~ cur \/ \A i \in NK : Covers(At(o.k, i).fpts, Around(i))>>,
        <<"corner facets are closed", ~ cur \/ m.dim = 1 \/ \A i \in NK : VTol(At(o.k, i).fsum, VZero(m.sdim), 6)>>,
        <<"corner facets enclose its volume", ~ cur \/ sph \/ \A i \in NK : Near(At(o.k, i).fvol, At(o.k, i).v, 6)>>,
        <<"two facets in one dimension", m.dim # 1 \/ \A i \in NK : At(o.k, i).nfac = 2>> >>
  IN base \o (IF "w" \in DOMAIN o THEN wedges ELSE << >>) \o (IF "k" \in DOMAIN o THEN corners ELSE << >>)

(* ---- T01-T03: tiles ---- *)
TOwn(t) == ToSet(t.lst[4][1])
TGhost(t) == ToSet(t.lst[4][2])
OwnedCells(m) == { c \in Cells(m) : At(m.tp, c) = OWNED }
TKinds == << "node", "edge", "face", "cell", "side", "wedge", "corner" >>
(* what was asked of tile i: the mesh's own tiles come first, then those the  *)
(* user made: each with its cells, layers of halo and the kinds it lists      *)
Want(opt, made, i) == IF i <= opt.tiles THEN [halo |-> opt.halo, has |-> [k \in 1 .. 7 |-> Requested(opt, TKinds[k])]] ELSE made[i - opt.tiles]
MkTileClauses(opt, made, o) ==      \* the answer to making the last of the tiles
  << <<"identifier of the tile made", o[1] = opt.tiles + Len(made) - 1>>,
     <<"tile made is counted", o[2] = opt.tiles + Len(made)>>, <<"tile made is the last of the mesh's", o[3]>> >>
Tile1Clauses(m, opt, made, o) ==
  << <<"number of tiles", o.nt = opt.tiles + Len(made) /\ Len(o.t) = opt.tiles + Len(made)>>,
     <<"tiles numbered in order", \A i \in 1 .. Len(o.t) : o.t[i].id = i - 1>>,
     <<"own cells listed once", \A i \in 1 .. Len(o.t) : NoDup(o.t[i].lst[4][1])>>,
     <<"own cells are those given", \A i \in 1 .. Len(made) : i + opt.tiles > Len(o.t) \/ IsSetOf(o.t[i + opt.tiles].lst[4][1], ToSet(made[i].cells))>>,
     <<"tiles disjoint", \A i, j \in 1 .. Len(o.t) : i # j => TOwn(o.t[i]) \cap TOwn(o.t[j]) = {}>>,
     <<"tiles cover the owned cells", opt.tiles = 0 \/ UNION { TOwn(o.t[i]) : i \in 1 .. Len(o.t) } = OwnedCells(m)>>,
     <<"master tile of a cell", Len(o.mc) = NC(m) /\ \A c \in Cells(m) :
         IF \E i \in 1 .. Len(o.t) : c \in TOwn(o.t[i]) THEN At(o.mc, c) \in Ids(Len(o.t)) /\ c \in TOwn(At(o.t, At(o.mc, c))) ELSE At(o.mc, c) = -1>> >>
Tile2Clauses(m, opt, made, o) ==
  << <<"halo", \A i \in 1 .. Len(o.t) : IsSetOf(o.t[i].lst[4][2], Halo(m, TOwn(o.t[i]), Want(opt, made, i).halo))>>,
     <<"all cells are own then ghost", \A i \in 1 .. Len(o.t) : o.t[i].lst[4][3] = o.t[i].lst[4][1] \o o.t[i].lst[4][2]>> >>
Tile3Clauses(m, opt, made, o) ==
  LET T == 1 .. Len(o.t)
      of(k, set) ==       \* entities of a kind of a set of cells
        CASE k = 1 -> UNION { NodesOfCell(m, c) : c \in set }
          [] k = 2 -> UNION { EdgesOfCell(m, c) : c \in set }
          [] k = 3 -> UNION { FacesOfCell(m, c) : c \in set }
          [] k = 4 -> set
          [] k = 5 -> { i \in Ids(Len(o.sc)) : At(o.sc, i) \in set }
          [] k = 6 -> { i \in Ids(Len(o.wc)) : At(o.wc, i) \in set }
          [] k = 7 -> { i \in Ids(Len(o.kc)) : At(o.kc, i) \in set }
      lists == TLCEval([i \in T |-> Want(opt, made, i).has])     \* the kinds a tile lists
      known(k) == Requested(opt, TKinds[k])                     \* the mesh has the kind
      L(i, k) == o.t[i].lst[k]
      master(k) == CASE k = 1 -> o.mn [] k = 2 -> o.me [] k = 3 -> o.mf [] k = 4 -> o.mc [] k = 5 -> o.ms [] k = 6 -> o.mw [] k = 7 -> o.mk
      cellof(k) == CASE k = 5 -> o.sc [] k = 6 -> o.wc [] k = 7 -> o.kc
      per(k) == <<
        << <<"counts", TKinds[k]>>, \A i \in T : o.t[i].cnt[k] = [q \in 1 .. 3 |-> Len(L(i, k)[q])] /\ o.t[i].tcnt[k] = o.t[i].cnt[k] >>,
        << <<"entities of the tile's cells", TKinds[k]>>, \A i \in T :
             IsSetOf(L(i, k)[3], IF lists[i][k] THEN of(k, TOwn(o.t[i]) \cup TGhost(o.t[i])) ELSE {}) >>,
        << <<"either owned or ghost", TKinds[k]>>, \A i \in T : NoDup(L(i, k)[1]) /\ NoDup(L(i, k)[2]) /\
             ToSet(L(i, k)[1]) \cap ToSet(L(i, k)[2]) = {} /\ ToSet(L(i, k)[1]) \cup ToSet(L(i, k)[2]) = ToSet(L(i, k)[3]) >>,
        << <<"owned by exactly one tile", TKinds[k]>>, ~ known(k) \/ \A e \in of(k, UNION { TOwn(o.t[i]) : i \in { j \in T : lists[j][k] } }) :
             Cardinality({ i \in T : Has(L(i, k)[1], e) }) = 1 >>,
        << <<"master tile", TKinds[k]>>, ~ known(k) \/ \A e \in Ids(Len(master(k))) :
             LET own == { i \in T : Has(L(i, k)[1], e) } IN
             IF k > 4 THEN At(master(k), e) = At(o.mc, At(cellof(k), e))
             ELSE IF own = {} THEN At(master(k), e) = -1 ELSE \E i \in own : At(master(k), e) = i - 1 >>,
        << <<"owner is a tile with an own cell there", TKinds[k]>>, ~ known(k) \/ \A i \in T : ToSet(L(i, k)[1]) \subseteq of(k, TOwn(o.t[i])) >> >>
      sub(k) == << << <<"owned with the cell", TKinds[k]>>, ~ known(k) \/ \A i \in T : lists[i][k] => ToSet(L(i, k)[1]) = of(k, TOwn(o.t[i])) >> >>
  IN FoldLeft(LAMBDA acc, k : acc \o per(k), << >>, << 1, 2, 3, 4, 5, 6, 7 >>)
     \o FoldLeft(LAMBDA acc, k : acc \o sub(k), << >>, << 5, 6, 7 >>)

(* ---- M06: point location. pts are multiples of 1/den ---- *)
InsideClauses(m, X, pts, den, o) ==
  << <<"inside", Len(o) = Len(pts) /\ \A i \in 1 .. Len(pts) : \A c \in Cells(m) :
        LET w == WhereIn(m, X, c, pts[i], den) IN w = 0 \/ (Has(o[i], c) <=> w = -1)>> >>
=============================================================================
