------------------------------ MODULE MeshScen ------------------------------
(* Plans for the mesh system: which meshes to build, with which options, and  *)
(* which sequence of moves, updates and queries to run on them.               *)
EXTENDS Mesh, Json, IOUtils
Prop == IOEnv.PROP
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN

Sd(i) == 131 * Seed0 + 977 * i + 5
B(i, k, n) == Below(Sd(i), 3000 + k, n)

AllOn == [faces |-> TRUE, edges |-> TRUE, sides |-> TRUE, wedges |-> TRUE, corners |-> TRUE, tiles |-> 0, halo |-> 0, part |-> 0, geom |-> "CART"]
NoneOn == [AllOn EXCEPT !.faces = FALSE, !.edges = FALSE, !.sides = FALSE, !.wedges = FALSE, !.corners = FALSE]
Q(o) == [op |-> o]

(* ---- meshes ---- *)
Desc1(i, mode) == D("line", << 1 + B(i, 1, 8) >>, 0, 0, Sd(i), mode)
Desc2(i, mode) ==
  LET k == B(i, 2, 6) IN
  IF k = 0 THEN D(<< "fan", "gear" >>[1 + B(i, 3, 2)], << 0 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 4 THEN D("hang", << 1 + B(i, 3, 3), 2 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
  ELSE IF k = 5 THEN D("ells", << 1 + B(i, 3, 2), 1 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
  ELSE IF k = 1 THEN D("honey", << 1 + B(i, 3, 3), 1 + B(i, 4, 3) >>, 0, 0, Sd(i), mode)
  ELSE D("quads", << 1 + B(i, 3, 4), 1 + B(i, 4, 3) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
(* columns over cells with nodes inside their sides, over cells that are not   *)
(* convex, and bricks with curved faces                                       *)
Desc3b(i, mode) ==
  LET k == B(i, 2, 4) IN
  IF k = 0 THEN D("xhang", << 1 + B(i, 3, 2), 2, 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
  ELSE IF k = 1 THEN D("xells", << 1 + B(i, 3, 2), 1, 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
  ELSE D("bricks", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 3, 0, Sd(i), mode)
Desc3c(i, mode) ==
  LET k == B(i, 2, 9) IN
  IF k = 8 THEN (IF B(i, 4, 3) # 0 THEN D("shoney", << 1 + B(i, 3, 2), 1, 1 >>, 0, 0, Sd(i), mode) ELSE D("squads", << 1 + B(i, 3, 2), 1 + B(i, 5, 2), 1 >>, 0, B(i, 6, 3), Sd(i), mode))
  ELSE IF k = 0 THEN (IF B(i, 4, 3) = 0 THEN D("xgear", << 0, 0, 1 >>, 0, 0, Sd(i), mode) ELSE D("xfan", << 0, 0, 1 + B(i, 3, 2) >>, 0, 0, Sd(i), mode))
  ELSE IF k = 1 THEN D("xhoney", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
  ELSE IF k = 2 THEN D("xquads", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 1, B(i, 6, 3), Sd(i), mode)
  ELSE IF k \in { 3, 4 } THEN D("bricks", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 2, 0, Sd(i), mode)
  ELSE IF k = 5 THEN D("bricks", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, 1, 0, Sd(i), mode)
  ELSE IF k = 6 THEN D("xhang", << 1 + B(i, 3, 2), 2, 1 >>, 0, 0, Sd(i), mode)
  ELSE D("bricks", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
Desc3(i, mode) == IF B(i, 8, 4) = 0 THEN Desc3b(i, mode) ELSE Desc3c(i, mode)
(* surfaces have nodes, edges, faces and cells *)
DescS(i, mode) ==
  LET k == B(i, 2, 9) IN
  IF k = 7 THEN D("whang", << 1 + B(i, 3, 3), 2 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 8 THEN D("wells", << 1 + B(i, 3, 2), 1 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 0 THEN D(<< "wfan", "wgear" >>[1 + B(i, 3, 2)], << 0 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 1 THEN D("whoney", << 1 + B(i, 3, 3), 1 + B(i, 4, 3) >>, 0, 0, Sd(i), mode)
  ELSE IF k = 2 THEN D("wcaps", << 0 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 3 THEN D("tetshell", << 0 >>, 0, 0, Sd(i), mode)
  ELSE IF k = 4 THEN D("shell", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
  ELSE D("wquads", << 1 + B(i, 3, 4), 1 + B(i, 4, 3) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
SurfOpt(o) == [o EXCEPT !.sides = FALSE, !.wedges = FALSE, !.corners = FALSE]
SM(i, mode) == MeshOf(DescS(i, mode))
(* now and then a mesh of many cells                                          *)
BigOne(i) == i % 59 = 41
DescBig(i, mode) ==
  LET k == (i \div 59) % 4 IN
  IF k = 0 THEN D("quads", << 9, 8 >>, 1, B(i, 6, 3), Sd(i), mode)
  ELSE IF k = 1 THEN (IF B(i, 3, 2) = 0 THEN D("bricks", << 5, 3, 3 >>, 0, 0, Sd(i), mode) ELSE D("bricks", << 3, 2, 3 >>, 1, 0, Sd(i), mode))
  ELSE IF k = 2 THEN D("line", << 70 >>, 0, 0, Sd(i), mode)
  ELSE D("xhoney", << 3, 2, 3 >>, 0, 0, Sd(i), mode)
DescAny(i, mode) == IF BigOne(i) THEN DescBig(i, mode) ELSE IF i % 5 \in { 0, 1 } THEN Desc2(i, mode) ELSE IF i % 5 = 2 THEN Desc1(i, mode) ELSE Desc3(i, mode)
(* a strip of cells, every second one a ghost: what lies two cells away is behind a ghost *)
Strip(i) == MeshOf(IF B(i, 2, 3) = 0 THEN D("bricks", << 4 + B(i, 3, 4), 1, 1 >>, 0, 0, Sd(i), 4)
                   ELSE D("quads", << 4 + B(i, 3, 7), 1 >>, B(i, 5, 2), 0, Sd(i), 4))
HM(i, mode) == MeshOf(DescAny(i, mode))
(* Mesh_simple: any box and counts, or one that divides evenly *)
Box(i, even) ==
  LET long == 1 + B(i, 10, IF i % 80 = 45 THEN 3 ELSE IF Prop = "M01" THEN 9 ELSE 18)       \* the long axis of a thin box, if any
      n == IF i % 80 = 42 THEN (IF Prop = "M01" THEN << 7, 6, 5 >> ELSE << 4, 5, 3 >>) ELSE IF long > 3 THEN << 1 + B(i, 11, 4), 1 + B(i, 12, 3), 1 + B(i, 13, 3) >>
           ELSE [k \in 1 .. 3 |-> IF k = long THEN (IF i % 80 = 45 /\ Prop = "M01" THEN << 70, 131 >>[1 + B(i, 9, 2)] ELSE 5 + B(i, 11, IF Prop = "M01" THEN 16 ELSE 6)) ELSE 1 + B(i, 11 + k, 2)]
      lo == << B(i, 14, 9) - 4, B(i, 15, 9) - 4, B(i, 16, 9) - 4 >>
      w(k) == IF even THEN n[k] * (1 + B(i, 16 + k, 3)) ELSE 1 + B(i, 16 + k, 12)
  IN [fam |-> "s3", lo |-> lo, hi |-> << lo[1] + w(1), lo[2] + w(2), lo[3] + w(3) >>, n |-> n]
RECURSIVE Incr(_, _, _)
Incr(i, n, acc) == IF Len(acc) = n THEN acc ELSE Incr(i, n, Append(acc, acc[Len(acc)] + 1 + B(i, 30 + Len(acc), 5)))
Axis1(i, sph) == [fam |-> "s1", x |-> IF i % 80 = 48 /\ Prop = "M01" THEN [k \in 1 .. 280 + B(i, 29, 9) |-> 4 * k + B(i, 30 + k, 4) - 9] ELSE Incr(i, 2 + B(i, 29, IF B(i, 26, 4) = 0 /\ Prop = "M01" THEN 30 ELSE 8), << IF sph THEN B(i, 28, 3) ELSE B(i, 28, 7) - 3 >>)]
UAxis1(i) == [fam |-> "s1", x |-> [k \in 1 .. 2 + B(i, 29, 8) |-> 2 * k - 4]]
SimpleOpt(o) == [o EXCEPT !.edges = FALSE, !.sides = FALSE, !.wedges = FALSE, !.corners = FALSE]
SphOpt(o, i) == [o EXCEPT !.geom = IF B(i, 27, 3) = 0 THEN "SPH" ELSE "CART"]

(* the unit of length, a power of two: nothing a mesh tells depends on it      *)
Unit(i) == IF B(i, 6000, 2) = 0 THEN 0 ELSE << -30, -13, 9 >>[1 + B(i, 6001, 3)]
(* before every second observation queries of its kind in no order            *)
Mixable == { "inc", "sides", "wedges", "corners", "geom", "rgeom", "sub", "rsub" }
Mixed(i, ops) == [k \in 1 .. Len(ops) |-> IF ops[k].op \in Mixable /\ B(i, 6100 + k, 2) = 0 THEN [mix |-> 1 + B(i, 6200 + k, 30000)] @@ ops[k] ELSE ops[k]]
Sc(i, mesh, opt, ops0) == LET ops == Mixed(i, ops0) IN [sid |-> i, mesh |-> IF Prop \in { "M01", "M04", "M05", "M06", "K04" } /\ opt.geom # "SPH" THEN [ue |-> Unit(i)] @@ mesh ELSE mesh, opt |-> opt, ops |-> ops]

(* ---- M05: histories of moves, updates and queries ---- *)
Affine(X, i, k, d) ==       \* an integer map of positive determinant
  LET r == B(i, k, 6)
      f(p) == IF d = 1 THEN << IF r = 0 THEN p[1] + 2 ELSE IF r = 1 THEN 2 * p[1] ELSE IF r = 2 THEN 3 * p[1] + 1 ELSE p[1] - 3 >>
              ELSE IF d = 2 THEN
                IF r = 0 THEN << p[1] + p[2], p[2] >> ELSE IF r = 1 THEN << p[1], p[2] + p[1] >> ELSE IF r = 2 THEN << -p[2], p[1] >>
                ELSE IF r = 3 THEN << 2 * p[1], p[2] >> ELSE IF r = 4 THEN << p[1] - 5, p[2] + 3 >> ELSE << -p[1], -p[2] >>
              ELSE IF r = 0 THEN << p[1] + p[2], p[2], p[3] >> ELSE IF r = 1 THEN << p[2], p[3], p[1] >>
                ELSE IF r = 2 THEN << -p[2], p[1], p[3] >> ELSE IF r = 3 THEN << p[1], p[2], 2 * p[3] >>
                ELSE IF r = 4 THEN << p[1] + 4, p[2] - 2, p[3] + 1 >> ELSE << p[1], -p[2], -p[3] >>
  IN TLCEval([n \in 1 .. Len(X) |-> f(X[n])])
(* moves of one node by a unit step that keep the mesh valid *)
Steps(d) == IF d = 1 THEN { << 1 >>, << -1 >> }
            ELSE IF d = 2 THEN { << 1, 0 >>, << 0, 1 >>, << -1, 0 >>, << 0, -1 >>, << 1, 1 >> }
            ELSE { << 1, 0, 0 >>, << -1, 0, 0 >>, << 0, 1, 0 >>, << 0, -1, 0 >>, << 0, 0, 1 >>, << 0, 0, -1 >> }
OneMoves(m, X, n) == { v \in Steps(m.sdim) : LET Y == [X EXCEPT ![n + 1] = VAdd(@, v)] IN \A c \in CellsOfNode(m, n) : ValidCell(m, Y, c) }
RECURSIVE MoveOne(_, _, _, _, _)
MoveOne(m, X, i, k, tries) ==
  LET n == B(i, 100 * k + tries, NN(m))  vs == TLCEval(OneMoves(m, X, n)) IN
  IF vs # {} THEN << n, CHOOSE v \in vs : \A w \in vs : v = w \/ Dot(v, [j \in 1 .. Len(v) |-> j * 7]) > Dot(w, [j \in 1 .. Len(v) |-> j * 7]) >>
  ELSE IF tries > 5 THEN << -1, << >> >> ELSE MoveOne(m, X, i, k, tries + 1)
(* moves that turn a cell inside out, and back; none of the shapes in doubt    *)
Leaps(d) == IF d = 2 THEN { << 9, 1 >>, << -9, -2 >>, << 2, 9 >>, << -1, -9 >>, << 15, 14 >>, << -14, 13 >> }
            ELSE { << 9, 1, 0 >>, << -9, -2, 1 >>, << 1, 9, 1 >>, << 0, -9, 1 >>, << 1, 0, 9 >>, << -1, 1, -9 >>, << 14, 13, 15 >> }
Tangle(m, X, i) ==
  LET n == B(i, 70, NN(m))
      ok == { v \in Leaps(m.sdim) : LET Y == [X EXCEPT ![n + 1] = VAdd(@, v)]  sh == { CellShape(m, Y, c) : c \in CellsOfNode(m, n) } IN
                "bad" \in sh /\ sh \subseteq { "good", "bad" } }
  IN  IF ok = {} THEN << >>
      ELSE LET v == CHOOSE v \in ok : TRUE
               mv(x) == [op |-> "move", n |-> n, x |-> x, raw |-> B(i, 71, 2) = 0]
               ask == << << Q("update"), Q("geom") >>, << Q("rgeom") >>, << Q("rgeom"), Q("update"), Q("geom") >> >>[1 + B(i, 72, 3)]
           IN  << mv(VAdd(At(X, n), v)) >> \o ask \o << mv(At(X, n)), Q("update"), Q("geom"), Q("rgeom") >>
LastX(m, ops) == LET f(X, o) == IF o.op = "moveall" THEN o.x ELSE IF o.op = "move" THEN [X EXCEPT ![o.n + 1] = o.x] ELSE X IN FoldLeft(f, m.X, ops)
RECURSIVE Hist(_, _, _, _, _, _)
Hist(m, X, i, k, qs, acc) ==
  IF k = 0 THEN acc
  ELSE LET r == B(i, 700 + k, 4)
           mv == TLCEval(IF r = 0 THEN << -1, << >> >> ELSE MoveOne(m, X, i, k, 0))
           Y == TLCEval(IF mv[1] < 0 THEN Affine(X, i, 800 + k, m.sdim) ELSE [X EXCEPT ![mv[1] + 1] = VAdd(@, mv[2])])
           op == IF mv[1] < 0 THEN [op |-> "moveall", x |-> Y]
                 ELSE [op |-> "move", n |-> mv[1], x |-> Y[mv[1] + 1], raw |-> B(i, 900 + k, 2) = 0]
           after == IF B(i, 950 + k, 3) = 0 THEN << >> ELSE IF B(i, 950 + k, 3) = 1 THEN qs ELSE << Q("update") >> \o qs
       IN  Hist(m, Y, i, k - 1, qs, TLCEval(acc \o << op >> \o after))
(* maps of all nodes of a mesh whose numbering is its own affair: rows of an  *)
(* integer matrix of positive determinant, and a shift                        *)
Mats == << << <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>, << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>,
           << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>> >>, << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>> >>, << <<1, 0, 1>>, <<1, 1, 0>>, <<0, 0, 1>> >> >>
Map1(i, k) == [op |-> "affine", a |-> Mats[1 + B(i, 300 + k, 6)], b |-> << B(i, 310 + k, 7) - 3, B(i, 320 + k, 7) - 3, B(i, 330 + k, 7) - 3 >>, raw |-> B(i, 340 + k, 2) = 0]
RECURSIVE Maps(_, _)
Maps(i, k) == IF k = 0 THEN << >>
              ELSE << Map1(i, k) >> \o (LET r == B(i, 350 + k, 4) IN IF r = 0 THEN << Q("geom"), Q("rgeom") >> ELSE IF r = 1 THEN << Q("update"), Q("geom") >> ELSE IF r = 2 THEN << Q("update"), Q("rgeom"), Q("geom") >> ELSE << >>)
                   \o Maps(i, k - 1)
MaxCoord(ops) == Max({ 0 } \cup UNION { IF o.op = "moveall" THEN UNION { { Abs(p[j]) : j \in 1 .. Len(p) } : p \in ToSet(o.x) } ELSE {} : o \in ToSet(ops) })
HistOps(m, i, qs) == LET h(k) == Hist(m, m.X, i, k, qs, << >>) \o << Q("update") >> \o qs
                     IN LET a == TLCEval(h(2 + B(i, 99, 3))) IN IF MaxCoord(a) > 40 THEN Hist(m, m.X, i, 1, qs, << >>) \o << Q("update") >> \o qs ELSE a

(* ---- M06: points in quarters ---- *)
Points(m, i, n) ==
  LET lo(k) == Min({ p[k] : p \in ToSet(m.X) })  hi(k) == Max({ p[k] : p \in ToSet(m.X) })
      rnd(j) == [k \in 1 .. m.sdim |-> 4 * lo(k) - 2 + Below(Sd(i) + j, k, 4 * (hi(k) - lo(k)) + 5)]
      mid(j) == LET c == Below(Sd(i) + 7, j, NC(m))  nd == At(m.cn, c)
                IN VAdd(P(m.X, Pick(Sd(i), 2 * j, nd)), VAdd(VScale(2, P(m.X, Pick(Sd(i), 2 * j + 1, nd))), P(m.X, Pick(Sd(i), 3 * j + 1, nd))))
  IN TLCEval([j \in 1 .. n |-> IF j % 3 = 0 THEN rnd(j) ELSE mid(j)])

(* ---- options under which a kind is available ---- *)
SomeOpt(i) == LET k == B(i, 40, 7) IN
  IF k = 0 THEN [NoneOn EXCEPT !.faces = TRUE] ELSE IF k = 1 THEN [NoneOn EXCEPT !.edges = TRUE, !.faces = TRUE]
  ELSE IF k = 2 THEN [NoneOn EXCEPT !.sides = TRUE] ELSE IF k = 3 THEN [NoneOn EXCEPT !.wedges = TRUE] ELSE IF k = 4 THEN [NoneOn EXCEPT !.corners = TRUE]
  ELSE IF k = 5 THEN NoneOn ELSE AllOn
AtLeast(kind, i) == IF kind = "sides" THEN (IF B(i, 41, 3) = 0 THEN [NoneOn EXCEPT !.sides = TRUE] ELSE IF B(i, 41, 3) = 1 THEN [NoneOn EXCEPT !.wedges = TRUE] ELSE AllOn)
                    ELSE IF kind = "wedges" THEN (IF B(i, 41, 3) = 0 THEN [NoneOn EXCEPT !.wedges = TRUE] ELSE AllOn)
                    ELSE IF B(i, 41, 2) = 0 THEN [NoneOn EXCEPT !.corners = TRUE] ELSE AllOn
Tiled(o, i) == [o EXCEPT !.tiles = LET r == B(i, 50, 9) IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 6 + B(i, 51, IF i % 7 = 2 THEN 15 ELSE 6) ELSE 1 + B(i, 51, 5), !.halo = B(i, 52, IF i % 7 = 2 THEN 7 ELSE 4), !.part = IF o.faces \/ o.sides \/ o.wedges \/ o.corners THEN B(i, 53, 5) ELSE 0]

(* tiles made by the user, asked for all together or also one by one          *)
MkTiles(m, o, i) == FoldLeft(LAMBDA acc, j : acc \o << [op |-> "mktile"] @@ UserTiles(Sd(i), m, o)[j] >> \o (IF B(i, 5030 + j, 3) = 0 THEN << Q("tiles") >> ELSE << >>),
                            << >>, [j \in 1 .. Len(UserTiles(Sd(i), m, o)) |-> j]) \o << Q("tiles") >>

TiledPlan(i) ==
  IF i % 7 = 0 THEN Sc(i, Box(i, TRUE), Tiled(SimpleOpt(AllOn), i), << Q("inc"), Q("tiles") >>)
  ELSE IF i % 7 = 1 THEN Sc(i, IF B(i, 67, 2) = 0 THEN UAxis1(i) ELSE Axis1(i, FALSE), Tiled(SomeOpt(i), i), << Q("inc"), Q("tiles") >>)
  ELSE IF i % 14 = 3 THEN Sc(i, SM(i, B(i, 60, 3)), Tiled(SurfOpt(SomeOpt(i)), i), << Q("tiles") >>)
  ELSE Sc(i, IF i % 7 = 2 THEN Strip(i) ELSE HM(i, B(i, 60, 3)), Tiled(IF Prop = "T03" THEN SomeOpt(i) ELSE IF B(i, 66, 2) = 0 THEN [NoneOn EXCEPT !.faces = TRUE] ELSE AllOn, i), << Q("tiles") >>)

Plan(i) ==
  CASE Prop = "M01" -> IF i % 4 = 0 THEN Sc(i, Axis1(i, FALSE), [SphOpt(AllOn, i) EXCEPT !.faces = B(i, 1, 2) = 0], << Q("inc") >>)
                       ELSE Sc(i, Box(i, FALSE), SimpleOpt([NoneOn EXCEPT !.faces = B(i, 1, 4) # 0]), << Q("inc") >>)
    [] Prop = "M02" -> IF i % 4 = 0 THEN Sc(i, Box(i, TRUE), SimpleOpt([NoneOn EXCEPT !.faces = B(i, 1, 4) # 0]), << Q("inc") >>)
                       ELSE IF i % 16 = 1 THEN Sc(i, Axis1(i, FALSE), SomeOpt(i), << Q("inc") >>)
                       ELSE IF i % 8 = 3 THEN Sc(i, SM(i, B(i, 60, 3)), SurfOpt(SomeOpt(i)), << Q("inc") >>)
                       ELSE Sc(i, HM(i, B(i, 60, 3)), SomeOpt(i), << Q("inc") >>)
    [] Prop = "M03" -> IF i % 6 = 0 THEN Sc(i, Box(i, TRUE), SimpleOpt([NoneOn EXCEPT !.faces = B(i, 1, 4) # 0]), << Q("inc"), Q("cls") >>)
                       ELSE IF i % 6 = 1 THEN Sc(i, Axis1(i, FALSE), SomeOpt(i), << Q("inc"), Q("cls") >>)
                       ELSE IF i % 12 = 3 THEN Sc(i, SM(i, B(i, 60, 3)), SurfOpt(SomeOpt(i)), << Q("cls") >>)
                       ELSE Sc(i, HM(i, IF i % 5 = 2 THEN 1 + B(i, 60, 2) ELSE B(i, 60, 3)), SomeOpt(i), << Q("cls") >>)
    [] Prop = "M04" -> IF i % 6 = 0 THEN Sc(i, Box(i, TRUE), SimpleOpt([NoneOn EXCEPT !.faces = TRUE]), << Q("inc"), Q("geom"), Q("rgeom") >>)
                       ELSE IF i % 6 = 1 THEN (LET o == SphOpt(SomeOpt(i), i) IN Sc(i, Axis1(i, o.geom = "SPH"), [o EXCEPT !.faces = TRUE], << Q("inc"), Q("geom"), Q("rgeom") >>))
                       ELSE IF i % 7 = 3 THEN Sc(i, SM(i, B(i, 60, 3)), SurfOpt(SomeOpt(i)), << Q("geom"), Q("rgeom") >>)
                       ELSE Sc(i, HM(i, B(i, 60, 3)), IF i % 5 \in { 3, 4 } /\ SomeOpt(i) = NoneOn THEN AllOn ELSE SomeOpt(i), << Q("geom"), Q("rgeom") >>)
    [] Prop = "M05" -> IF i % 14 = 8 THEN Sc(i, Box(i, TRUE), SimpleOpt([NoneOn EXCEPT !.faces = TRUE]),
                            << Q("inc"), Q("geom") >> \o Maps(i, 3) \o << Q("update"), Q("geom"), Q("rgeom") >>)
                       ELSE IF i % 7 = 1 THEN Sc(i, Axis1(i, FALSE), SphOpt(AllOn, i), << Q("inc"), Q("geom"), Q("sub"), [op |-> "move", n |-> 0, x |-> << -4 >>, raw |-> TRUE], Q("rgeom"), Q("rsub"), Q("geom"), Q("sub"), Q("update"), Q("geom"), Q("sub") >>)
                       ELSE LET m0 == TLCEval(IF i % 7 = 2 THEN SM(i, B(i, 60, 2)) ELSE HM(i, B(i, 60, 2)))  m == TLCEval(Enrich(m0))  o == IF i % 7 = 2 \/ B(i, 61, 3) = 0 THEN [NoneOn EXCEPT !.faces = TRUE, !.edges = TRUE] ELSE IF B(i, 61, 3) = 1 THEN [NoneOn EXCEPT !.sides = TRUE] ELSE AllOn
                                sub == o.sides
                                qs == << << Q("rgeom"), Q("geom") >>, << Q("geom") >> >>[1 + B(i, 62, 2)] \o (IF sub THEN << << Q("rsub") >>, << Q("sub"), Q("rsub") >>, << Q("sub") >> >>[1 + B(i, 63, 3)] ELSE << >>)
                            IN Sc(i, m0, o, LET h == TLCEval(HistOps(m, i, qs)) IN (IF B(i, 64, 2) = 0 THEN << >> ELSE qs) \o h \o (IF sub \/ m.dim = 1 \/ Surface(m) THEN << >> ELSE Tangle(m, LastX(m, h), i)))
    [] Prop = "M06" -> LET m == TLCEval(IF i % 3 = 0 THEN MeshOf(Desc2(i, 0)) ELSE MeshOf(Desc3c(i, 0)))
                           Y == TLCEval(Affine(m.X, i, 400, m.sdim))
                           ask == [op |-> "inside", pts |-> Points(m, i, 24), den |-> 4]
                           again == [op |-> "inside", pts |-> Points([m EXCEPT !.X = Y], i, 24), den |-> 4]
                       IN
                       Sc(i, m, IF B(i, 401, 3) = 0 /\ (m.dim = 2 \/ SomeOpt(i) # NoneOn) THEN SomeOpt(i) ELSE [NoneOn EXCEPT !.faces = TRUE],
                          IF i % 4 # 1 THEN << ask >> ELSE << ask, [op |-> "moveall", x |-> Y], Q("update"), again >>)
    [] Prop = "K01" -> IF i % 7 = 0 THEN Sc(i, Axis1(i, FALSE), SphOpt(AtLeast("sides", i), i), << Q("inc"), Q("sides") >>)
                       ELSE Sc(i, HM(i, B(i, 60, 3)), AtLeast("sides", i), << Q("sides") >>)
    [] Prop = "K02" -> IF i % 7 = 0 THEN Sc(i, Axis1(i, FALSE), SphOpt(AtLeast("wedges", i), i), << Q("inc"), Q("wedges") >>)
                       ELSE Sc(i, HM(i, B(i, 60, 3)), AtLeast("wedges", i), << Q("wedges") >>)
    [] Prop = "K03" -> IF i % 7 = 0 THEN Sc(i, Axis1(i, FALSE), SphOpt(AtLeast("corners", i), i), << Q("inc"), Q("corners") >>)
                       ELSE Sc(i, HM(i, B(i, 60, 3)), AtLeast("corners", i), << Q("corners") >>)
    [] Prop = "K04" -> IF i % 7 = 0 THEN (LET o == SphOpt(AllOn, i) IN Sc(i, Axis1(i, o.geom = "SPH"), o, << Q("inc"), Q("sub"), Q("rsub") >>))
                       ELSE Sc(i, HM(i, B(i, 60, 2)), AtLeast(<< "sides", "wedges", "corners", "corners" >>[1 + B(i, 65, 4)], i), << Q("sub"), Q("rsub") >>)
    [] Prop \in { "T01", "T02", "T03" } ->
         IF i % 3 = 0 THEN LET s == TiledPlan(i)  o == [s.opt EXCEPT !.tiles = 0, !.halo = 0] IN
                           Sc(i, s.mesh, o, SubSeq(s.ops, 1, Len(s.ops) - 1) \o (IF B(i, 5000, 3) = 0 THEN << Q("tiles") >> ELSE << >>) \o MkTiles(s.mesh, o, i))
         ELSE TiledPlan(i)

(* ---- theorems of the specification about every mesh it plans with ---- *)
GoodMesh(m) == WellFormed(m) /\ Valid(m, m.X)
Interior(m) == { s \in AllSides(m) : HasOpp(m, s) }
OppositeIsInvolution(m) == \A s \in Interior(m) : LET t == OppSide(m, s) IN t # s /\ t \in AllSides(m) /\ OppSide(m, t) = s
                              /\ (m.dim = 1 \/ SideNodes(m, t) = Reversed(SideNodes(m, s)))
TwoSidesPerEdge(m) == m.dim # 3 \/ \A c \in Cells(m) : \A e \in EdgesOfCell(m, c) : Cardinality({ s \in SidesOf(m, c) : s[3] = e }) = 2
CornerWedges(m) == m.dim = 1 \/ \A c \in Cells(m) : NodesOfCell(m, c) = UNION { ToSet(SideNodes(m, s)) : s \in SidesOf(m, c) }
ClosedNormals(m) == m.dim = 1 \/ \A c \in Cells(m) : VSumOver(FacesOfCell(m, c), LAMBDA f : OutN(m, m.X, c, f), m.sdim) = VZero(m.sdim)
Separated(m) == Surface(m) \/ \A c \in Cells(m) : \A n \in Nodes(m) : n \in NodesOfCell(m, c) \/ WhereIn(m, m.X, c, P(m.X, n), 1) = 1 \/ m.dim = 1 \/ WhereIn(m, m.X, c, P(m.X, n), 1) = 0
HaloGrows(m) == \A k \in 0 .. 2 : Halo(m, { 0 }, k) \subseteq Halo(m, { 0 }, k + 1) /\ Halo(m, { 0 }, 0) = {}
HaloIsDistance(m) == Halo(m, { 0 }, 1) = NodeNbrs(m, 0)
Owners(m) == \A f \in Faces(m) : (At(m.ft, f) = OWNED) => \E c \in CellsOfFace(m, f) : At(m.tp, c) = OWNED

VARIABLES id, plan, M
Init == id \in 1 .. N /\ plan = << >> /\ M = << >>
Next == /\ plan = << >>
        /\ plan' = Plan(id)
        /\ M' = IF plan'.mesh.fam = "h" THEN Enrich(plan'.mesh) ELSE << >>
        /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>)
        /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan, M >>
On(thm(_)) == M = << >> \/ thm(M)
MeshesWellFormed == On(LAMBDA m : WellFormed(m))
MeshesValid == On(LAMBDA m : Valid(m, m.X))
OppositesInvolutive == On(OppositeIsInvolution)
SidesPairUp == On(TwoSidesPerEdge)
CornersCovered == On(CornerWedges)
NormalsClose == On(ClosedNormals)
CellsSeparated == On(Separated)
HalosGrow == On(HaloGrows) /\ On(HaloIsDistance)
OwnershipConsistent == On(Owners)
=============================================================================
