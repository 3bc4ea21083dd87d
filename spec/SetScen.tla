------------------------------- MODULE SetScen -------------------------------
(* Plans for mesh sets: histories of making, changing and combining sets,     *)
(* every short history of one set, and geometric models with the orders in    *)
(* which their sets are asked for; and theorems of the specification.          *)
EXTENDS Sets, Json, IOUtils
Prop == IOEnv.PROP
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Thorough == IOEnv.TIER = "thorough"
Sd(i) == 149 * Seed0 + 911 * i + 3
B(i, k, n) == Below(Sd(i), 5000 + k, n)

AllOn == [faces |-> TRUE, edges |-> TRUE, sides |-> TRUE, wedges |-> TRUE, corners |-> TRUE, tiles |-> 0, halo |-> 0, part |-> 0, geom |-> "CART"]
FacesOn == [AllOn EXCEPT !.edges = FALSE, !.sides = FALSE, !.wedges = FALSE, !.corners = FALSE]
Desc(i, mode) ==
  LET k == B(i, 2, 13) IN
  CASE k = 12 -> D("quads", << 3, 3 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
    [] k = 10 -> D("hang", << 1 + B(i, 3, 3), 2 >>, 0, 0, Sd(i), mode)
    [] k = 11 -> IF B(i, 6, 2) = 0 THEN D("ells", << 1 + B(i, 3, 2), 1 >>, 0, 0, Sd(i), mode) ELSE D("xhang", << 1 + B(i, 3, 2), 2, 1 >>, 0, 0, Sd(i), mode)
    [] k = 0 -> D("line", << 2 + B(i, 1, 6) >>, 0, 0, Sd(i), mode)
    [] k = 1 -> D("fan", << 0 >>, 0, 0, Sd(i), mode)
    [] k = 2 -> D("honey", << 1 + B(i, 3, 2), 1 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
    [] k \in { 3, 4 } -> D("quads", << 1 + B(i, 3, 4), 1 + B(i, 4, 3) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
    [] k = 5 -> D("xquads", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, 1, B(i, 6, 3), Sd(i), mode)
    [] k = 6 -> D("bricks", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, 1 + B(i, 5, 2), 0, Sd(i), mode)
    [] k = 7 -> IF B(i, 3, 4) = 0 THEN D("xcaps", << 0, 0, 1 >>, 0, 0, Sd(i), mode) ELSE D("caps", << 0 >>, 0, 0, Sd(i), mode)
    [] OTHER -> D("bricks", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
(* surfaces in space: a plane may hold whole cells of them *)
DescW(i, mode) ==
  LET k == B(i, 2, 7) IN
  CASE k = 0 -> D("wfan", << 0 >>, 0, 0, Sd(i), mode) [] k = 1 -> D("whoney", << 1 + B(i, 3, 2), 1 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
    [] k = 2 -> D("wcaps", << 0 >>, 0, 0, Sd(i), mode) [] k = 3 -> D("tetshell", << 0 >>, 0, 0, Sd(i), mode)
    [] k = 4 -> D("shell", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
    [] OTHER -> D("wquads", << 1 + B(i, 3, 4), 1 + B(i, 4, 3) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
Flat(i, mode) == LET k == B(i, 2, 3) IN IF k = 0 THEN D("honey", << 2, 2 >>, 0, 0, Sd(i), mode) ELSE D("quads", << 2 + B(i, 3, 2), 2 + B(i, 4, 2) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
Sc(i, mesh, opt, names, ops) == [sid |-> i, mesh |-> mesh, opt |-> opt, names |-> names, ops |-> ops]

(* ---- S01, S02: histories ---- *)
NumOf(m, k) == CASE k = 0 -> NN(m) [] k = 1 -> NE(m) [] k = 2 -> NF(m) [] k = 3 -> NC(m) [] k = 4 -> Cardinality(AllSides(m))
                 [] k = 5 -> 2 * Cardinality(AllSides(m)) [] k = 6 -> Sum([c \in 1 .. NC(m) |-> Cardinality(NodesOfCell(m, c - 1))])
GuessCls(m) == [j \in 1 .. 7 |-> IF j = 1 THEN m.nt ELSE IF j = 2 THEN m.et ELSE IF j = 3 THEN m.ft ELSE IF j = 4 THEN m.tp ELSE Repeat(OWNED, NumOf(m, j - 1))]
SomeOf(i, k, set, n) ==      \* an ordered list of at most n of the set
  LET s == SetToSeq(set)  p == Perm(Sd(i) + k, Len(s)) IN TLCEval([j \in 1 .. Mn(n, Len(s)) |-> s[p[j] + 1]])
(* the same entities again in a list of those to remove *)
Twice(i, k, l) == IF l = << >> \/ B(i, k, 3) # 0 THEN l ELSE l \o SomeOf(i, k + 1, ToSet(l), 1 + B(i, k + 2, 3))
Members(h) == h.own \cup h.gho
Name(i, k) == << "a", "ab", "A", "", "d e", "a", "abc", "b", "the cells of the upper half 1", "the cells of the upper half 12", "the cells of the upper half 2" >>[1 + B(i, k, 11)]
(* one step in state (h, r): which handles live, and of which kind *)
OpAt(i, k, cls, h, n) ==
  LET r == B(i, k, 100)
      live == { j \in 1 .. Len(h) : h[j].kind # -1 }
      x == IF live = {} THEN 0 ELSE SomeOf(i, k + 1, live, 1)[1]
      hk == h[x].kind
      same == { j \in live : h[j].kind = hk }
      nall == Len(cls[hk + 1])
      free == Ids(nall) \ Members(h[x])
      temp == B(i, k + 2, 3) = 0
      many == << 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 6 >>[1 + B(i, k + 3, 11)]
      some == IF B(i, k + 16, 8) = 0 THEN B(i, k + 17, 40) ELSE B(i, k + 14, 6)
      rep == [j \in 1 .. many |-> SomeOf(i, k + 20 + j, same, 1)[1] - 1]      \* with repetition
      kinds == { q \in 0 .. 6 : Len(cls[q + 1]) > 0 }
      nk == IF live # {} /\ B(i, k + 4, 4) # 0 THEN hk ELSE SomeOf(i, k + 5, kinds, 1)[1]
  IN IF live = {} \/ r < 14 THEN
        [op |-> "mk", name |-> Name(i, k + 6), kind |-> nk, rev |-> B(i, k + 7, 4) # 0, temp |-> B(i, k + 8, 5) = 0,
         ents |-> SomeOf(i, k + 9, Ids(Len(cls[nk + 1])), IF B(i, k + 10, 12) = 11 THEN Mn(60, Len(cls[nk + 1])) ELSE B(i, k + 10, 1 + Mn(9, Len(cls[nk + 1]))))]
     ELSE IF n = "algebra" THEN
        (IF r < 34 THEN [op |-> "merge", hs |-> rep, temp |-> temp] ELSE IF r < 52 THEN [op |-> "inter", hs |-> rep, temp |-> temp]
         ELSE IF r < 70 THEN [op |-> "sub", h |-> x - 1, hs |-> IF B(i, k + 11, 5) = 0 THEN << >> ELSE rep, temp |-> temp]
         ELSE IF r < 84 THEN [op |-> "comp", hs |-> rep, temp |-> temp]
         ELSE IF r < 88 THEN [op |-> "copy", h |-> x - 1] ELSE IF r < 90 THEN [op |-> "addset", h |-> x - 1]
         ELSE IF r < 93 THEN [op |-> "rename", h |-> x - 1, name |-> Name(i, k + 12)]
         ELSE IF r < 97 /\ free # {} THEN [op |-> "adds", h |-> x - 1, l |-> SomeOf(i, k + 13, free, 1 + B(i, k + 14, 3))]
         ELSE [op |-> "rems", h |-> x - 1, l |-> SomeOf(i, k + 13, Ids(nall), 1 + B(i, k + 14, 3))])
     ELSE IF r < 34 /\ free # {} THEN [op |-> "add", h |-> x - 1, l |-> SomeOf(i, k + 13, free, 1)]
     ELSE IF r < 56 /\ free # {} THEN [op |-> "adds", h |-> x - 1, l |-> SomeOf(i, k + 13, free, some)]
     ELSE IF r < 72 THEN [op |-> "rem", h |-> x - 1, l |-> IF B(i, k + 15, 4) = 0 \/ Members(h[x]) = {} THEN SomeOf(i, k + 13, Ids(nall), 1) ELSE SomeOf(i, k + 13, Members(h[x]), 1)]
     ELSE IF r < 88 THEN [op |-> "rems", h |-> x - 1, l |-> Twice(i, k + 31, IF B(i, k + 15, 3) = 0 THEN SomeOf(i, k + 13, Ids(nall), some) ELSE SomeOf(i, k + 13, Members(h[x]), some))]
     ELSE IF r < 90 THEN [op |-> "clear", h |-> x - 1] ELSE IF r < 94 THEN [op |-> "copy", h |-> x - 1]
     ELSE IF r < 97 THEN [op |-> "rename", h |-> x - 1, name |-> Name(i, k + 12)] ELSE [op |-> "merge", hs |-> rep, temp |-> temp]
RECURSIVE Ops(_, _, _, _, _, _, _)
Ops(i, k, cls, h, r, n, acc) ==
  IF k = 0 THEN acc
  ELSE LET op == TLCEval(OpAt(i, 40 * k, cls, h, n))  d == TLCEval(Do(h, r, cls, op)) IN Ops(i, k - 1, cls, d.H, d.R, n, TLCEval(Append(acc, op)))
History(i, n, len) ==
  LET m == TLCEval(Enrich(MeshOf(Desc(i, << 0, 1, 2, 2, 1 >>[1 + B(i, 7, 5)]))))  o == IF B(i, 8, IF m.dim < 3 THEN 2 ELSE 4) = 0 THEN AllOn ELSE FacesOn
      g == TLCEval(GuessCls(m))  cls == TLCEval([j \in 1 .. 7 |-> IF (j = 2 \/ j > 4) /\ ~ o.edges THEN << >> ELSE g[j]])
  IN [sid |-> i, mesh |-> [f \in DOMAIN m \ { "conT", "fonT", "cofT" } |-> m[f]], opt |-> o, names |-> << "a", "ab", "nosuch", "the cells of the upper half 1", "the cells of the upper half 2" >>, ops |-> Ops(i, IF i % 60 = 31 THEN 4 * len ELSE len, cls, << >>, << >>, n, << >>)]

(* every history of up to two changes of every set over a small universe *)
Uni(m) == LET o == SomeOf(1, 1, Univ(GuessCls(m), CELL, OWNED), IF Thorough THEN 3 ELSE 2)  g == SomeOf(1, 2, Univ(GuessCls(m), CELL, GHOST), 2)  b == SomeOf(1, 3, Univ(GuessCls(m), CELL, BGHOST), 1) IN o \o g \o b
Lists(set, n) == UNION { { s \in [1 .. k -> set] : NoDup(s) } : k \in 0 .. n }
Changes(uni, mem) == { [o |-> "add", l |-> << e >>] : e \in uni \ mem } \cup { [o |-> "rem", l |-> << e >>] : e \in uni }
              \cup { [o |-> "adds", l |-> s] : s \in { t \in Lists(uni \ mem, 3) : Len(t) # 1 } }
              \cup { [o |-> "rems", l |-> s] : s \in { t \in Lists(uni, IF Thorough THEN 3 ELSE 2) : Len(t) # 1 } \cup { << e, e >> : e \in uni } }
After(uni, mem, c) == IF c.o \in { "add", "adds" } THEN mem \cup ToSet(c.l) ELSE mem \ ToSet(c.l)
HistsFrom(uni, init) == UNION { { [init |-> SetToSeq(init), st |-> << c1, c2 >>] : c2 \in Changes(uni, After(uni, init, c1)) } : c1 \in Changes(uni, init) }
Inits(m) == SetToSeq(SUBSET { e \in ToSet(Uni(m)) : At(m.tp, e) # BGHOST })
Exhaustive(i) ==
  LET m == TLCEval(Enrich(MeshOf(Flat(1, 2))))  u == TLCEval(Uni(m))  n == Len(Inits(m)) IN
  IF i > 2 * n THEN History(i, "change", 8)
  ELSE [sid |-> i, mesh |-> [f \in DOMAIN m \ { "conT", "fonT", "cofT" } |-> m[f]], opt |-> FacesOn, names |-> << >>,
        ops |-> << [op |-> "hist", kind |-> CELL, rev |-> i <= n, uni |-> u, hs |-> SetToSeq(HistsFrom(ToSet(u), Inits(m)[1 + ((i - 1) % n)]))] >>]

(* ---- S03, T04: geometric models ---- *)
Lo(m, k) == Min({ p[k] : p \in ToSet(m.X) })
Hi(m, k) == Max({ p[k] : p \in ToSet(m.X) })
(* quarters, odd ones mostly, so that centroids seldom fall on a boundary *)
Coord(i, q, m, k) == LET w == 4 * (Hi(m, k) - Lo(m, k)) + 9  v == 4 * Lo(m, k) - 4 + B(i, q, w) IN IF B(i, q + 1, 4) = 0 THEN 4 * (v \div 4) ELSE v
Node(i, q, m) == P(m.X, B(i, q, NN(m)))
BoxR(i, q, m, name) ==
  LET p0 == [k \in 1 .. m.sdim |-> Coord(i, q + 3 * k, m, k)]
      p1 == [k \in 1 .. m.sdim |-> Coord(i, q + 30 + 3 * k, m, k)]
      deg == B(i, q + 60, 7)
  IN [t |-> "box", name |-> name, den |-> 4,
      p0 |-> IF deg = 0 THEN VScale(4, Node(i, q + 61, m)) ELSE p0,
      p1 |-> IF deg = 0 THEN [p1 EXCEPT ![1 + B(i, q + 62, m.sdim)] = 4 * Node(i, q + 61, m)[1 + B(i, q + 62, m.sdim)]] ELSE p1]
PlaneR(i, q, m, name) ==
  LET f == B(i, q, NF(m))  v == IF B(i, q + 1, 4) # 0 THEN (IF Surface(m) THEN AreaVec2(Pts(m.X, At(m.cn, CHOOSE c \in CellsOfFace(m, f) : TRUE))) ELSE FaceNormalN(m, m.X, f, FALSE)) ELSE [k \in 1 .. m.sdim |-> B(i, q + 1 + k, 5) - 2]
  IN [t |-> "plane", name |-> name, den |-> 4, p |-> VScale(4, P(m.X, At(m.fn, f)[1])),
      n |-> IF v = VZero(m.sdim) THEN [k \in 1 .. m.sdim |-> IF k = 1 THEN 1 ELSE 0] ELSE v]
PointR(i, q, m, name) == LET c == B(i, q + 8, NC(m))  nd == At(m.cn, c) IN
  [t |-> "point", name |-> name, den |-> 4, p |-> IF B(i, q, 3) = 0 THEN VScale(4, Node(i, q + 1, m)) ELSE IF B(i, q, 3) = 1 THEN [k \in 1 .. m.sdim |-> Coord(i, q + 3 * k, m, k)]
     ELSE IF NN(m) = 8 /\ m.sdim = 2 /\ NC(m) = 5 THEN << 21 + B(i, q + 9, 7), << 2, 46 >>[1 + B(i, q + 10, 2)] >>
     ELSE VAdd(P(m.X, Pick(Sd(i), q, nd)), VAdd(VScale(2, P(m.X, Pick(Sd(i), q + 1, nd))), P(m.X, Pick(Sd(i), q + 2, nd))))]
(* a rectangle or triangle in a coordinate plane through a node, or a face *)
PolyR(i, q, m, name) ==
  LET x == Node(i, q, m) IN
  IF m.sdim = 2 THEN [t |-> "polygon", name |-> name, den |-> 4, pts |-> LET f == B(i, q + 1, NF(m)) a == P(m.X, At(m.fn, f)[1]) b == P(m.X, At(m.fn, f)[2]) IN
                       << VScale(4, a), VAdd(VScale(4, a), VScale(4 * (1 + B(i, q + 2, 3)), VSub(b, a))) >>]
  ELSE IF B(i, q + 3, 3) = 0 /\ Surface(m) THEN [t |-> "polygon", name |-> name, den |-> 4, pts |-> [j \in 1 .. Len(At(m.cn, B(i, q + 1, NC(m)))) |-> VScale(4, P(m.X, At(m.cn, B(i, q + 1, NC(m)))[j]))]]
  ELSE IF B(i, q + 3, 3) = 0 THEN [t |-> "polygon", name |-> name, den |-> 4, pts |-> [j \in 1 .. Len(At(m.fn, B(i, q + 1, NF(m)))) |-> VScale(4, P(m.X, At(m.fn, B(i, q + 1, NF(m)))[j]))]]
  ELSE LET k == 1 + B(i, q + 4, 3)  a == (k % 3) + 1  b == ((k + 1) % 3) + 1
           at(u, v) == [j \in 1 .. 3 |-> IF j = k THEN 4 * x[k] ELSE IF j = a THEN u ELSE v]
           u0 == Coord(i, q + 5, m, a)  u1 == u0 + 2 + B(i, q + 7, 12)  v0 == Coord(i, q + 9, m, b)  v1 == v0 + 2 + B(i, q + 11, 12)
           cyc == << at(u0, v0), at(u1, v0), at(u1, v1), at(u0, v1) >>
           bent == << at(u0, v0), at(u1, v0), at(u1, v1), at(u0 + 1, v0 + 1), at(u0, v1) >>     \* not convex
           p == IF B(i, q + 12, 4) = 0 THEN bent ELSE IF B(i, q + 12, 4) = 1 THEN << cyc[1], cyc[2], cyc[3] >> ELSE cyc
       IN [t |-> "polygon", name |-> name, den |-> 4, pts |-> IF B(i, q + 13, 2) = 0 THEN p ELSE Reversed(p)]
LabelR(i, q, name, labels) == LET l == labels[1 + B(i, q, Len(labels))] IN
  [t |-> "label", name |-> name, label |-> IF B(i, q + 1, 8) = 0 THEN "none" ELSE l.label,
   ent |-> (IF B(i, q + 2, 2) = 0 THEN "" ELSE "Entity_kind::") \o << "NODE", "EDGE", "FACE", "CELL" >>[l.kind + 1]]
BasicR(i, q, m, name, labels) ==
  LET r == B(i, q, IF labels = << >> THEN 10 ELSE 13) IN
  IF r < 5 THEN BoxR(i, q + 100, m, name) ELSE IF r < 7 THEN PlaneR(i, q + 100, m, name) ELSE IF r = 7 /\ ~ Surface(m) THEN PointR(i, q + 100, m, name)
  ELSE IF r < 10 THEN (IF m.sdim > 1 THEN PolyR(i, q + 100, m, name) ELSE BoxR(i, q + 100, m, name)) ELSE LabelR(i, q + 100, name, labels)
LogicalR(i, q, regs, name) ==
  LET n == << 1, 1, 2, 2, 2, 3, 3, 4, 5 >>[1 + B(i, q, 9)]  bop == << "Union", "Intersect", "Subtract", "Complement" >>[1 + B(i, q + 1, 4)]
      pick(j) == regs[1 + B(i, q + 2 + j, Len(regs))].name
  IN [t |-> "logical", name |-> name, bop |-> bop, temp |-> B(i, q + 8, 5) = 0, byname |-> B(i, q + 9, 2) = 0,
      of |-> [j \in 1 .. n |-> pick(j)]]
RECURSIVE RegList(_, _, _, _, _, _)
RegList(i, k, n, m, labels, acc) ==
  IF k > n THEN acc
  ELSE LET name == IF B(i, 28, 4) = 0 THEN << "the upper half 1", "the upper half 12", "the upper half", "The upper half", "the upper half 2", "upper half", "r" >>[k] ELSE << "r1", "r12", "r", "R1", "r 1", "r122", "2r" >>[k]  q == 400 * k IN
       RegList(i, k + 1, n, m, labels, TLCEval(Append(acc, IF k > 2 /\ B(i, q + 1, 2) = 0 THEN LogicalR(i, q + 10, acc, name) ELSE BasicR(i, q + 10, m, name, labels))))
(* kinds all components of a region allow *)
RECURSIVE Allows(_, _, _)
Allows(regs, name, k) == LET r == Reg(regs, name) IN IF r.t = "logical" THEN \A c \in ToSet(r.of) : Allows(regs, c, k) ELSE Supports(r, k)
KindsFor(regs, r) == { k \in { NODE, FACE, CELL } : Allows(regs, r.name, k) }
MapFor(i, q, regs) ==
  LET logical == { j \in 1 .. Len(regs) : regs[j].t = "logical" \/ B(i, q + j, 4) = 0 } IN
  SetToSeq({ [name |-> regs[j].name, kinds |-> SetToSeq(IF B(i, q + 20 + j, 12) = 0 THEN { NODE, FACE, CELL } ELSE KindsFor(regs, regs[j]))] : j \in logical })
RegOp(i, q, regs) ==
  LET r == B(i, q, 10)  name == IF B(i, q + 1, 12) = 0 THEN "nosuch" ELSE regs[1 + B(i, q + 2, Len(regs))].name
      ok == IF name = "nosuch" THEN {} ELSE KindsFor(regs, Reg(regs, name))
      prim == name = "nosuch" \/ Reg(regs, name).t # "logical"
      k == IF ok # {} /\ B(i, q + 3, 4) # 0 THEN SomeOf(i, q + 4, ok, 1)[1] ELSE << NODE, FACE, CELL, EDGE >>[1 + B(i, q + 5, IF prim THEN 4 ELSE 3)]
  IN IF r < 3 THEN [op |-> "init", map |-> MapFor(i, q + 6, regs)]
     ELSE IF r < 5 THEN [op |-> "build", name |-> name, kind |-> k, rev |-> B(i, q + 7, 2) = 0]
     ELSE IF r < 9 THEN [op |-> "fromreg", name |-> name, kind |-> k, create |-> B(i, q + 8, 3) # 0, const |-> FALSE]
     ELSE [op |-> "fromreg", name |-> name, kind |-> k, create |-> FALSE, const |-> TRUE]
Labelled(m, i) ==
  [j \in 1 .. B(i, 70, 3) |-> LET k == << NODE, FACE, CELL >>[1 + B(i, 70 + j, 3)] IN
     [label |-> << "L1", "L" >>[1 + B(i, 75 + j, 2)], kind |-> k, ents |-> SomeOf(i, 80 + j, Ids(NumOf(m, k)), B(i, 85 + j, 7))]]
UniqueLabels(ls) == SelectSeq(ls, LAMBDA l : \A j \in 1 .. Len(ls) : ls[j] = l \/ << ls[j].label, ls[j].kind >> # << l.label, l.kind >>)
(* a built-in mesh, as the specification sees it *)
LatticeOf(sc) ==
  LET n == sc.n  st(k) == (sc.hi[k] - sc.lo[k]) \div sc.n[k]  id(a, b, c) == a + (n[1] + 1) * (b + (n[2] + 1) * c) IN
  [dim |-> 3, sdim |-> 3, X |-> [x \in 1 .. (n[1] + 1) * (n[2] + 1) * (n[3] + 1) |-> LET y == x - 1 IN
       << sc.lo[1] + st(1) * (y % (n[1] + 1)), sc.lo[2] + st(2) * ((y \div (n[1] + 1)) % (n[2] + 1)), sc.lo[3] + st(3) * (y \div ((n[1] + 1) * (n[2] + 1))) >>],
   cn |-> << << id(0,0,0), id(1,0,0), id(1,1,0), id(0,1,0), id(0,0,1), id(1,0,1), id(1,1,1), id(0,1,1) >> >>,
   fn |-> << << id(0,0,0), id(1,0,0), id(1,1,0), id(0,1,0) >>, << id(0,0,0), id(1,0,0), id(1,0,1), id(0,0,1) >>, << id(1,0,0), id(1,1,0), id(1,1,1), id(1,0,1) >> >>]
Simple3(i) == LET n == << 1 + B(i, 11, 3), 1 + B(i, 12, 3), 1 + B(i, 13, 2) >> IN
  [fam |-> "s3", lo |-> << B(i, 14, 5) - 2, B(i, 15, 5) - 2, B(i, 16, 5) - 2 >>, n |-> n,
   hi |-> << B(i, 14, 5) - 2 + n[1] * (1 + B(i, 17, 2)), B(i, 15, 5) - 2 + n[2] * (1 + B(i, 18, 2)), B(i, 16, 5) - 2 + n[3] * (1 + B(i, 19, 2)) >>]
WithRegions(i, tiles) ==
  LET simple == B(i, 20, 6) = 0
      sm == Simple3(i)
      d == IF B(i, 21, 8) = 0 THEN D("line", << 2 + B(i, 1, 6) >>, 0, 0, Sd(i), B(i, 22, 3)) ELSE IF B(i, 21, 8) = 1 THEN DescW(i, B(i, 7, 3)) ELSE Desc(i, << 0, 1, 2 >>[1 + B(i, 7, 3)])
      m0 == TLCEval(IF simple THEN LatticeOf(sm) ELSE Enrich(MeshOf(d)))
      labels == IF simple THEN << >> ELSE UniqueLabels(Labelled(m0, i))
      regs == TLCEval(RegList(i, 1, 3 + B(i, 23, 4), m0, labels, << >>))
      mesh == IF simple THEN sm @@ [initsets |-> FALSE] ELSE [f \in DOMAIN m0 \ { "conT", "fonT", "cofT" } |-> m0[f]] @@ [initsets |-> FALSE, labels |-> labels]
      auto == \A j \in 1 .. Len(regs) : regs[j].t # "logical" /\ (regs[j].t = "point" => m0.sdim > 1) /\ (regs[j].t = "box" => RDim(regs[j]) > 0)
      bare == mesh.initsets = FALSE /\ auto /\ B(i, 24, 2) = 0       \* sets made with the mesh
      n == 2 + B(i, 25, 5)
      ops == [j \in 1 .. n |-> RegOp(i, 4000 + 50 * j, regs)]
      o == [FacesOn EXCEPT !.tiles = tiles, !.halo = B(i, 26, 3), !.part = B(i, 27, 2)]
  IN [sid |-> i, mesh |-> IF bare THEN [mesh EXCEPT !.initsets = TRUE] ELSE mesh, opt |-> o, gdim |-> m0.sdim, regions |-> regs, names |-> << "nosuch" >> \o [j \in 1 .. Len(regs) |-> regs[j].name],
      ops |-> IF tiles > 0 THEN << [op |-> "init", map |-> MapFor(i, 3900, regs)] >> \o SubSeq(ops, 1, 1) \o << [op |-> "tileset"] >> ELSE << [op |-> "valid"] >> \o ops]
(* sets of point regions, on a mesh whose cells do not own their closest node *)
Pointy(i) ==
  LET d == IF B(i, 3, 4) = 0 THEN D("xcaps", << 0, 0, 1 >>, 0, 0, Sd(i), B(i, 7, 3)) ELSE IF B(i, 3, 4) = 1 THEN Desc(i, B(i, 7, 3)) ELSE D("caps", << 0 >>, 0, 0, Sd(i), B(i, 7, 3))
      m == TLCEval(Enrich(MeshOf(d)))
      names == << "r1", "r12", "r", "12" >>
      regs == TLCEval([j \in 1 .. 4 |-> PointR(i, 100 * j, m, names[j])])
  IN [sid |-> i, mesh |-> [f \in DOMAIN m \ { "conT", "fonT", "cofT" } |-> m[f]] @@ [initsets |-> FALSE, labels |-> << >>], opt |-> FacesOn, gdim |-> m.sdim, regions |-> regs, names |-> names,
      ops |-> [j \in 1 .. 4 |-> [op |-> "fromreg", name |-> names[j], kind |-> IF B(i, 60 + j, 4) = 0 /\ m.sdim > 1 THEN NODE ELSE CELL, create |-> TRUE, const |-> FALSE]]]

(* planes and polygons against faces that are not flat: a mesh with displaced nodes *)
Shifts == << << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << -1, 0, 0 >>, << 0, -1, 0 >>, << 0, 0, -1 >> >>
Warped(i) ==
  LET surf == B(i, 21, 3) = 0
      d == IF surf /\ B(i, 22, 3) # 0 THEN D("whoney", << 1 + B(i, 3, 2), 1 + B(i, 4, 2) >>, 0, 0, Sd(i), B(i, 7, 3))
           ELSE IF B(i, 22, 3) = 2 THEN D("xhoney", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, 0, 0, Sd(i), B(i, 7, 3))
           ELSE IF surf THEN D(<< "wquads", "shell" >>[1 + B(i, 23, 2)], << 1 + B(i, 3, 3), 1 + B(i, 4, 3), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), B(i, 7, 3))
           ELSE D("bricks", << 1 + B(i, 3, 3), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), B(i, 7, 3))
      m0 == TLCEval(MeshOf(d))
      hit(n) == B(i, 200 + n, IF B(i, 24, 2) = 0 THEN 5 ELSE 14) = 0
      m == TLCEval([m0 EXCEPT !.X = [n \in 1 .. Len(m0.X) |-> IF hit(n) THEN VAdd(m0.X[n], Shifts[1 + B(i, 300 + n, 6)]) ELSE m0.X[n]]])
      me == TLCEval(Enrich(m))
      names == << "r1", "r2", "r3", "r4", "r5" >>
      (* through three nodes of a face, wherever the fourth is *)
      thru(q, name) == LET f == IF surf THEN At(m.cn, B(i, q, NC(m))) ELSE At(m.fn, B(i, q, NF(m)))  j == IF B(i, q + 3, 2) = 0 THEN 0 ELSE B(i, q + 1, Len(f))
                           a == P(m.X, f[j + 1])  b == P(m.X, f[((j + 1) % Len(f)) + 1])  c == P(m.X, f[((j + 2) % Len(f)) + 1])
                       IN IF B(i, q + 2, 4) # 0 \/ Cross3(VSub(b, a), VSub(c, a)) = << 0, 0, 0 >> THEN [t |-> "plane", name |-> name, den |-> 4, p |-> VScale(4, a), n |-> LET v == Cross3(VSub(b, a), VSub(c, a)) IN IF v = << 0, 0, 0 >> THEN << 1, 2, 3 >> ELSE v]
                          ELSE [t |-> "polygon", name |-> name, den |-> 4, pts |-> << VScale(4, a), VScale(4, b), VScale(4, c), VScale(4, VAdd(VSub(a, b), c)) >>]
      regs == TLCEval([j \in 1 .. 4 |-> thru(100 * j + 1000, names[j])]
                      \o << [t |-> "logical", name |-> "r5", bop |-> "Union", temp |-> FALSE, byname |-> TRUE, of |-> << "r1", "r2", "r3" >>] >>)
  IN [sid |-> i, mesh |-> m @@ [initsets |-> FALSE, labels |-> << >>], opt |-> FacesOn, gdim |-> 3, regions |-> regs, names |-> names,
      ops |-> [j \in 1 .. 5 |-> [op |-> "fromreg", name |-> names[j], kind |-> IF B(i, 60 + j, 3) = 0 THEN NODE ELSE IF surf /\ B(i, 60 + j, 6) # 2 /\ (IF j = 5 THEN \A k \in 1 .. 3 : regs[k].t # "polygon" ELSE regs[j].t # "polygon") THEN CELL ELSE FACE, create |-> TRUE, const |-> FALSE]]]

(* user-made sets of any kind, seen from tiles *)
TiledHistory(i) ==
  LET h == History(i, "algebra", 5) IN
  IF B(i, 55, 2) = 0 THEN [h EXCEPT !.opt = @ @@ [mk |-> UserTiles(Sd(i), h.mesh, h.opt)], !.ops = @ \o << [op |-> "tileset"] >>]
  ELSE [h EXCEPT !.opt.tiles = 1 + B(i, 51, 4), !.opt.halo = B(i, 52, 3), !.opt.part = B(i, 53, 2), !.ops = @ \o << [op |-> "tileset"] >>]

Plan(i) ==
  CASE Prop = "S01" -> History(i, "algebra", 9)
    [] Prop = "S02" -> Exhaustive(i)
    [] Prop = "S03" -> IF i % 10 = 0 THEN Pointy(i) ELSE IF i % 10 \in { 5, 8 } THEN Warped(i) ELSE WithRegions(i, 0)
    [] Prop = "T04" -> IF i % 2 = 0 THEN TiledHistory(i) ELSE WithRegions(i, 1 + B(i, 54, 4))

(* ---- theorems: laws of the algebra, over the sets of each planned state --- *)
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == /\ plan = << >> /\ plan' = Plan(id)
        /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>)
        /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
