----------------------------- MODULE StateScen -----------------------------
(* Histories of a state, drawn from the transitions of State, whose           *)
(* invariants are checked in every state passed.                               *)
EXTENDS State, Json, IOUtils
Prop == IOEnv.PROP
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Sd(i) == 157 * Seed0 + 733 * i + 11
B(i, k, n) == Below(Sd(i), 3000 + k, n)
OneOf(i, k, s) == s[1 + B(i, k, Len(s))]
SomeOf(i, k, set, n) == LET s == SetToSeq(set)  p == Perm(Sd(i) + k, Len(s)) IN TLCEval([j \in 1 .. Mn(n, Len(s)) |-> s[p[j] + 1]])

AllOn == [faces |-> TRUE, edges |-> TRUE, sides |-> TRUE, wedges |-> TRUE, corners |-> TRUE, tiles |-> 0, halo |-> 0, part |-> 0, geom |-> "CART"]
FacesOn == [AllOn EXCEPT !.edges = FALSE, !.sides = FALSE, !.wedges = FALSE, !.corners = FALSE]
Desc(i) ==
  LET k == B(i, 2, 8)  mode == OneOf(i, 7, << 0, 1, 2, 2, 3, 1 >>) IN
  CASE k = 0 -> D("line", << 2 + B(i, 1, 5) >>, 0, 0, Sd(i), mode)
    [] k = 1 -> D("honey", << 1 + B(i, 3, 2), 1 + B(i, 4, 2) >>, 0, 0, Sd(i), mode)
    [] k \in { 2, 3, 4 } -> D("quads", << 1 + B(i, 3, 3), 1 + B(i, 4, 3) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), mode)
    [] k = 5 -> D("xquads", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, 1, B(i, 6, 3), Sd(i), mode)
    [] OTHER -> D("bricks", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 + B(i, 5, 2) >>, 0, 0, Sd(i), mode)
NumOf(m, k) == CASE k = 0 -> NN(m) [] k = 1 -> NE(m) [] k = 2 -> NF(m) [] k = 3 -> NC(m) [] k = 4 -> Cardinality(AllSides(m))
                 [] k = 5 -> 2 * Cardinality(AllSides(m)) [] k = 6 -> Sum([c \in 1 .. NC(m) |-> Cardinality(NodesOfCell(m, c - 1))])
(* what the planner knows of the counts: only that there is something         *)
GuessEnv(m, nt, fields) == [cls |-> m.tp, cnt |-> [d \in 1 .. 2 + nt |-> [k \in 1 .. 7 |-> << 1, 1, 1, 1 >>]], sdim |-> m.sdim, fields |-> fields]
Comp(dt) == CASE dt \in { "int", "double" } -> 1 [] dt = "arr2" -> 2 [] dt = "arr3" -> 3 [] dt = "arr6" -> 6
ValAt(i, k, dt) == IF Comp(dt) = 1 THEN 1 + B(i, k, 97) ELSE [c \in 1 .. Comp(dt) |-> 1 + B(i, k + c, 97)]
DTs == << "double", "int", "arr2", "arr3", "arr6" >>

(* ---- one step of the history i at step number s, in state st ---- *)
(* pools from which identities are drawn, small so that they meet              *)
Pools(i, m, o, n) ==
  [names |-> SubSeq(IF B(i, 21, 4) = 0 THEN << "velocity of the fluid 1", "velocity of the fluid 12", "velocity of the fluid 2", "velocity" >> ELSE << "a", "ab", "A b", "" >>, 1, 1 + B(i, 11, IF Prop \in { "V02", "V06" } THEN 3 ELSE 2)),
   dts |-> SubSeq(RotSeq(DTs, B(i, 12, 5)), 1, 1 + B(i, 13, 2)),
   doms |-> << 0 >> \o (IF o.tiles > 0 THEN << 1 + B(i, 14, o.tiles) >> ELSE << >>) \o (IF B(i, 15, 3) = 0 THEN << -1 >> ELSE << >>),
   kinds |-> IF o.edges THEN SubSeq(RotSeq(<< 3, 0, 2, 1, 4, 5, 6 >>, B(i, 16, 7)), 1, 1 + B(i, 17, 3)) ELSE SubSeq(RotSeq(<< 3, 0, 2 >>, B(i, 16, 3)), 1, 1 + B(i, 17, 2)),
   types |-> SubSeq(RotSeq(<< 4, 1, 2, 3 >>, OneOf(i, 18, << 0, 0, 0, 1, 2, 3 >>)), 1, 1 + B(i, 19, 3))]
SameButType(st, v) == { j \in 1 .. Len(st.R) : LET h == st.H[st.R[j]] IN h.name = v.name /\ h.mult = v.mult /\ h.dt = v.dt /\ h.dom = v.dom /\ h.kind = v.kind }
Matrix(i, k, dt, st, nc, lay) == IF lay = "cell" THEN [c \in 1 .. nc |-> [m \in 1 .. Len(st.mats) |-> ValAt(i, k + 100 * c + 7 * m, dt)]]
                                 ELSE [m \in 1 .. Len(st.mats) |-> [c \in 1 .. nc |-> ValAt(i, k + 100 * c + 7 * m, dt)]]
NewVec(i, k, st, m, pool, o, opname, mults) ==
  LET mult == OneOf(i, k + 1, mults)
      dt == OneOf(i, k + 2, pool.dts)
      dom == IF mult = "multi" /\ B(i, k + 3, 4) # 0 THEN 0 ELSE OneOf(i, k + 3, pool.doms)
      kind == IF mult = "multi" THEN CELL ELSE OneOf(i, k + 4, pool.kinds)
      dom2 == IF mult = "multi" /\ dom = -1 THEN 0 ELSE dom
      v0 == [name |-> OneOf(i, k + 6, pool.names), mult |-> mult, dt |-> dt, dom |-> dom2, kind |-> kind]
      type0 == OneOf(i, k + 5, pool.types)
      clash == { j \in SameButType(st, v0) : st.H[st.R[j]].type # ALLT }
      type == IF opname = "add" /\ type0 = ALLT /\ clash # {} THEN st.H[st.R[SetToSeq(clash)[1]]].type ELSE type0
      how == OneOf(i, k + 7, << "val", "data", "none" >>)
      lay == OneOf(i, k + 8, << "cell", "mat" >>)
      base == [op |-> opname, how |-> how, type |-> type] @@ v0
  IN CASE how = "val" -> base @@ [val |-> ValAt(i, k + 10, dt)]
       [] how = "data" -> base @@ (IF mult = "uni" THEN [data |-> [e \in 1 .. NumOf(m, kind) |-> ValAt(i, k + 20 + 7 * e, dt)]] ELSE [lay |-> lay, data |-> Matrix(i, k + 20, dt, st, NC(m), lay)])
       [] OTHER -> base
AskedFor(i, k, st, pool, o) ==
  LET j == IF Len(st.R) > 0 /\ B(i, k, 3) # 0 THEN st.R[1 + B(i, k + 1, Len(st.R))] ELSE 0
      h == IF j = 0 THEN [name |-> OneOf(i, k + 2, pool.names), mult |-> OneOf(i, k + 3, << "uni", "multi" >>), dt |-> OneOf(i, k + 4, pool.dts), dom |-> OneOf(i, k + 5, pool.doms), kind |-> OneOf(i, k + 6, pool.kinds), type |-> OneOf(i, k + 7, pool.types)]
           ELSE [f \in { "name", "mult", "dt", "dom", "kind", "type" } |-> st.H[j][f]]
      q == IF B(i, k + 8, 3) = 0 THEN [h EXCEPT !.kind = OneOf(i, k + 9, << ANYKIND, CELL, NODE, FACE >>)] ELSE h
      q2 == IF B(i, k + 10, 2) = 0 THEN [q EXCEPT !.type = OneOf(i, k + 11, << 4, 4, 1, 2 >>)] ELSE q
      q3 == IF B(i, k + 12, 4) = 0 THEN [q2 EXCEPT !.dom = OneOf(i, k + 13, pool.doms)] ELSE q2
  IN [v |-> OneOf(i, k + 15, << "name", "dom", "mult", "enum", "full", "get", "getd" >>)] @@ q3
LocalsOf(st) == { j \in 1 .. Len(st.H) : ~ Has(st.R, j) }
SameClass(st, j) == { x \in 1 .. Len(st.H) : st.H[x].mult = st.H[j].mult /\ st.H[x].dt = st.H[j].dt /\ (st.H[x].dom > 0) = (st.H[j].dom > 0) }
FetchOp(i, k, st, pool, o, j) ==
  LET h == st.H[j]
      c == { x \in ToSet(st.R) : st.H[x].mult = h.mult /\ st.H[x].dt = h.dt /\ (st.H[x].dom > 0) = (h.dom > 0) }
      t == IF c # {} THEN st.H[SomeOf(i, k + 1, c, 1)[1]] ELSE h
  IN IF h.dom <= 0 /\ B(i, k + 2, 3) = 0 THEN [op |-> "fetchm", h |-> j - 1, name |-> t.name]
     ELSE [op |-> "fetch", h |-> j - 1, name |-> IF B(i, k + 3, 6) = 0 THEN "nosuch" ELSE t.name, dom |-> t.dom, kind |-> IF B(i, k + 4, 4) = 0 THEN ANYKIND ELSE t.kind, type |-> IF B(i, k + 5, 3) = 0 THEN ALLT ELSE t.type]
HowWrite(i, k) == OneOf(i, k, << "index", "raw", "iter" >>)
UsedNames(st) == { st.mats[j].name : j \in 1 .. Len(st.mats) }
MatNames == << "m1", "m12", "m", "M1", "m 1", "m123", "2m", "m2", "steel, stainless, type 316L", "steel, stainless, type 316", "steel, stainless, type 304" >>
(* a name that was never used, or that of a set made beforehand                *)
MatOp(i, k, st, m) ==
  LET r == B(i, k, 10)
      never == { n \in ToSet(MatNames) : \A x \in 1 .. Len(st.sets) : st.sets[x].name # n }
      premade == { n \in { "s1", "s" } : n \in { st.sets[x].name : x \in 1 .. Len(st.sets) } /\ n \notin UsedNames(st) /\ ~ Has(st.gone, n) }
      name == IF st.mats # << >> /\ B(i, k + 1, 8) = 0 THEN st.mats[1 + B(i, k + 2, Len(st.mats))].name
              ELSE IF premade # {} /\ B(i, k + 3, 2) = 0 THEN SetToSeq(premade)[1] ELSE SomeOf(i, k + 4, never, 1)[1]
      nm == Len(st.mats)
      mi == IF nm = 0 THEN 0 ELSE B(i, k + 5, nm)
      freeFor(s) == Ids(NC(m)) \ s
  IN IF nm = 0 \/ r < 4 THEN (IF never = {} THEN [op |-> "remmat", m |-> nm] ELSE [op |-> "addmat", name |-> name, l |-> SomeOf(i, k + 6, freeFor(SetOf(st, name)), IF B(i, k + 10, 6) = 0 THEN 40 ELSE B(i, k + 7, 6))])
     ELSE IF r < 7 THEN [op |-> "addcells", m |-> mi, l |-> SomeOf(i, k + 6, freeFor(st.mats[mi + 1].cells), IF B(i, k + 10, 6) = 0 THEN 40 ELSE B(i, k + 7, 5))]
     ELSE IF r = 7 THEN [op |-> "remname", name |-> IF B(i, k + 8, 4) = 0 THEN "nosuch" ELSE st.mats[mi + 1].name]
     ELSE [op |-> "remmat", m |-> IF B(i, k + 8, 6) = 0 THEN nm + B(i, k + 9, 2) ELSE mi]
OpAt(i, k, s, st, m, pool, o) ==
  LET r == B(i, k, 100)  locals == LocalsOf(st)
      any == IF Len(st.H) = 0 THEN 0 ELSE 1 + B(i, k + 1, Len(st.H))
      unis == { j \in 1 .. Len(st.H) : st.H[j].mult = "uni" }
      lu == locals \cap unis
      goodmulti == { j \in 1 .. Len(st.H) : st.H[j].mult = "multi" /\ ~ st.D[st.H[j].d].old /\ \E x \in 1 .. Len(st.D[st.H[j].d].v) : DOMAIN st.D[st.H[j].d].v[x] # {} }
      multis == { j \in 1 .. Len(st.H) : st.H[j].mult = "multi" }
      lm == { j \in locals \cap multis : ~ Held(st, st.H[j].d) }
      new == NewVec(i, k + 2, st, m, pool, o, IF r % 3 = 0 THEN "alone" ELSE "add", << "uni" >>)
  IN CASE Prop = "V01" ->
          (IF r < 70 THEN NewVec(i, k + 2, st, m, pool, o, "add", << "uni", "uni", "multi" >>)
           ELSE IF r < 76 THEN NewVec(i, k + 2, st, m, pool, o, "alone", << "uni" >>)
           ELSE LET c == { j \in unis : st.H[j].dom <= 0 } IN IF c = {} THEN NewVec(i, k + 2, st, m, pool, o, "alone", << "uni" >>)
                ELSE IF r < 94 THEN [op |-> "addcopy", h |-> SomeOf(i, k + 3, c, 1)[1] - 1] ELSE MatOp(i, k + 10, st, m))
       [] Prop = "V02" ->
          (IF unis = {} \/ r < 22 THEN new
           ELSE LET j == SomeOf(i, k + 3, unis, 1)[1]  dt == st.H[j].dt  fixed == { x \in unis : st.H[x].dom # -1 } IN
           IF r < 34 THEN [op |-> "copy", h |-> j - 1]
           ELSE IF r < 42 /\ st.H[j].dom <= 0 THEN [op |-> "addcopy", h |-> j - 1]
           ELSE IF r < 52 /\ lu # {} THEN LET x == SomeOf(i, k + 4, lu, 1)[1] IN [op |-> "assign", h |-> x - 1, from |-> SomeOf(i, k + 5, SameClass(st, x), 1)[1] - 1]
           ELSE IF r < 64 /\ lu # {} THEN FetchOp(i, k + 6, st, pool, o, SomeOf(i, k + 4, lu, 1)[1])
           ELSE IF r < 72 /\ fixed # {} THEN LET x == SomeOf(i, k + 4, fixed, 1)[1]  n == B(i, k + 5, 12) IN
                    (IF B(i, k + 6, 2) = 0 THEN [op |-> "resize", h |-> x - 1, n |-> n, val |-> ValAt(i, k + 7, st.H[x].dt)] ELSE [op |-> "resize", h |-> x - 1, n |-> n, base |-> B(i, k + 8, 2) = 0])
           ELSE IF r < 75 /\ fixed # {} THEN [op |-> "clear", h |-> SomeOf(i, k + 4, fixed, 1)[1] - 1]
           ELSE [op |-> "write", h |-> j - 1, i |-> B(i, k + 9, 40), how |-> HowWrite(i, k + 10), val |-> ValAt(i, k + 11, dt)])
       [] Prop = "V03" -> MatOp(i, k + 2, st, m)
       [] Prop = "V04" ->
          (IF r < 30 THEN MatOp(i, k + 2, st, m)
           ELSE IF multis = {} \/ r < 48 THEN NewVec(i, k + 2, st, m, pool, o, IF r % 4 = 0 THEN "alone" ELSE "add", << "multi" >>)
           ELSE IF r < 74 /\ goodmulti # {} THEN
                LET j == SomeOf(i, k + 3, goodmulti, 1)[1]  d == st.D[st.H[j].d]
                    mi == SomeOf(i, k + 4, { x \in 1 .. Len(d.v) : DOMAIN d.v[x] # {} }, 1)[1]
                IN [op |-> "write", h |-> j - 1, m |-> mi - 1, c |-> SomeOf(i, k + 5, DOMAIN d.v[mi], 1)[1], how |-> OneOf(i, k + 6, << "mat", "cell" >>), val |-> ValAt(i, k + 7, st.H[j].dt)]
           ELSE LET j == SomeOf(i, k + 3, multis, 1)[1]  dt == st.H[j].dt IN
           IF r < 80 THEN [op |-> "copy", h |-> j - 1]
           ELSE IF r < 84 /\ locals \cap multis # {} THEN LET x == SomeOf(i, k + 4, locals \cap multis, 1)[1] IN [op |-> "assign", h |-> x - 1, from |-> SomeOf(i, k + 5, SameClass(st, x), 1)[1] - 1]
           ELSE IF r < 88 /\ locals \cap multis # {} THEN FetchOp(i, k + 6, st, pool, o, SomeOf(i, k + 4, locals \cap multis, 1)[1])
           ELSE IF r < 92 THEN [op |-> "assignv", h |-> j - 1, val |-> ValAt(i, k + 7, dt)]
           ELSE IF r < 94 THEN LET lay == OneOf(i, k + 8, << "cell", "mat" >>) IN [op |-> "assignd", h |-> j - 1, lay |-> lay, data |-> Matrix(i, k + 20, dt, st, NC(m), lay)]
           ELSE LET c == { x \in lm : Len(Sizes(st.D[st.H[x].d])) > 0 } IN IF c = {} THEN MatOp(i, k + 2, st, m)
                ELSE LET x == SomeOf(i, k + 4, c, 1)[1]  mi == B(i, k + 5, Len(Sizes(st.D[st.H[x].d]))) IN
                     (IF r = 94 THEN [op |-> "mclear", h |-> x - 1] ELSE IF r = 95 THEN [op |-> "mclear", h |-> x - 1, m |-> mi]
                      ELSE [op |-> "mresize", h |-> x - 1, m |-> mi, n |-> B(i, k + 6, 9)] @@ IF B(i, k + 7, 2) = 0 THEN << >> ELSE [val |-> ValAt(i, k + 8, st.H[x].dt)]))
       [] Prop = "V06" ->
          (IF r < 40 \/ unis = {} THEN NewVec(i, k + 2, st, m, pool, o, IF r % 5 = 0 THEN "alone" ELSE "add", << "uni", "uni", "uni", "multi" >>)
           ELSE IF r < 60 THEN [op |-> "print"]
           ELSE LET j == SomeOf(i, k + 3, unis, 1)[1] IN
           IF r < 66 THEN [op |-> "copy", h |-> j - 1]
           ELSE IF r < 72 /\ lu # {} THEN LET x == SomeOf(i, k + 4, lu, 1)[1] IN [op |-> "assign", h |-> x - 1, from |-> SomeOf(i, k + 5, SameClass(st, x), 1)[1] - 1]
           ELSE IF r < 76 THEN MatOp(i, k + 10, st, m)
           ELSE IF r < 84 /\ st.H[j].dom # -1 THEN [op |-> "resize", h |-> j - 1, n |-> B(i, k + 5, 12), val |-> ValAt(i, k + 7, st.H[j].dt)]
           ELSE IF r < 87 /\ st.H[j].dom # -1 THEN [op |-> "clear", h |-> j - 1]
           ELSE [op |-> "write", h |-> j - 1, i |-> B(i, k + 9, 40), how |-> HowWrite(i, k + 10), val |-> ValAt(i, k + 11, st.H[j].dt)])
       [] Prop = "V05" ->
          (IF r < 20 THEN [op |-> "import"] ELSE IF r < 45 THEN [op |-> "export"]
           ELSE IF r < 80 THEN NewVec(i, k + 2, st, m, pool, o, "add", << "uni", "uni", "uni", "multi" >>)
           ELSE IF r < 84 THEN MatOp(i, k + 2, st, m)
           ELSE IF r < 88 /\ unis # {} THEN LET j == SomeOf(i, k + 3, unis, 1)[1] IN
                (IF r < 86 \/ st.H[j].dom # 0 THEN [op |-> "copy", h |-> j - 1] ELSE IF r = 86 THEN [op |-> "addcopy", h |-> j - 1]
                 ELSE [op |-> "resize", h |-> j - 1, n |-> B(i, k + 5, 40), val |-> ValAt(i, k + 7, st.H[j].dt)])
           ELSE IF r < 90 /\ lu # {} THEN LET x == SomeOf(i, k + 4, lu, 1)[1] IN [op |-> "assign", h |-> x - 1, from |-> SomeOf(i, k + 5, SameClass(st, x), 1)[1] - 1]
           ELSE IF unis # {} THEN LET j == SomeOf(i, k + 3, unis, 1)[1] IN [op |-> "write", h |-> j - 1, i |-> B(i, k + 9, 40), how |-> HowWrite(i, k + 10), val |-> ValAt(i, k + 11, st.H[j].dt)]
           ELSE [op |-> "export"])
(* the planner also remembers the names of removed materials, for which the   *)
(* specification has no answer: their sets stay in the mesh                    *)
Gone(st, op) == IF op.op = "remname" /\ MatIndex(st, op.name) # 0 THEN Append(st.gone, op.name)
                ELSE IF op.op = "remmat" /\ op.m < Len(st.mats) THEN Append(st.gone, st.mats[op.m + 1].name) ELSE st.gone
Holds(st) == IF StateInv(st) THEN TRUE ELSE Assert(FALSE, << "state", st >>)
RECURSIVE Ops(_, _, _, _, _, _, _, _, _)
Ops(i, k, n, st, m, env, pool, o, acc) ==
  IF k > n THEN acc
  ELSE LET op == TLCEval(OpAt(i, 700 * k, k, st, m, pool, o))
           s2 == TLCEval(Do(st, env, op).s)
           s3 == TLCEval([s2 EXCEPT !.gone = Gone(st, op)])
       IN IF Holds(s3) THEN Ops(i, k + 1, n, s3, m, env, pool, o, TLCEval(Append(acc, op))) ELSE acc
Field(i, j, m) ==
  LET k == OneOf(i, 40 + 9 * j, << 0, 2, 3 >>)
      t == OneOf(i, 41 + 9 * j, IF m.sdim = 1 THEN << "INT", "DOUBLE" >> ELSE << "INT", "DOUBLE", "VECTOR", "TENSOR" >>)
      dt == FieldDt(m.sdim, [type |-> t])
  IN [name |-> OneOf(i, 42 + 9 * j, << "f1", "f", "a" >>), kind |-> k, type |-> t, ncomp |-> Comp(dt), data |-> [e \in 1 .. NumOf(m, k) |-> ValAt(i, 90 + 300 * j + 7 * e, dt)]]
DistinctFields(fs) == SelectSeq(fs, LAMBDA f : \A j \in 1 .. Len(fs) : fs[j] = f \/ fs[j].name # f.name \/ fs[j].kind # f.kind)
Scenario(i) ==
  LET m == TLCEval(Enrich(MeshOf(Desc(i))))
      o == [IF B(i, 8, 2) = 0 /\ m.dim < 3 THEN AllOn ELSE FacesOn EXCEPT !.tiles = IF B(i, 9, 2) = 0 THEN 0 ELSE 1 + B(i, 10, 3), !.halo = B(i, 20, 2), !.part = B(i, 21, 2)]
      mk == TLCEval(IF o.tiles = 0 /\ B(i, 31, 2) = 0 THEN UserTiles(Sd(i), m, o) ELSE << >>)
      pool == TLCEval(Pools(i, m, [o EXCEPT !.tiles = @ + Len(mk)], 0))
      fields == TLCEval(IF Prop # "V05" THEN << >> ELSE DistinctFields([j \in 1 .. B(i, 22, 5) |-> Field(i, j, m)]))
      env == TLCEval(GuessEnv(m, o.tiles + Len(mk), fields))
      pre == IF Prop \in { "V03", "V04" } THEN [j \in 1 .. B(i, 23, 3) |-> [op |-> "mkset", name |-> << "s1", "s" >>[j], l |-> SomeOf(i, 24 + j, Ids(NC(m)), B(i, 27 + j, 4)), map |-> B(i, 32 + j, 2) = 0]] ELSE << >>
      n == (IF i % 60 = 31 THEN 4 ELSE 1) * CASE Prop = "V01" -> 9 + B(i, 30, 6) [] Prop = "V02" -> 12 + B(i, 30, 8) [] Prop = "V03" -> 8 + B(i, 30, 6) [] Prop = "V04" -> 12 + B(i, 30, 8) [] OTHER -> 7 + B(i, 30, 6)
      s0 == FoldLeft(LAMBDA st, op : Do(st, env, op).s, StartState, pre)
      ops == TLCEval(pre \o Ops(i, 1, n, s0 @@ [gone |-> << >>], m, env, pool, o, << >>) \o (IF Prop # "V06" THEN << >> ELSE << [op |-> "print"], [op |-> "spell"] >>))
      last == FoldLeft(LAMBDA st, op : Do(st, env, op).s, StartState, ops)
      nq == IF Prop = "V01" THEN 14 ELSE 3
  IN [sid |-> i, mesh |-> [f \in DOMAIN m \ { "conT", "fonT", "cofT" } |-> m[f]], opt |-> IF mk = << >> THEN o ELSE o @@ [mk |-> mk], fields |-> fields,
      names |-> IF Prop \in { "V03", "V04" } THEN MatNames \o << "s1", "s", "nosuch" >> ELSE << "m1", "nosuch" >>,
      qs |-> [j \in 1 .. nq |-> AskedFor(i, 2000 + 30 * j, last, pool, o)], ops |-> ops]
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == /\ plan = << >> /\ plan' = Scenario(id)
        /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>)
        /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
