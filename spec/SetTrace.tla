------------------------------ MODULE SetTrace ------------------------------
(* Accepts a recorded execution of mesh sets if it is a behaviour of Sets.    *)
EXTENDS Sets, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES sc, l, M, cls, H, R, bad
vars == << sc, l, M, cls, H, R, bad >>
Ev(i, k) == Tr[i].ev[k]
NEv(i) == Len(Tr[i].ev)
Regs(s) == IF "regions" \in DOMAIN s THEN s.regions ELSE << >>
Labels(s) == IF "labels" \in DOMAIN s.mesh THEN s.mesh.labels ELSE << >>
Op(i, k) == IF k > 1 THEN Scen[i].ops[k - 1] ELSE [op |-> "make"]
Building(op) == op.op \in { "init", "build", "fromreg" }
Ints(o) == [i \in 1 .. Len(o.X) |-> [k \in 1 .. Len(o.X[i]) |-> o.X[i][k] \div S]]

(* ---- sets of regions: what a step may add ---- *)
Wanted(s, op, h, r) ==          \* the pairs to build, in this state
  LET regs == Regs(s) IN
  CASE op.op = "make" -> IF regs # << >> /\ ~ ("initsets" \in DOMAIN s.mesh /\ ~ s.mesh.initsets) THEN NeededAll(h, r, regs, Targets(h, r, regs, s.gdim, s.opt.faces, << >>)) ELSE {}
    [] op.op = "init" -> NeededAll(h, r, regs, Targets(h, r, regs, s.gdim, s.opt.faces, IF "map" \in DOMAIN op THEN op.map ELSE << >>))
    [] op.op = "build" -> Needed(h, r, regs, op.name, op.kind)
    [] op.op = "fromreg" -> IF op.create /\ ValidName(M', regs, op.name, op.kind) /\ Found(h, r, op.name, op.kind) = 0 THEN Needed(h, r, regs, op.name, op.kind) ELSE {}
Fails(s, w) == \E p \in w : ~ Buildable(Regs(s), p) /\ ~ (p[2] \notin { NODE, FACE, CELL } /\ HasReg(Regs(s), p[1]))
(* new sets seen, and the pairs they must be *)
NewSets(e, h) == [i \in 1 .. Len(e.o.sets) - Len(h) |-> e.o.sets[Len(h) + i]]
ActualRec(p, rev) == SetRec(p.name, p.kind, ToSet(p.own), ToSet(p.gho), rev)
RevOf(s, op, p) == IF op.op \in { "build", "fromreg" } /\ (op.op # "build" \/ op.rev) /\ HasReg(Regs(s), p.name) /\ Reg(Regs(s), p.name).t # "logical" THEN "yes" ELSE "maybe"
Appended(e, h) == [i \in 1 .. Len(e.o.reg) |-> e.o.reg[i] + 1]
(* value of a region's set of kind k among the sets (h, r): as found, or else  *)
(* computed for a combination that leaves no set behind                        *)
RECURSIVE ValueOf(_, _, _, _, _, _)
ValueOf(regs, c, h, r, name, k) ==
  LET j == Found(h, r, name, k) IN
  IF j # 0 THEN << h[j].own, h[j].gho >>
  ELSE LET g == Reg(regs, name)  v == [i \in 1 .. Len(g.of) |-> ValueOf(regs, c, h, r, g.of[i], k)]
       IN Combined(g.bop, c, k, [i \in 1 .. Len(v) |-> v[i][1]], [i \in 1 .. Len(v) |-> v[i][2]])
RegionSetOK(s, m, c, h, r, p) ==
  LET g == Reg(Regs(s), p.name)  own == ToSet(p.own)  gho == ToSet(p.gho) IN
  IF g.t = "logical"
  THEN LET v == [i \in 1 .. Len(g.of) |-> ValueOf(Regs(s), c, h, r, g.of[i], p.kind)]
           x == Combined(g.bop, c, p.kind, [i \in 1 .. Len(v) |-> v[i][1]], [i \in 1 .. Len(v) |-> v[i][2]])
       IN own = x[1] /\ gho = x[2]
  ELSE LET x == InRegion(m, m.X, Labels(s), g, p.kind) IN
       /\ OwnPart(c, p.kind, x[1]) \subseteq own /\ own \subseteq OwnPart(c, p.kind, x[2])
       /\ GhoPart(c, p.kind, x[1]) \subseteq gho /\ gho \subseteq GhoPart(c, p.kind, x[2])
BuildClauses(s, op, e, m, c, h, r, h2, r2) ==
  LET regs == Regs(s)  w == Wanted(s, op, h, r)  fails == Fails(s, w)
      news == NewSets(e, h)
      lasting == { p \in w : Lasting(regs, p) /\ Buildable(regs, p) }
      result == IF op.op \in { "build", "fromreg" } /\ w # {} /\ Buildable(regs, << op.name, op.kind >>) THEN { << op.name, op.kind >> } ELSE {}
      seen == { << news[i].name, news[i].kind >> : i \in 1 .. Len(news) }
      newreg == { i \in 1 .. Len(e.o.reg) : e.o.reg[i] >= Len(h) }
  IN << <<"an error for what cannot be built, and only then", (e.exc # "") = fails>>,
        <<"no set seen twice", Cardinality(seen) = Len(news)>>,
        <<"sets made", IF fails THEN seen \subseteq lasting ELSE seen = lasting \cup result>>,
        <<"registered before, still registered", Len(e.o.reg) >= Len(r) /\ SubSeq(e.o.reg, 1, Len(r)) = Zeroed(r)>>,
        <<"registered", { e.o.sets[e.o.reg[i] + 1].name : i \in newreg } = { p[1] : p \in { q \in seen : Lasting(regs, q) } } /\ Cardinality(newreg) = Cardinality({ q \in seen : Lasting(regs, q) })>> >>
     \o IF seen \subseteq (lasting \cup result)
        THEN << <<"entities in the region", \A i \in 1 .. Len(news) : RegionSetOK(s, m, c, h2, r2, news[i])>> >> ELSE << >>
RetClauses(s, op, e, h, r, h2) ==
  IF op.op = "build" /\ e.exc = "" THEN
    << <<"the set asked for is returned", IF op.kind \notin { NODE, FACE, CELL } THEN e.ret = -1
          ELSE e.ret >= Len(h) /\ e.ret < Len(h2) /\ h2[e.ret + 1].name = op.name /\ h2[e.ret + 1].kind = op.kind>> >>
  ELSE IF op.op = "fromreg" /\ e.exc = "" THEN
    LET j == IF ValidName(M', Regs(s), op.name, op.kind) THEN Found(h, r, op.name, op.kind) ELSE 0 IN
    << <<"the set asked for is returned", IF j # 0 THEN e.ret = j - 1
          ELSE IF Wanted(s, op, h, r) = {} THEN e.ret = -1
          ELSE e.ret >= Len(h) /\ e.ret < Len(h2) /\ h2[e.ret + 1].name = op.name /\ h2[e.ret + 1].kind = op.kind>> >>
  ELSE << >>

(* ---- histories of one set ---- *)
RECURSIVE HistOK(_, _, _, _, _)
HistOK(op, c, h, st, pr) ==     \* pr: projections from the present state on
  LET p == pr[1] IN
  Failing(ListsOK(h, p[1], p[2], p[3]) \o IndexOK(h, p[3], op.uni, p[4]) \o << <<"counts", p[5] = << Len(p[1]), Len(p[2]), Len(p[3]) >>>> >>)
  \cup IF st = << >> THEN {} ELSE HistOK(op, c, Mutated(c, st[1].o, h, st[1].l), Tail(st), Tail(pr))
HistStart(op, c, init) == SetRec("h", op.kind, OwnPart(c, op.kind, ToSet(init)), GhoPart(c, op.kind, ToSet(init)), IF op.rev THEN "yes" ELSE "maybe")
HistClauses(op, c, hists) ==
  << <<"histories run", Len(hists) = Len(op.hs) /\ \A i \in 1 .. Len(hists) : Len(hists[i]) = 1 + Len(op.hs[i].st)>> >> \o
  LET fs == TLCEval(UNION { HistOK(op, c, HistStart(op, c, op.hs[i].init), op.hs[i].st, hists[i]) : i \in 1 .. Len(op.hs) })
  IN << <<"histories: " \o ToString(fs), fs = {}>> >>

(* ---- sets on tiles ---- *)
TileClauses(h, r, tiles, opt) ==
  LET mem(q) == LET j == Found(h, r, q.name, q.kind) IN IF j = 0 THEN {} ELSE h[j].own \cup h[j].gho
      mk == IF "mk" \in DOMAIN opt THEN opt.mk ELSE << >>
  IN << <<"number of tiles", Len(tiles) = opt.tiles + Len(mk)>>,
        <<"set members in the tile", \A t \in 1 .. Len(tiles) : \A i \in 1 .. Len(tiles[t].q) :
             LET q == tiles[t].q[i]  c == tiles[t].cls[q.kind + 1] IN
             \A y \in 1 .. 3 : IsSetOf(q.l[y], mem(q) \cap (IF c = << >> THEN {} ELSE ToSet(c[y])))>>,
        <<"owned cells of a set in one tile each", \A i \in 1 .. Len(r) :
             LET x == h[r[i]] IN x.kind # CELL \/ Len(tiles) = 0 \/ \A e \in x.own : Cardinality({ t \in 1 .. Len(tiles) :
                \E j \in 1 .. Len(tiles[t].q) : tiles[t].q[j].kind = CELL /\ tiles[t].q[j].name = x.name /\ Found(h, r, x.name, CELL) = r[i] /\ Has(tiles[t].q[j].l[1], e) })
                  = IF Found(h, r, x.name, CELL) = r[i] THEN (IF opt.tiles > 0 THEN 1 ELSE Cardinality({ t \in 1 .. Len(mk) : Has(mk[t].cells, e) })) ELSE 0>> >>

(* ---- the clauses of a step from (h, r) to (h2, r2) ---- *)
ClsOK(m, c) == << <<"classes of the entities", c[CELL + 1] = m.tp /\ c[NODE + 1] = m.nt /\ (c[FACE + 1] = << >> \/ c[FACE + 1] = m.ft) /\ (c[EDGE + 1] = << >> \/ c[EDGE + 1] = m.et)>> >>
ValidClauses(s, e) == << <<"valid region names", e.valid = [i \in 1 .. Len(s.names) |-> [k \in 1 .. 4 |-> ValidName(M', Regs(s), s.names[i], k - 1)]]>> >>
Clauses(s, op, e, m, c, h, r, h2, r2) ==
  << <<"as planned", e.op = op.op>>, <<"no exception", Building(op) \/ e.exc = "">> >>
  \o IF e.op # op.op \/ (e.exc # "" /\ ~ Building(op)) THEN << >> ELSE
  IF op.op = "valid" THEN ValidClauses(s, e)
  ELSE IF op.op = "hist" THEN HistClauses(op, c, e.hists)
  ELSE IF op.op = "tileset" THEN TileClauses(h, r, e.tiles, s.opt)
  ELSE (IF op.op = "make" THEN (IF s.mesh.fam = "h" THEN ClsOK(m, c) ELSE << >>) \o << <<"dimension of the regions", e.rdim = [i \in 1 .. Len(Regs(s)) |-> RDim(Regs(s)[i])]>> >> ELSE << >>)
       \o (IF op.op = "make" \/ Building(op) THEN BuildClauses(s, op, e, m, c, h, r, h2, r2) \o RetClauses(s, op, e, h, r, h2)
           ELSE << <<"set returned", e.ret = Do(h, r, c, op).ret>>,
                   <<"a name of its own", op.op \notin { "merge", "inter", "comp", "sub" } \/ Len(h2) = Len(h) \/ (h2[Len(h2)].name # "" /\ \A i \in ToSet(op.hs) : h2[Len(h2)].name # h[i + 1].name)>> >>)
       \o StateOK(h2, r2, e.o)

Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ M = << >> /\ cls = << >> /\ H = << >> /\ R = << >> /\ bad = {}
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
(* a name the specification leaves to the code *)
Named(hh, e) == [i \in 1 .. Len(hh) |-> IF hh[i].name = "?" /\ i <= Len(e.o.sets) THEN [hh[i] EXCEPT !.name = e.o.sets[i].name] ELSE hh[i]]
Step ==
  LET k == l + 1  s == Scen[sc]  op == Op(sc, k)  e == Ev(sc, k)
      fine == e.op = op.op /\ (e.exc = "" \/ Building(op)) IN
  /\ l < 1 + Len(s.ops) /\ k <= NEv(sc)
  /\ l' = k /\ sc' = sc
  /\ M' = IF op.op # "make" THEN M ELSE IF s.mesh.fam = "h" THEN Enrich(s.mesh) ELSE IF fine THEN (LET m == ObservedMesh(e.inc, s.mesh) IN Enrich([m EXCEPT !.X = Ints(e.inc)])) ELSE << >>
  /\ cls' = IF op.op = "make" /\ fine THEN e.cls ELSE cls
  /\ H' = IF ~ fine \/ op.op \in { "valid", "hist", "tileset" } THEN H
          ELSE IF op.op = "make" \/ Building(op) THEN H \o [i \in 1 .. Len(NewSets(e, H)) |-> ActualRec(NewSets(e, H)[i], RevOf(s, op, NewSets(e, H)[i]))]
          ELSE Named(Do(H, R, cls, op).H, e)
  /\ R' = IF ~ fine \/ op.op \in { "valid", "hist", "tileset" } THEN R
          ELSE IF op.op = "make" \/ Building(op) THEN Appended(e, H)
          ELSE Do(H, R, cls, op).R
  /\ LET f == Failing(Clauses(s, op, e, M', cls', H, R, H', R')) IN bad' = (IF f = {} THEN bad ELSE bad \cup { k }) /\ Report(sc, k, f)
Finish ==
  LET s == Scen[sc] IN
  /\ l = NEv(sc) \/ l = 1 + Len(s.ops)
  /\ l <= 1 + Len(s.ops)
  /\ l' = 2 + Len(s.ops)
  /\ LET f == Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", NEv(sc) = 1 + Len(s.ops)>> >>)
     IN bad' = (IF f = {} THEN bad ELSE bad \cup { 0 }) /\ Report(sc, l + 1, f)
  /\ UNCHANGED << sc, M, cls, H, R >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
