----------------------------- MODULE MeshTrace -----------------------------
(* Accepts a recorded execution of a mesh if it is a behaviour of the mesh    *)
(* system: state X (current coordinates) and G (coordinates at the last        *)
(* geometry update) and T (the tiles the user made); actions create, move      *)
(* nodes, update, make a tile, and queries, whose answers are determined by    *)
(* the state.                                                                  *)
EXTENDS MeshObs, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES sc, l, M, X, G, T, bad
vars == << sc, l, M, X, G, T, bad >>

Sph(s) == s.opt.geom = "SPH"
(* the coordinates of the nodes of a generated mesh, in units (integers)      *)
Ints(o) == [i \in 1 .. Len(o.X) |-> [k \in 1 .. Len(o.X[i]) |-> o.X[i][k] \div S]]

Ev(i, k) == Tr[i].ev[k]
NEv(i) == Len(Tr[i].ev)
Op(i, k) == IF k = 1 THEN [op |-> "make"] ELSE Scen[i].ops[k - 1]

(* answers given before, to queries in no order, are those given afterwards: lists in any order where none is promised *)
AnyOrder == { "cna", "cfa", "fc", "nca", "nfa", "cs", "cw", "nw", "cc", "nk", "ce", "cf1" }
SameAgain(op, e) ==
  IF "pre" \notin DOMAIN e THEN << >> ELSE
  << <<"the same whenever asked", \A n \in 1 .. Len(e.pre) :
       LET p == e.pre[n]  a == e.o[p.q][p.i + 1] IN
       IF p.q \in AnyOrder /\ op.op \notin { "geom", "rgeom" }
       THEN LET b == IF p.j < 0 THEN a ELSE a[p.j + 1] IN Len(p.v) = Len(b) /\ ToSet(p.v) = ToSet(b)
       ELSE p.v = a>> >>
(* clauses the property has for an event, given the state                    *)
Is(p) == Prop = p \/ Prop = "ANY"
GeomProp == Is("M04") \/ Is("M05")
Clauses(s, op, e, m, x, g, made) ==
  << <<"as planned", e.op = op.op>>, <<"no exception", e.exc = "">> >>
  \o IF e.exc # "" \/ e.op # op.op THEN << >> ELSE
  SameAgain(op, e) \o
  CASE op.op = "make" -> << >>
    [] op.op = "inc" ->
         LET isl == s.mesh.fam \in { "s1", "s3" } IN
         (IF Is("M01") /\ s.mesh.fam = "s3" THEN LET latt == LatticeClauses(s.mesh, e.o) IN (IF Failing(latt) # {} THEN latt ELSE latt \o LatticeExact(s.mesh, e.o, e.fine)) ELSE IF Is("M01") /\ s.mesh.fam = "s1" THEN LineClauses(s.mesh, e.o) \o LineExact(e.fine) \o << <<"its geometry", e.o.sph = (s.opt.geom = "SPH")>> >> ELSE << >>)
         \o (IF ~ Is("M02") THEN << >> ELSE
             LET d == IF isl /\ e.o.nf = 0 THEN << >> ELSE IF isl THEN WellFormedBut(m) \o (IF e.o.ne = 0 THEN << >> ELSE EdgesFormedBut(m))
                      ELSE SameDownClauses(m, e.o, e.o.nf, e.o.ne)
             IN IF Failing(d) # {} THEN d ELSE d \o IncidenceClauses(m, e.o))
    [] op.op = "cls" -> IF Is("M03") THEN ClassClauses(m, s.opt, e.o) ELSE << >>
    [] op.op = "geom" -> IF GeomProp THEN GeomClauses(m, g, e.o, Sph(s)) \o EdgeMidClauses(m, x, g, e.o) \o CoordClauses(m, x, e.o) \o ExactClauses(m, x, g, e.fine, Sph(s)) ELSE << >>
    [] op.op = "rgeom" -> IF GeomProp THEN GeomClauses(m, x, e.o, Sph(s)) \o EdgeMidClauses(m, x, g, e.o) \o CoordClauses(m, x, e.o) \o ExactClauses(m, x, g, e.fine, Sph(s)) ELSE << >>
    [] op.op = "sides" -> IF Is("K01") THEN SideClauses(m, e.o.s, e.o.cs) ELSE << >>
    [] op.op = "wedges" -> IF Is("K02") THEN WedgeClauses(m, e.o.s, e.o) ELSE << >>
    [] op.op = "corners" -> IF Is("K03") THEN CornerClauses(m, e.o) ELSE << >>
    [] op.op = "sub" -> IF Is("K04") \/ Is("M05") THEN SubGeomClauses(m, g, e.o, Sph(s), x = g) \o ExactClauses(m, x, g, e.fine, Sph(s)) ELSE << >>
    [] op.op = "rsub" -> IF Is("K04") \/ Is("M05") THEN SubGeomClauses(m, x, e.o, Sph(s), x = g) \o ExactClauses(m, x, g, e.fine, Sph(s)) ELSE << >>
    [] op.op = "tiles" -> (IF Is("T01") THEN Tile1Clauses(m, s.opt, made, e.o) ELSE << >>) \o (IF Is("T02") THEN Tile2Clauses(m, s.opt, made, e.o) ELSE << >>)
                          \o (IF Is("T03") THEN Tile3Clauses(m, s.opt, made, e.o) ELSE << >>)
    [] op.op = "mktile" -> MkTileClauses(s.opt, made, e.o)
    [] op.op = "inside" -> IF Is("M06") THEN InsideClauses(m, x, op.pts, op.den, e.o) ELSE << >>
    [] OTHER -> << >>

Init ==
  /\ sc \in 1 .. Len(Scen)
  /\ l = 0
  /\ M = << >> /\ X = << >> /\ G = << >> /\ T = << >>
  /\ bad = {}

Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)

Step ==
  LET k == l + 1  s == Scen[sc]  op == Op(sc, k)  e == Ev(sc, k) IN
  /\ l < 1 + Len(s.ops) /\ k <= NEv(sc)
  /\ l' = k /\ sc' = sc
  /\ M' = IF op.op = "make" /\ s.mesh.fam = "h" THEN Enrich(s.mesh)
          ELSE IF op.op = "inc" /\ M = << >> /\ e.exc = "" /\ s.mesh.fam # "h" THEN Enrich(ObservedMesh(e.o, s.mesh)) ELSE M
  /\ X' = IF op.op = "make" /\ s.mesh.fam = "h" THEN s.mesh.X
          ELSE IF op.op = "inc" /\ M = << >> /\ e.exc = "" /\ s.mesh.fam # "h" THEN Ints(e.o)
          ELSE IF op.op = "move" THEN [X EXCEPT ![op.n + 1] = op.x]
          ELSE IF op.op = "affine" THEN TLCEval([n \in 1 .. Len(X) |-> [j \in 1 .. Len(X[n]) |-> op.b[j] + Dot(op.a[j], X[n])]])
          ELSE IF op.op = "moveall" THEN op.x ELSE X
  /\ G' = IF op.op = "update" \/ G = << >> THEN X' ELSE G
  /\ T' = IF op.op = "mktile" THEN Append(T, op) ELSE T
  /\ LET f == Failing(Clauses(s, op, e, M', X', G', T')) IN bad' = (IF f = {} THEN bad ELSE bad \cup { k }) /\ Report(sc, k, f)

(* the execution must reach the end of its plan in good order                *)
Finish ==
  LET s == Scen[sc] IN
  /\ l = NEv(sc) \/ l = 1 + Len(s.ops)
  /\ l <= 1 + Len(s.ops)
  /\ l' = 2 + Len(s.ops)
  /\ LET f == Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", NEv(sc) = 1 + Len(s.ops)>> >>)
     IN bad' = (IF f = {} THEN bad ELSE bad \cup { 0 }) /\ Report(sc, l + 1, f)
  /\ UNCHANGED << sc, M, X, G, T >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
