------------------------------ MODULE Factory -------------------------------
(* The mesh factory: a set of independent options, operations that change one *)
(* of them each, a reset, and creations whose outcome depends on the options  *)
(* and the request.                                                           *)
EXTENDS MeshObs

SIMPLE == 1  MSTK == 2  MOAB == 3  STK == 4
Optional == { 1, 4, 5, 6 }                 \* EDGE, SIDE, WEDGE, CORNER can be left out
Kinds == { 0, 1, 2, 3, 4, 5, 6 }
ALLKINDS == -3
Defaults == [fw |-> MSTK, inc |-> { 0, 2, 3 }, tiles |-> 0, halo |-> 0, dist |-> 1, bg |-> FALSE, part |-> 0, geom |-> 0, gm |-> 0]

(* what the library was built with *)
Available(f) == f = SIMPLE
Generates(f, parallel, d) ==
  CASE f = SIMPLE -> ~ parallel /\ d \in { 1, 3 } [] f = MSTK -> d \in { 2, 3 } [] f = STK -> d = 3 /\ ~ parallel [] OTHER -> FALSE
Reads(f, parallel, fmt) == (f = MSTK /\ fmt = 1) \/ (f = STK /\ fmt = 1 /\ ~ parallel) \/ (f = MOAB /\ fmt = 2)
Extracts(f, parallel, d) == f = MSTK /\ d \in { 2, 3 }
NameOf(f) == << "Simple", "MSTK", "MOAB", "stk::mesh" >>[f]

(* ---- options ---- *)
Include(s, k) == IF k = ALLKINDS THEN s \cup Kinds ELSE IF k \in Kinds THEN s \cup { k } ELSE s
Setters == { "framework", "inc", "incl", "exc", "tiles", "halo", "dist", "bg", "part", "geom", "gm", "gids", "reset" }
Refused(op) == op.op = "framework" /\ ~ Available(op.v)
Set(fs, op) ==
  CASE op.op = "framework" -> IF Refused(op) THEN fs ELSE [fs EXCEPT !.fw = op.v]
    [] op.op = "inc" -> [fs EXCEPT !.inc = Include(@, op.v)]
    [] op.op = "incl" -> [fs EXCEPT !.inc = FoldLeft(Include, @, op.l)]
    [] op.op = "exc" -> [fs EXCEPT !.inc = @ \ (ToSet(op.l) \cap Optional)]
    [] op.op = "tiles" -> [fs EXCEPT !.tiles = op.v]
    [] op.op = "halo" -> [fs EXCEPT !.halo = op.v]
    [] op.op = "dist" -> [fs EXCEPT !.dist = op.v]
    [] op.op = "bg" -> [fs EXCEPT !.bg = (op.v = 1)]
    [] op.op = "part" -> [fs EXCEPT !.part = op.v]
    [] op.op = "geom" -> [fs EXCEPT !.geom = op.v]
    [] op.op = "gm" -> [fs EXCEPT !.gm = op.v]
    [] op.op = "reset" -> Defaults
    [] OTHER -> fs
(* the option an operation is about *)
Field(op) == CASE op.op = "framework" -> "fw" [] op.op \in { "inc", "incl", "exc" } -> "inc" [] OTHER -> op.op
OptionsAre(fs, o) ==
  << <<"framework", o.fw = fs.fw>>, <<"included entities", IsSetOf(o.inc, fs.inc)>>, <<"number of tiles", o.tiles = fs.tiles>>,
     <<"tile halo layers", o.halo = fs.halo>>, <<"mesh halo layers", o.dist = fs.dist>>, <<"boundary ghosts", o.bg = fs.bg>>,
     <<"partitioner", o.part = fs.part>>, <<"geometry type", o.geom = fs.geom>>, <<"geometric model", o.gm = fs.gm>> >>

(* ---- creations ---- *)
Creations == { "box", "rect", "line", "nline", "read", "extract" }
DimOf(op) == CASE op.op = "box" -> 3 [] op.op = "rect" -> 2 [] op.op \in { "line", "nline" } -> 1 [] OTHER -> 0
ValidRequest(fs, op) ==
  /\ DimOf(op) = 0 \/ fs.gm \in { 0, DimOf(op) }
  /\ op.op \in { "box", "rect" } => \A k \in 1 .. DimOf(op) : op.n[k] > 0 /\ op.hi[k] > op.lo[k]
  /\ op.op = "line" => Len(op.x) >= 2 /\ op.x[Len(op.x)] > op.x[1]
  /\ op.op = "nline" => op.n > 0 /\ op.hi > op.lo
(* "mesh", "error", or "either" where the framework may not be able to *)
(* ranks: the number of processes of the factory's communicator *)
Outcome(ranks, fs, op) ==
  IF ~ ValidRequest(fs, op) \/ ~ Available(fs.fw) \/ fs.fw # SIMPLE \/ ~ Generates(SIMPLE, ranks > 1, DimOf(op)) \/ fs.bg THEN "error"
  ELSE IF op.op = "box" /\ fs.inc \cap Optional # {} THEN "either"
  ELSE "mesh"

(* corners need wedges, wedges need sides, sides need faces and edges *)
Needed(inc) == inc \cup (IF inc \cap { 4, 5, 6 } # {} THEN { 1, 2, 4 } ELSE {}) \cup (IF inc \cap { 5, 6 } # {} THEN { 5 } ELSE {})
CountIn(op, k) ==
  IF op.op = "box" THEN
    LET a == op.n[1]  b == op.n[2]  c == op.n[3]  nc == a * b * c IN
    CASE k = 0 -> (a + 1) * (b + 1) * (c + 1)
      [] k = 1 -> a * (b + 1) * (c + 1) + (a + 1) * b * (c + 1) + (a + 1) * (b + 1) * c
      [] k = 2 -> (a + 1) * b * c + a * (b + 1) * c + a * b * (c + 1)
      [] k = 3 -> nc [] k = 4 -> 24 * nc [] k = 5 -> 48 * nc [] k = 6 -> 8 * nc
  ELSE LET nc == IF op.op = "line" THEN Len(op.x) - 1 ELSE op.n IN
    CASE k \in { 0, 1, 2 } -> nc + 1 [] k = 3 -> nc [] k = 4 -> 2 * nc [] k = 5 -> 4 * nc [] k = 6 -> 2 * nc
LineOf(op) == IF op.op = "line" THEN op.x ELSE [i \in 1 .. op.n + 1 |-> op.lo + ((op.hi - op.lo) \div op.n) * (i - 1)]
RECURSIVE Spread(_, _, _)
Spread(o, set, n) == IF n = 0 THEN set
  ELSE LET ns == TLCEval(UNION { ToSet(At(o.cn, c)) : c \in set }) IN
       Spread(o, TLCEval({ c \in Ids(o.nc) : \E q \in 1 .. Len(At(o.cn, c)) : At(o.cn, c)[q] \in ns }), n - 1)
TilesAre(fs, o) ==
  << <<"number of tiles", Len(o.t) = fs.tiles>>,
     <<"tiles partition the cells", fs.tiles = 0 \/ (Sum([i \in 1 .. Len(o.t) |-> Len(o.t[i].own)]) = o.nc /\ UNION { ToSet(o.t[i].own) : i \in 1 .. Len(o.t) } = Ids(o.nc))>>,
     <<"halo layers of the tiles", \A i \in 1 .. Len(o.t) : IsSetOf(o.t[i].gh, Spread(o, ToSet(o.t[i].own), fs.halo) \ ToSet(o.t[i].own))>>,
     <<"ranges of cells", fs.part \notin { 0 } \/ \A i \in 1 .. Len(o.t) : o.t[i].own = << >> \/ \A c \in Ids(o.nc) : (Min(ToSet(o.t[i].own)) <= c /\ c <= Max(ToSet(o.t[i].own))) => c \in ToSet(o.t[i].own)>> >>
MeshIs(fs, op, o) ==
  LET d == DimOf(op) IN
  << <<"dimensions", o.sdim = d /\ o.mdim = d>>,
     <<"geometry type of the mesh", o.geom = IF d = 3 THEN 0 ELSE fs.geom>>,
     <<"geometric model of the mesh", o.gm = fs.gm>>,
     <<"all owned", o.owned>> >>
  \o SetToSeq({ << << "number of entities of kind", k >>, o.cnt[k + 1] = CountIn(op, k)>> : k \in Needed(fs.inc) })
  \o (IF d = 3 THEN LatticeClauses(op, o) ELSE LineClauses([x |-> LineOf(op)], o))
  \o TilesAre(fs, o)
  \o (IF fs.gm = 0 THEN << >> ELSE << <<"region of the model", IsSetOf(o.set, Ids(o.nc))>> >>)
=============================================================================
