------------------------------- MODULE State -------------------------------
(* The state of a mesh: vectors with names, found by their identity, whose    *)
(* data may be shared; materials, which are a relation between materials and  *)
(* cells; vectors with one value per cell of each material; and the exchange  *)
(* of fields with the mesh.                                                   *)
(*   H     vectors made so far [name, mult, dt, dom, kind, type, d]            *)
(*   R     the registry: indices into H in order of registration              *)
(*   D     data, which vectors may share: [v, old, sizes]; v is a list, or for *)
(*         a multi-material vector a list of functions from cells; a multi-    *)
(*         material vector the state does not hold falls out of step when the *)
(*         materials change (old), and then only its sizes are known           *)
(*   mats  [name, cells]; numbered from zero in operations                     *)
(*   sets  cell sets of the mesh, by name                                      *)
(* Domains: 0 the mesh, 1.. its tiles, -1 another mesh.                        *)
EXTENDS MeshObs

NODE == 0  EDGE == 1  FACE == 2  CELL == 3
ANYKIND == -2  ALLT == 4
Zero(dt) == CASE dt \in { "int", "double" } -> 0 [] dt = "arr2" -> << 0, 0 >> [] dt = "arr3" -> << 0, 0, 0 >> [] dt = "arr6" -> << 0, 0, 0, 0, 0, 0 >>
StartState == [H |-> << >>, R |-> << >>, D |-> << >>, mats |-> << >>, sets |-> << >>]
Count(env, dom, kind, type) == env.cnt[dom + 2][kind + 1][type]

(* ---- registry ---- *)
KindFits(q, h) == q.kind = ANYKIND \/ h.kind = q.kind
TypeFits(q, h) == q.type = ALLT \/ h.type = q.type
Fits(q, h) ==                       \* does vector h answer query q of variant q.v
  h.name = q.name /\ CASE q.v = "name" -> KindFits(q, h) /\ TypeFits(q, h)
    [] q.v = "dom" -> h.dom = q.dom /\ KindFits(q, h) /\ TypeFits(q, h)
    [] q.v = "mult" -> h.dom = q.dom /\ h.mult = q.mult /\ KindFits(q, h) /\ TypeFits(q, h)
    [] q.v = "getd" -> h.dom = q.dom /\ h.mult = q.mult /\ h.dt = q.dt
    [] OTHER -> h.dom = q.dom /\ h.mult = q.mult /\ h.dt = q.dt /\ KindFits(q, h) /\ TypeFits(q, h)
FirstOf(st, q) == LET hits == { j \in 1 .. Len(st.R) : Fits(q, st.H[st.R[j]]) } IN IF hits = {} THEN 0 ELSE Min(hits)   \* position in R
Ident(op, dom) == [v |-> "full", name |-> op.name, mult |-> op.mult, dt |-> op.dt, dom |-> dom, kind |-> op.kind, type |-> op.type]

(* ---- data ---- *)
Uni(v) == [v |-> v, old |-> FALSE, sizes |-> << >>]
Multi(v) == [v |-> v, old |-> FALSE, sizes |-> << >>]
FreshMulti(st, f(_, _)) == Multi([m \in 1 .. Len(st.mats) |-> [c \in st.mats[m].cells |-> f(m, c)]])
Sizes(d) == IF d.old THEN d.sizes ELSE [m \in 1 .. Len(d.v) |-> Cardinality(DOMAIN d.v[m])]
NewData(st, env, op) ==
  IF op.mult = "uni"
  THEN Uni(LET n == Count(env, op.dom, op.kind, op.type) IN
           CASE op.how = "val" -> Repeat(op.val, n) [] op.how = "data" -> SubSeq(op.data, 1, n) [] OTHER -> Repeat(Zero(op.dt), n))
  ELSE CASE op.how = "val" -> FreshMulti(st, LAMBDA m, c : op.val)
         [] op.how = "data" -> FreshMulti(st, LAMBDA m, c : IF op.lay = "cell" THEN op.data[c + 1][m] ELSE op.data[m][c + 1])
         [] OTHER -> FreshMulti(st, LAMBDA m, c : Zero(op.dt))
Vec(op, dom, d) == [name |-> op.name, mult |-> op.mult, dt |-> op.dt, dom |-> dom, kind |-> op.kind, type |-> op.type, d |-> d]
WithVec(st, vec, data, reg) ==
  [st EXCEPT !.H = Append(@, [vec EXCEPT !.d = Len(st.D) + 1]), !.D = Append(@, data), !.R = IF reg THEN Append(@, Len(st.H) + 1) ELSE @]
AddVec(st, vec, data) ==            \* [s, ret]
  LET j == FirstOf(st, Ident(vec, vec.dom)) IN
  IF j # 0 THEN [s |-> st, ret |-> st.R[j] - 1] ELSE [s |-> WithVec(st, vec, data, TRUE), ret |-> Len(st.H)]
Held(st, d) == \E j \in 1 .. Len(st.R) : st.H[st.R[j]].d = d       \* by the state
IsMulti(st, d) == \E j \in 1 .. Len(st.H) : st.H[j].d = d /\ st.H[j].mult = "multi"
DtOf(st, d) == st.H[CHOOSE j \in 1 .. Len(st.H) : st.H[j].d = d].dt

(* ---- materials ---- *)
MatIndex(st, name) == LET hits == { m \in 1 .. Len(st.mats) : st.mats[m].name = name } IN IF hits = {} THEN 0 ELSE Min(hits)
SetOf(st, name) == LET hits == { m \in 1 .. Len(st.sets) : st.sets[m].name = name } IN IF hits = {} THEN {} ELSE st.sets[Min(hits)].cells
WithSet(st, name, cells) ==
  IF \E m \in 1 .. Len(st.sets) : st.sets[m].name = name THEN [st EXCEPT !.sets = [m \in 1 .. Len(@) |-> IF @[m].name = name THEN [name |-> name, cells |-> cells] ELSE @[m]]]
  ELSE [st EXCEPT !.sets = Append(@, [name |-> name, cells |-> cells])]
(* the data after the materials changed: change(d, dt) for those held *)
Follow(st, change(_, _)) ==
  [st EXCEPT !.D = [d \in 1 .. Len(st.D) |->
     IF ~ IsMulti(st, d) THEN st.D[d]
     ELSE IF Held(st, d) THEN [st.D[d] EXCEPT !.v = change(@, DtOf(st, d))]
     ELSE [v |-> << >>, old |-> TRUE, sizes |-> Sizes(st.D[d])]]]
RealCells(env, l) == { c \in ToSet(l) : At(env.cls, c) \in { OWNED, GHOST } }
AddMat(st, env, name, l) ==
  IF MatIndex(st, name) # 0 THEN st
  ELSE LET cells == SetOf(st, name) \cup RealCells(env, l)
           s1 == Follow(st, LAMBDA v, dt : Append(v, [c \in cells |-> Zero(dt)]))
       IN [WithSet(s1, name, cells) EXCEPT !.mats = Append(@, [name |-> name, cells |-> cells])]
AddCells(st, env, m, l) ==
  LET old == st.mats[m + 1].cells  cells == old \cup RealCells(env, l)
      s1 == Follow(st, LAMBDA v, dt : [v EXCEPT ![m + 1] = [c \in cells |-> IF c \in old THEN v[m + 1][c] ELSE Zero(dt)]])
  IN [WithSet(s1, st.mats[m + 1].name, cells) EXCEPT !.mats[m + 1].cells = cells]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RemMat(st, m) ==
  IF m < 0 \/ m >= Len(st.mats) THEN st
  ELSE [Follow(st, LAMBDA v, dt : Without(v, m + 1)) EXCEPT !.mats = Without(@, m + 1)]

(* ---- fields of the mesh ---- *)
FieldDt(sdim, f) == CASE f.type = "INT" -> "int" [] f.type = "DOUBLE" -> "double"
                      [] f.type = "VECTOR" -> (IF sdim = 2 THEN "arr2" ELSE IF sdim = 3 THEN "arr3" ELSE "none")
                      [] f.type = "TENSOR" -> (IF sdim = 2 THEN "arr3" ELSE IF sdim = 3 THEN "arr6" ELSE "none") [] OTHER -> "none"
Imports(env) ==
  LET ofKind(k) == SelectSeq(env.fields, LAMBDA f : f.kind = k /\ FieldDt(env.sdim, f) # "none") IN ofKind(NODE) \o ofKind(FACE) \o ofKind(CELL)
RECURSIVE ImportFrom(_, _, _)
ImportFrom(st, env, fs) ==
  IF fs = << >> THEN st
  ELSE LET f == fs[1]  vec == [name |-> f.name, mult |-> "uni", dt |-> FieldDt(env.sdim, f), dom |-> 0, kind |-> f.kind, type |-> ALLT, d |-> 0]
       IN ImportFrom(AddVec(st, vec, Uni(f.data)).s, env, Tail(fs))
StoreType(dt) == CASE dt = "int" -> "INT" [] dt = "double" -> "DOUBLE" [] dt = "arr2" -> "ARR2" [] dt = "arr3" -> "ARR3" [] dt = "arr6" -> "ARR6"
Exportable(st, env, h) == h.mult = "uni" /\ h.dom = 0 /\ Len(st.D[h.d].v) = Count(env, 0, h.kind, ALLT)
Exports(st, env) ==
  LET s == SelectSeq(st.R, LAMBDA j : Exportable(st, env, st.H[j]))
  IN [i \in 1 .. Len(s) |-> LET h == st.H[s[i]] IN [name |-> h.name, type |-> StoreType(h.dt), kind |-> h.kind, data |-> st.D[h.d].v]]

(* ---- what is printed ---- *)
KindNames == << "NODE", "EDGE", "FACE", "CELL", "SIDE", "WEDGE", "CORNER", "FACET", "BOUNDARY_FACE" >>
TypeNames == << "TYPE_UNKNOWN", "DELETED", "PARALLEL_OWNED", "PARALLEL_GHOST", "BOUNDARY_GHOST", "ALL" >>
CellNames == << "CELLTYPE_UNKNOWN", "TRI", "QUAD", "POLYGON", "TET", "PRISM", "PYRAMID", "HEX", "POLYHED" >>
PartNames == << "INDEX", "BLOCK", "METIS", "ZOLTAN_GRAPH", "ZOLTAN_RCB" >>
Spelled(enum, names, first, from, to) ==       \* the names of the values from .. to, of which first is the first that has one
  [i \in 1 .. to - from + 1 |-> LET v == from + i - 1 - first IN IF v >= 0 /\ v < Len(names) THEN enum \o "::" \o names[v + 1] ELSE ""]
FlatVals(dt, v) == IF dt \in { "int", "double" } THEN v ELSE FlattenSeq(v)
Printed(st, h) == IF h.mult # "uni" THEN << >>
                  ELSE << [name |-> h.name, kind |-> "Entity_kind::" \o KindNames[h.kind + 1], n |-> Len(st.D[h.d].v), vals |-> FlatVals(h.dt, st.D[h.d].v)] >>
PrintOK(st, e) ==
  << <<"a printed vector", Len(e.each) = Len(st.H) /\ \A j \in 1 .. Len(st.H) : st.H[j].mult # "uni" \/ e.each[j] = Printed(st, st.H[j])>>,
     <<"a printed state", e.whole = FlattenSeq([j \in 1 .. Len(st.R) |-> Printed(st, st.H[st.R[j]])])>> >>
SpellOK(e) ==
  << <<"names of entity kinds", e.kinds = Spelled("Entity_kind", KindNames, 0, -3, 10)>>, <<"names of entity types", e.types = Spelled("Entity_type", TypeNames, -1, -2, 6)>>,
     <<"names of cell types", e.cells = Spelled("Cell_type", CellNames, 0, 0, 10)>>, <<"names of partitioners", e.parts = Spelled("Partitioner_type", PartNames, 0, 0, 6)>> >>

(* ---- transitions ---- *)
Reply(s, r) == [s |-> s, ret |-> r]
Resized(v, n, x) == [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE x]
Do(st, env, op) ==
  LET h == IF "h" \in DOMAIN op THEN st.H[op.h + 1] ELSE << >>
      setV(f(_)) == Reply([st EXCEPT !.D[h.d].v = f(@)], -1)
      fetched(q) == LET j == FirstOf(st, q) IN IF j = 0 THEN Reply(st, 0) ELSE Reply([st EXCEPT !.H[op.h + 1] = st.H[st.R[j]]], 1)
  IN CASE op.op = "add" -> AddVec(st, Vec(op, op.dom, 0), NewData(st, env, op))
       [] op.op = "alone" -> Reply(WithVec(st, Vec(op, op.dom, 0), NewData(st, env, op), FALSE), Len(st.H))
       [] op.op = "addcopy" -> AddVec(st, [h EXCEPT !.dom = IF h.dom = -1 THEN 0 ELSE @], st.D[h.d])
       [] op.op = "copy" -> Reply(WithVec(st, h, st.D[h.d], FALSE), Len(st.H))
       [] op.op = "assign" -> Reply([st EXCEPT !.H[op.h + 1] = st.H[op.from + 1]], -1)
       [] op.op = "fetch" -> fetched([v |-> "full", name |-> op.name, mult |-> h.mult, dt |-> h.dt, dom |-> op.dom, kind |-> op.kind, type |-> op.type])
       [] op.op = "fetchm" -> fetched([v |-> "getd", name |-> op.name, mult |-> h.mult, dt |-> h.dt, dom |-> 0, kind |-> ANYKIND, type |-> ALLT])
       [] op.op = "write" -> IF h.mult = "uni" THEN setV(LAMBDA v : IF v = << >> THEN v ELSE [v EXCEPT ![(op.i % Len(v)) + 1] = op.val]) ELSE setV(LAMBDA v : [v EXCEPT ![op.m + 1][op.c] = op.val])
       [] op.op = "resize" -> setV(LAMBDA v : Resized(v, op.n, IF "val" \in DOMAIN op THEN op.val ELSE Zero(h.dt)))
       [] op.op = "clear" -> setV(LAMBDA v : << >>)
       [] op.op = "mresize" -> Reply([st EXCEPT !.D[h.d] = [v |-> << >>, old |-> TRUE, sizes |-> [Sizes(@) EXCEPT ![op.m + 1] = op.n]]], -1)
       [] op.op = "mclear" -> Reply([st EXCEPT !.D[h.d] = [v |-> << >>, old |-> TRUE, sizes |-> IF "m" \in DOMAIN op THEN [Sizes(@) EXCEPT ![op.m + 1] = 0] ELSE << >>]], -1)
       [] op.op = "assignv" -> Reply([st EXCEPT !.D[h.d] = FreshMulti(st, LAMBDA m, c : op.val)], -1)
       [] op.op = "assignd" -> Reply([st EXCEPT !.D[h.d] = FreshMulti(st, LAMBDA m, c : IF op.lay = "cell" THEN op.data[c + 1][m] ELSE op.data[m][c + 1])], -1)
       [] op.op = "mkset" -> Reply(WithSet(st, op.name, RealCells(env, op.l)), -1)
       [] op.op = "addmat" -> Reply(AddMat(st, env, op.name, op.l), -1)
       [] op.op = "addcells" -> Reply(AddCells(st, env, op.m, op.l), -1)
       [] op.op = "remmat" -> Reply(RemMat(st, op.m), -1)
       [] op.op = "remname" -> Reply(RemMat(st, MatIndex(st, op.name) - 1), -1)
       [] op.op = "import" -> Reply(ImportFrom(st, env, Imports(env)), -1)
       [] op.op \in { "export", "print", "spell" } -> Reply(st, -1)

(* ---- what every state must satisfy ---- *)
InStep(st) == \A j \in 1 .. Len(st.R) : LET h == st.H[st.R[j]] IN
  h.mult = "multi" => /\ ~ st.D[h.d].old /\ Len(st.D[h.d].v) = Len(st.mats)
                      /\ \A m \in 1 .. Len(st.mats) : DOMAIN st.D[h.d].v[m] = st.mats[m].cells
OnceEach(st) == \A i, j \in 1 .. Len(st.R) : i < j => LET a == st.H[st.R[i]] b == st.H[st.R[j]] IN
  << a.name, a.mult, a.dt, a.dom, a.kind, a.type >> # << b.name, b.mult, b.dt, b.dom, b.kind, b.type >>
NamesOnce(st) == \A i, j \in 1 .. Len(st.mats) : i # j => st.mats[i].name # st.mats[j].name
SetsAgree(st) == \A m \in 1 .. Len(st.mats) : SetOf(st, st.mats[m].name) = st.mats[m].cells
StateInv(st) == InStep(st) /\ OnceEach(st) /\ NamesOnce(st) /\ SetsAgree(st)

(* ---- a projection o of the code's state is that of st ---- *)
OfKindR(st, k) == SelectSeq(st.R, LAMBDA j : st.H[j].kind = k)
RegOK(st, o) ==
  << <<"vectors in order of addition", o.reg = [j \in 1 .. Len(st.R) |-> st.R[j] - 1]>>,
     <<"number of vectors", o.size = Len(st.R)>>,
     <<"names in order of addition", o.names = [j \in 1 .. Len(st.R) |-> st.H[st.R[j]].name]>>,
     <<"iteration and indexing agree", o.agree>>, <<"mesh of the state", o.mesh>>,
     <<"vectors of one kind", \A k \in 1 .. 9 : o.bykind[k] = LET s == OfKindR(st, k - 1) IN [j \in 1 .. Len(s) |-> s[j] - 1]>>,
     <<"names of one kind", \A k \in 1 .. 9 : o.namesbykind[k] = LET s == OfKindR(st, k - 1) IN [j \in 1 .. Len(s) |-> st.H[s[j]].name]>> >>
QueriesOK(st, qs, o) == << <<"lookups", Len(o.q) = Len(qs) /\ \A i \in 1 .. Len(qs) : o.q[i] = << FirstOf(st, qs[i]) - 1, TRUE >> >> >>
VecOK(st, o, j) ==
  LET h == st.H[j]  p == o.h[j]  d == st.D[h.d] IN
  << <<"description of a vector", p.name = h.name /\ p.kind = h.kind /\ p.type = h.type /\ p.dt = h.dt /\ p.mult = h.mult /\ p.vt = h.mult /\ p.dom = h.dom /\ p.typed>>,
     <<"ways to the data agree", p.views>> >> \o
  IF h.mult # p.mult THEN << >>
  ELSE IF h.mult = "uni" THEN << <<"number of values", p.size = Len(d.v) /\ p.bsize = Len(d.v)>>, <<"values", p.data = d.v>> >>
  ELSE << <<"number of materials of a vector", p.size = Len(Sizes(d)) /\ p.bsize = Len(Sizes(d))>>, <<"number of values for each material", p.size2 = Sizes(d)>> >> \o
       IF d.old THEN << >> ELSE
       << <<"values in the order of the material's cells", Len(p.data) = Len(d.v) /\ Len(o.mats) = Len(d.v) /\ \A m \in 1 .. Len(d.v) :
              Len(p.data[m]) = Len(o.mats[m].cells) /\ \A i \in 1 .. Len(p.data[m]) : o.mats[m].cells[i] \in DOMAIN d.v[m] /\ p.data[m][i] = d.v[m][o.mats[m].cells[i]]>>,
          <<"values by material and cell", p.fits /\ Len(p.at) = Len(d.v) /\ \A m \in 1 .. Len(d.v) : \A c \in 1 .. Len(p.at[m]) :
              p.at[m][c] = IF (c - 1) \in DOMAIN d.v[m] THEN d.v[m][c - 1] ELSE Zero(h.dt)>>,
          <<"refusal of cells without the material", p.fits /\ Len(p.refuses) = Len(d.v) /\ \A m \in 1 .. Len(d.v) : \A c \in 1 .. Len(p.refuses[m]) :
              p.refuses[m][c] = IF (c - 1) \in DOMAIN d.v[m] THEN 0 ELSE 1>> >>
VecsOK(st, o) ==
  << <<"vectors", Len(o.h) = Len(st.H)>> >> \o
  IF Len(o.h) # Len(st.H) THEN << >> ELSE FoldLeft(LAMBDA acc, j : acc \o VecOK(st, o, j), << >>, [j \in 1 .. Len(st.H) |-> j])
MatsOK(st, env, names, o) ==
  << <<"number of materials", Len(o.mats) = Len(st.mats)>> >> \o
  IF Len(o.mats) # Len(st.mats) THEN << >> ELSE
  << <<"names of the materials", \A m \in 1 .. Len(st.mats) : o.mats[m].name = st.mats[m].name>>,
     <<"cells of the materials", \A m \in 1 .. Len(st.mats) : IsSetOf(o.mats[m].cells, st.mats[m].cells) /\ o.mats[m].n = Cardinality(st.mats[m].cells)>>,
     <<"positions of the cells", \A m \in 1 .. Len(st.mats) : \A c \in 1 .. Len(env.cls) :
          LET i == o.mats[m].idx[c] IN IF (c - 1) \in st.mats[m].cells THEN i >= 0 /\ i < Len(o.mats[m].cells) /\ o.mats[m].cells[i + 1] = c - 1 ELSE i = -1>>,
     <<"set of a material", \A m \in 1 .. Len(st.mats) : o.mats[m].set>>,
     <<"materials of the cells", o.cmcount /\ Len(o.cellmats) = Len(env.cls) /\ \A c \in 1 .. Len(env.cls) : IsSetOf(o.cellmats[c], { m - 1 : m \in { x \in 1 .. Len(st.mats) : (c - 1) \in st.mats[x].cells } })>>,
     <<"materials by name", \A i \in 1 .. Len(names) : o.byname[i] = << MatIndex(st, names[i]) - 1, TRUE >> >>,
     <<"no material past the last", o.past = << "UNDEFINED_MATERIAL", 0, 0 >> >> >>
(* what a change of size leaves of the data, and of that of other vectors       *)
SizedRows(op, dt, rows) ==
  IF op.op = "mclear" THEN IF "m" \in DOMAIN op THEN [rows EXCEPT ![op.m + 1] = << >>] ELSE << >>
  ELSE [rows EXCEPT ![op.m + 1] = Resized(@, op.n, IF "val" \in DOMAIN op THEN op.val ELSE Zero(dt))]
SizesOK(st, op, o0, o) ==
  << <<"values after a change of size", \A j \in 1 .. Len(st.H) : st.H[j].mult # "multi" \/
        o.h[j].data = (IF st.H[j].d = st.H[op.h + 1].d THEN SizedRows(op, st.H[j].dt, o0.h[j].data) ELSE o0.h[j].data)>> >>
StateOK(st, env, sc, o) ==
  RegOK(st, o) \o QueriesOK(st, IF "qs" \in DOMAIN sc THEN sc.qs ELSE << >>, o) \o VecsOK(st, o)
  \o MatsOK(st, env, IF "names" \in DOMAIN sc THEN sc.names ELSE << >>, o)
============================================================================
