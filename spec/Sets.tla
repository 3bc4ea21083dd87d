-------------------------------- MODULE Sets --------------------------------
(* Mesh sets: a registry of named sets of entities of one kind, kept apart    *)
(* into owned and ghost ones, their algebra, their mutation, and the sets a   *)
(* geometric model's regions define on a mesh.                                *)
(*   H  the sets made so far: [name, kind, own, gho, rev]                      *)
(*      rev: positions are known ("yes") or may be unknown ("maybe")           *)
(*   R  the registry: indices into H, in order of registration                 *)
(* Kinds are numbered as in the code: node 0, edge 1, face 2, cell 3, side 4, *)
(* wedge 5, corner 6; cls[kind+1][entity+1] is the class of an entity.         *)
EXTENDS MeshObs

NODE == 0  EDGE == 1  FACE == 2  CELL == 3
ClsOf(cls, k, e) == cls[k + 1][e + 1]
Univ(cls, k, t) == { e \in Ids(Len(cls[k + 1])) : cls[k + 1][e + 1] = t }
OwnPart(cls, k, ents) == { e \in ents : ClsOf(cls, k, e) = OWNED }
GhoPart(cls, k, ents) == { e \in ents : ClsOf(cls, k, e) = GHOST }
SetRec(name, kind, own, gho, rev) == [name |-> name, kind |-> kind, own |-> own, gho |-> gho, rev |-> rev]

(* ---- registry ---- *)
Found(H, R, name, kind) ==                      \* index of the first match, 0 if none
  LET hits == { j \in 1 .. Len(R) : H[R[j]].name = name /\ H[R[j]].kind = kind }
  IN IF hits = {} THEN 0 ELSE R[CHOOSE j \in hits : \A q \in hits : j <= q]
OfKind(H, R, k) == SelectSeq(R, LAMBDA i : H[i].kind = k)

(* ---- algebra, on one of the two parts of the operands ---- *)
UnionOf(parts) == UNION ToSet(parts)
InterOf(parts) == { e \in parts[1] : \A i \in 1 .. Len(parts) : e \in parts[i] }
MinusOf(a, parts) == a \ UnionOf(parts)
Owns(H, l) == [i \in 1 .. Len(l) |-> H[l[i]].own]
Ghos(H, l) == [i \in 1 .. Len(l) |-> H[l[i]].gho]
Combined(bop, cls, kind, os, gs) ==             \* <<own, gho>>
  CASE bop = "Union" -> << UnionOf(os), UnionOf(gs) >>
    [] bop = "Intersect" -> << InterOf(os), InterOf(gs) >>
    [] bop = "Subtract" -> << MinusOf(os[1], Tail(os)), MinusOf(gs[1], Tail(gs)) >>
    [] bop = "Complement" -> << Univ(cls, kind, OWNED) \ UnionOf(os), Univ(cls, kind, GHOST) \ UnionOf(gs) >>

(* ---- mutation ---- *)
Added(cls, h, l) == [h EXCEPT !.own = @ \cup OwnPart(cls, h.kind, ToSet(l)), !.gho = @ \cup GhoPart(cls, h.kind, ToSet(l))]
Removed(h, l) == [h EXCEPT !.own = @ \ ToSet(l), !.gho = @ \ ToSet(l)]
Mutated(cls, o, h, l) == IF o \in { "add", "adds" } THEN Added(cls, h, l) ELSE Removed(h, l)
Cleared(h) == [name |-> "", kind |-> -1, own |-> {}, gho |-> {}, rev |-> "maybe"]

(* ---- transitions determined by the state: [H, R, ret, new]; handles count  *)
(* from zero in operations, the name of a combination is the code's own        *)
Hs(op) == [i \in 1 .. Len(op.hs) |-> op.hs[i] + 1]
NewSet(H, R, rec, temp) == [H |-> Append(H, rec), R |-> IF temp THEN R ELSE Append(R, Len(H) + 1), ret |-> Len(H)]
Comb(H, R, cls, bop, l, temp) ==
  LET k == H[l[1]].kind  p == Combined(bop, cls, k, Owns(H, l), Ghos(H, l))
  IN NewSet(H, R, SetRec("?", k, p[1], p[2], H[l[1]].rev), temp)
Do(H, R, cls, op) ==
  LET keep == [H |-> H, R |-> R, ret |-> -1]
      temp == "temp" \in DOMAIN op /\ op.temp
  IN CASE op.op = "mk" -> NewSet(H, R, SetRec(op.name, op.kind, OwnPart(cls, op.kind, ToSet(op.ents)), GhoPart(cls, op.kind, ToSet(op.ents)),
                                             IF op.rev THEN "yes" ELSE "maybe"), temp)
       [] op.op \in { "add", "adds", "rem", "rems" } -> [keep EXCEPT !.H[op.h + 1] = Mutated(cls, op.op, @, op.l)]
       [] op.op = "clear" -> [keep EXCEPT !.H[op.h + 1] = Cleared(@)]
       [] op.op = "rename" -> [keep EXCEPT !.H[op.h + 1].name = op.name]
       [] op.op = "copy" -> NewSet(H, R, H[op.h + 1], TRUE)
       [] op.op = "addset" -> [keep EXCEPT !.R = Append(R, op.h + 1)]
       [] op.op = "merge" -> IF Len(op.hs) = 1 THEN [keep EXCEPT !.ret = op.hs[1]] ELSE Comb(H, R, cls, "Union", Hs(op), temp)
       [] op.op = "inter" -> Comb(H, R, cls, "Intersect", Hs(op), temp)
       [] op.op = "comp" -> Comb(H, R, cls, "Complement", Hs(op), temp)
       [] op.op = "sub" -> Comb(H, R, cls, "Subtract", << op.h + 1 >> \o Hs(op), temp)
       [] OTHER -> keep

(* ---- regions ---- *)
Reg(regs, name) == regs[CHOOSE i \in 1 .. Len(regs) : regs[i].name = name]
HasReg(regs, name) == \E i \in 1 .. Len(regs) : regs[i].name = name
RDim(r) == CASE r.t = "box" -> Cardinality({ k \in 1 .. Len(r.p0) : r.p0[k] # r.p1[k] })
             [] r.t = "plane" -> Len(r.p) - 1
             [] r.t = "polygon" -> Len(r.pts[1]) - 1
             [] r.t = "point" -> 0
             [] OTHER -> 3
(* spellings of a kind in a labelled set's description *)
Spelled(s) == CASE s \in { "CELL", "Entity_kind::CELL" } -> CELL [] s \in { "FACE", "Entity_kind::FACE" } -> FACE
                [] s \in { "NODE", "Entity_kind::NODE" } -> NODE [] OTHER -> EDGE

(* where a point v/(S) is relative to a box with corners p0/den, p1/den:       *)
(* 1 inside, 0 too close to its boundary to tell, -1 outside; slack 0 for      *)
(* points known exactly                                                        *)
InBox(r, v, slack) ==
  LET lo(k) == Mn(r.p0[k], r.p1[k]) * (S \div r.den)  hi(k) == Mx(r.p0[k], r.p1[k]) * (S \div r.den)
  IN IF \A k \in 1 .. Len(v) : lo(k) + slack <= v[k] /\ v[k] <= hi(k) - slack THEN 1
     ELSE IF \A k \in 1 .. Len(v) : lo(k) - slack <= v[k] /\ v[k] <= hi(k) + slack THEN 0 ELSE -1
(* the point x (integers) on a plane through p/den *)
OnPlane(r, x) == Dot(r.n, VSub(VScale(r.den, x), r.p)) = 0
(* a point q/den against a polygon of points pts/den (den the same) *)
OnSegment(a, b, q) ==
  LET u == VSub(b, a)  w == VSub(q, a) IN
  /\ IF Len(a) = 2 THEN Cross2(u, w) = 0 ELSE Cross3(u, w) = << 0, 0, 0 >>
  /\ 0 <= Dot(u, w) /\ Dot(u, w) <= Dot(u, u)
PolyNormal(pts) == Cross3(VSub(pts[3], pts[2]), VSub(pts[1], pts[2]))
Crossings(pts, q, a, b) == Cardinality({ i \in 1 .. Len(pts) :
    LET s == pts[i]  t == Nx(pts, i) IN
      /\ (s[b] > q[b]) # (t[b] > q[b])
      /\ LET lhs == (q[a] - s[a]) * (t[b] - s[b])  rhs == (q[b] - s[b]) * (t[a] - s[a])
         IN IF t[b] > s[b] THEN lhs < rhs ELSE lhs > rhs })
InPolygon(pts, q) ==
  IF Len(q) = 2 THEN OnSegment(pts[1], pts[2], q)
  ELSE /\ Dot(PolyNormal(pts), VSub(q, pts[1])) = 0
       /\ \/ \E i \in 1 .. Len(pts) : OnSegment(pts[i], Nx(pts, i), q)
          \/ LET k == BigAxis(PolyNormal(pts)) IN Crossings(pts, q, (k % 3) + 1, ((k + 1) % 3) + 1) % 2 = 1

(* the entities a region that is no combination has: <<surely, perhaps>>       *)
Three(ents, f(_)) == LET v == TLCEval([e \in ents |-> f(e)]) IN << { e \in ents : v[e] = 1 }, { e \in ents : v[e] >= 0 } >>
Exactly(set) == << set, set >>
Ents(m, k) == IF k = NODE THEN Nodes(m) ELSE IF k = FACE THEN Faces(m) ELSE IF k = CELL THEN Cells(m) ELSE {}
InRegion(m, X, labels, r, k) ==
  CASE r.t = "box" -> Three(Ents(m, k), LAMBDA e : IF k = NODE THEN InBox(r, VScale(S, P(X, e)), 0)
                                          ELSE InBox(r, IF k = CELL THEN CellCentroid(m, X, e) ELSE FaceCentroid(m, X, e), 2))
    [] r.t = "plane" -> IF k = NODE THEN Exactly({ n \in Nodes(m) : OnPlane(r, P(X, n)) })
                        ELSE IF k = FACE THEN Exactly({ f \in Faces(m) : \A n \in NodesOfFace(m, f) : OnPlane(r, P(X, n)) })
                        ELSE Exactly(IF m.dim = 2 THEN { c \in Cells(m) : \A n \in NodesOfCell(m, c) : OnPlane(r, P(X, n)) } ELSE {})
    [] r.t = "polygon" -> LET in(n) == InPolygon(r.pts, VScale(r.den, P(X, n))) IN
                        IF k = NODE THEN Exactly({ n \in Nodes(m) : in(n) }) ELSE Exactly({ f \in Faces(m) : \A n \in NodesOfFace(m, f) : in(n) })
    [] r.t = "point" -> IF k = NODE THEN Exactly({ n \in Nodes(m) : VScale(r.den, P(X, n)) = r.p })
                        ELSE IF m.dim = 1 THEN Exactly({ c \in Cells(m) : \E a \in NodesOfCell(m, c), b \in NodesOfCell(m, c) :
                                                            r.den * P(X, a)[1] <= r.p[1] /\ r.p[1] <= r.den * P(X, b)[1] })
                        ELSE Three(Cells(m), LAMBDA c : -WhereIn(m, X, c, r.p, r.den))
    [] r.t = "label" -> Exactly(UNION { ToSet(labels[i].ents) : i \in { j \in 1 .. Len(labels) : labels[j].label = r.label /\ labels[j].kind = k } })
Supports(r, k) == CASE r.t = "box" -> k \in { NODE, FACE, CELL }
                    [] r.t = "plane" -> k \in { NODE, FACE, CELL }
                    [] r.t = "polygon" -> k \in { NODE, FACE }
                    [] r.t = "point" -> k \in { NODE, CELL }
                    [] r.t = "label" -> k = Spelled(r.ent)
                    [] OTHER -> k \in { NODE, FACE, CELL }
ValidName(m, regs, name, k) ==
  HasReg(regs, name) /\
  LET r == Reg(regs, name) IN
  IF r.t = "label" THEN k = Spelled(r.ent)
  ELSE \/ k = CELL /\ (RDim(r) >= m.dim \/ RDim(r) = 0)
       \/ k = FACE /\ RDim(r) >= m.dim - 1
       \/ k = NODE

(* ---- what is needed to build the set of a region: <<name, kind>> pairs not  *)
(* yet in the registry, the region itself always                               *)
RECURSIVE Needed(_, _, _, _, _)
Needed(H, R, regs, name, k) ==
  { << name, k >> } \cup
  IF ~ HasReg(regs, name) \/ Reg(regs, name).t # "logical" THEN {}
  ELSE UNION { IF Found(H, R, c, k) # 0 THEN {} ELSE Needed(H, R, regs, c, k) : c \in ToSet(Reg(regs, name).of) }
Buildable(regs, pair) == HasReg(regs, pair[1]) /\ Supports(Reg(regs, pair[1]), pair[2])
Lasting(regs, pair) == HasReg(regs, pair[1]) /\ ~ (Reg(regs, pair[1]).t = "logical" /\ Reg(regs, pair[1]).temp)
(* the kinds of sets a region gets by default *)
DefaultKinds(regs, gdim, faces, r) ==
  IF r.t = "label" THEN { Spelled(r.ent) }
  ELSE IF r.t = "logical" /\ \E c \in ToSet(r.of) : Reg(regs, c).t = "label"
    THEN { Spelled(Reg(regs, r.of[CHOOSE i \in 1 .. Len(r.of) : Reg(regs, r.of[i]).t = "label" /\ \A j \in 1 .. i - 1 : Reg(regs, r.of[j]).t # "label"]).ent) }
  ELSE (IF RDim(r) = gdim THEN { CELL } ELSE {}) \cup (IF faces /\ RDim(r) >= gdim - 1 THEN { FACE } ELSE {}) \cup { NODE }
KindsAsked(regs, gdim, faces, map, r) ==
  LET given == { i \in 1 .. Len(map) : map[i].name = r.name } IN
  IF r.t = "label" \/ (r.t = "logical" /\ \E c \in ToSet(r.of) : Reg(regs, c).t = "label") \/ given = {}
  THEN DefaultKinds(regs, gdim, faces, r) ELSE ToSet(map[CHOOSE i \in given : TRUE].kinds)
Targets(H, R, regs, gdim, faces, map) ==
  { p \in UNION { { << regs[i].name, k >> : k \in KindsAsked(regs, gdim, faces, map, regs[i]) } : i \in 1 .. Len(regs) } :
      Found(H, R, p[1], p[2]) = 0 }
NeededAll(H, R, regs, targets) == UNION { Needed(H, R, regs, p[1], p[2]) : p \in targets }

(* ---- observations ---- *)
PosIn(l, e) == IF Has(l, e) THEN PosOf(l, e) - 1 ELSE -1
ListsOK(h, own, gho, all) ==
  << <<"owned members", IsSetOf(own, h.own)>>, <<"ghost members", IsSetOf(gho, h.gho)>>, <<"all members are the owned, then the ghosts", all = own \o gho>> >>
IndexOK(h, all, ents, idx) ==
  << <<"position of each entity", /\ Len(idx) = Len(ents)
        /\ \/ \A i \in 1 .. Len(ents) : idx[i] = PosIn(all, ents[i])
           \/ h.rev # "yes" /\ \A i \in 1 .. Len(ents) : idx[i] = -1 >> >>
Iota(n) == [i \in 1 .. n |-> i - 1]
ProjOK(h, p) ==
  << <<"name", p.name = h.name>>, <<"kind", IF h.kind = -1 THEN p.kind \notin 0 .. 6 ELSE p.kind = h.kind>>, <<"its mesh", p.here>> >>
  \o ListsOK(h, p.own, p.gho, p.all) \o IndexOK(h, p.all, Iota(Len(p.idx)), p.idx)
  \o << <<"no boundary ghosts", p.bgh = << >>>>,
        <<"counts", p.num = << Len(p.own), Len(p.gho), Len(p.all), Len(p.all) >>>>,
        <<"counts of the kind", h.kind = -1 \/ p.numk = << Len(p.own), Len(p.gho), Len(p.all) >>>> >>
Zeroed(R) == [i \in 1 .. Len(R) |-> R[i] - 1]
RegistryOK(H, R, o) ==
  << <<"sets of the mesh", o.reg = Zeroed(R)>>, <<"sets of any kind", o.any = Zeroed(R) /\ o.nany = Len(R)>>,
     <<"sets of each kind", \A k \in 0 .. 6 : o.bykind[k + 1] = Zeroed(OfKind(H, R, k)) /\ o.nkind[k + 1] = Len(o.bykind[k + 1])>>,
     <<"look-up by name and kind", \A i \in 1 .. Len(o.find) : o.find[i].h = Found(H, R, o.find[i].name, o.find[i].kind) - 1>>,
     <<"entities by name and kind", \A i \in 1 .. Len(o.find) :
         LET f == o.find[i]  j == Found(H, R, f.name, f.kind) IN
         /\ IF j = 0 THEN f.ents = << << >>, << >>, << >>, << >> >>
            ELSE IsSetOf(f.ents[1], H[j].own) /\ IsSetOf(f.ents[2], H[j].gho) /\ f.ents[3] = f.ents[1] \o f.ents[2] /\ f.ents[4] = << >>
         /\ \A t \in 1 .. 4 : f.size[t] = Len(f.ents[t]) /\ f.csize[t] = Len(f.ents[t])>> >>
AllProjOK(H, o) == << <<"number of sets", Len(o.sets) = Len(H)>> >> \o
                   IF Len(o.sets) # Len(H) THEN << >>
                   ELSE FoldLeft(LAMBDA acc, i : acc \o ProjOK(H[i], o.sets[i]), << >>, [i \in 1 .. Len(H) |-> i])
StateOK(H, R, o) == AllProjOK(H, o) \o RegistryOK(H, R, o)
=============================================================================
