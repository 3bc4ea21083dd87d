------------------------------ MODULE Regions ------------------------------
(* Regions of space, geometric models (lists of regions) and domains (lists   *)
(* of models and free regions): what may be made, added and found.            *)
EXTENDS Sets

(* a description a region can be made of *)
SpaceDim(r) == CASE r.t = "box" -> Len(r.p0) [] r.t \in { "plane", "point" } -> Len(r.p) [] r.t = "polygon" -> Len(r.pts[1]) [] OTHER -> 3
Makeable(r) == CASE r.t = "box" -> Len(r.p0) = Len(r.p1)
                 [] r.t = "plane" -> Len(r.p) = Len(r.n)
                 [] r.t = "polygon" -> Len(r.pts[1]) \in { 2, 3 } /\ Len(r.pts) >= Len(r.pts[1])
                 [] r.t = "logical" -> ~ r.byname \/ r.bop \in { "Union", "Intersect", "Subtract", "Complement" }
                 [] OTHER -> TRUE
(* 1: contains the point q/den, 0: does not, -1: no answer but an error        *)
HasPoint(r, q, den) ==
  LET dn == r.den * den  sc(v) == VScale(den, v)  sq == VScale(r.den, q) IN
  CASE r.t \in { "box", "plane", "point" } /\ Len(q) # SpaceDim(r) -> -1
    [] r.t = "box" -> IF \A k \in 1 .. Len(q) : Mn(sc(r.p0)[k], sc(r.p1)[k]) <= sq[k] /\ sq[k] <= Mx(sc(r.p0)[k], sc(r.p1)[k]) THEN 1 ELSE 0
    [] r.t = "plane" -> IF Dot(r.n, VSub(sq, sc(r.p))) = 0 THEN 1 ELSE 0
    [] r.t = "point" -> IF sq = sc(r.p) THEN 1 ELSE 0
    [] r.t = "polygon" -> IF InPolygon([i \in 1 .. Len(r.pts) |-> sc(r.pts[i])], sq) THEN 1 ELSE 0
    [] OTHER -> -1

(* ---- state: rs, regions made so far [r, id]; ms [dim, l]; ds [dim, l, f]   *)
S0 == [rs |-> << >>, ms |-> << >>, ds |-> << >>]
DimOf(st, h) == RDim(st.rs[h + 1].r)
Refused(st, op) ==
  CASE op.op = "region" -> ~ Makeable(op.r)
    [] op.op = "model" -> op.how = "dim" /\ op.dim \notin { 2, 3 }
    [] op.op = "addreg" -> st.ms[op.m + 1].dim < DimOf(st, op.r)
    [] op.op = "domain" -> op.how # "copy" /\ op.dim \notin { 2, 3 }
    [] op.op = "addmodel" -> st.ds[op.d + 1].dim # st.ms[op.m + 1].dim
    [] op.op = "addfree" -> st.ds[op.d + 1].dim < DimOf(st, op.r)
    [] OTHER -> FALSE
Does(st, op) ==
  CASE op.op = "region" -> [st EXCEPT !.rs = Append(@, [r |-> op.r, id |-> op.id])]
    [] op.op = "copy" -> [st EXCEPT !.rs = Append(@, @[op.r + 1])]
    [] op.op = "model" -> [st EXCEPT !.ms = Append(@, IF op.how = "dim" THEN [dim |-> op.dim, l |-> << >>]
                                       ELSE IF op.how = "list" THEN [dim |-> op.dim, l |-> op.rs] ELSE @[op.m + 1])]
    [] op.op = "addreg" -> [st EXCEPT !.ms[op.m + 1].l = Append(@, op.r)]
    [] op.op = "domain" -> [st EXCEPT !.ds = Append(@, IF op.how = "dim" THEN [dim |-> op.dim, l |-> << >>, f |-> << >>]
                                       ELSE IF op.how = "list" THEN [dim |-> op.dim, l |-> op.ms, f |-> op.rs] ELSE @[op.d + 1])]
    [] op.op = "addmodel" -> [st EXCEPT !.ds[op.d + 1].l = Append(@, op.m)]
    [] op.op = "addfree" -> [st EXCEPT !.ds[op.d + 1].f = Append(@, op.r)]
    [] OTHER -> st
DoReg(st, op) == IF Refused(st, op) THEN st ELSE Does(st, op)

FirstIn(l, p(_)) == LET hits == { i \in 1 .. Len(l) : p(l[i]) } IN IF hits = {} THEN -1 ELSE l[CHOOSE i \in hits : \A j \in hits : i <= j]
Thou(den, v) == VScale(S \div den, v)
DescOK(x, d) ==
  LET r == x.r IN
  /\ d.name = r.name /\ d.id = x.id /\ d.dim = RDim(r) /\ d.t = r.t
  /\ d.temp = (IF "temp" \in DOMAIN r THEN r.temp ELSE FALSE)
  /\ CASE r.t = "box" -> /\ d.p0 = Thou(r.den, r.p0) /\ d.p1 = Thou(r.den, r.p1) /\ d.lo = d.p0 /\ d.hi = d.p1
                         /\ LET n == Cardinality({ k \in 1 .. Len(r.p0) : r.p0[k] = r.p1[k] }) IN d.ndeg = n /\ d.deg = (n > 0)
       [] r.t = "plane" -> d.p = Thou(r.den, r.p) /\ d.n = VScale(S, r.n)
       [] r.t = "point" -> d.p = Thou(r.den, r.p)
       [] r.t = "polygon" -> d.np = Len(r.pts) /\ d.pts = [i \in 1 .. Len(r.pts) |-> Thou(r.den, r.pts[i])]
       [] r.t = "logical" -> d.of = r.of /\ d.bop = r.bop
       [] r.t = "label" -> d.label = r.label /\ d.ent = r.ent
ObsOK(st, names, ids, o) ==
  << <<"number of regions, models and domains", Len(o.regs) = Len(st.rs) /\ Len(o.models) = Len(st.ms) /\ Len(o.domains) = Len(st.ds)>>,
     <<"what a region says of itself", \A i \in 1 .. Mn(Len(o.regs), Len(st.rs)) : DescOK(st.rs[i], o.regs[i])>>,
     <<"regions of a model", \A i \in 1 .. Mn(Len(o.models), Len(st.ms)) : LET m == st.ms[i]  x == o.models[i] IN
          x.dim = m.dim /\ x.n = Len(m.l) /\ x.l = m.l /\ x.tiling>>,
     <<"region by identifier", \A i \in 1 .. Mn(Len(o.models), Len(st.ms)) : o.models[i].byid = [j \in 1 .. Len(ids) |-> FirstIn(st.ms[i].l, LAMBDA h : st.rs[h + 1].id = ids[j])]>>,
     <<"region by name", \A i \in 1 .. Mn(Len(o.models), Len(st.ms)) : o.models[i].byname = [j \in 1 .. Len(names) |-> FirstIn(st.ms[i].l, LAMBDA h : st.rs[h + 1].r.name = names[j])]>>,
     <<"contents of a domain", \A i \in 1 .. Mn(Len(o.domains), Len(st.ds)) : LET d == st.ds[i]  x == o.domains[i] IN
          x.dim = d.dim /\ x.l = d.l /\ x.f = d.f /\ x.nm = Len(d.l) /\ x.nf = Len(d.f)>> >>
=============================================================================
