----------------------------- MODULE StateTrace -----------------------------
(* Accepts a recorded execution of a state if it is a behaviour of State.     *)
EXTENDS State, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, St, env, bad
vars == << sc, l, St, env, bad >>
NEv(i) == Len(Tr[i].ev)
Op(i, k) == IF k > 1 THEN Scen[i].ops[k - 1] ELSE [op |-> "make"]
EnvOf(s, e) == [cls |-> e.cls, cnt |-> e.cnt, sdim |-> s.mesh.sdim, fields |-> IF "fields" \in DOMAIN s THEN s.fields ELSE << >>]
CountsOK(s, e) ==
  << <<"classes of the cells", s.mesh.tp = e.cls>>,
     <<"numbers of entities", \A d \in { 1, 2 } : \A t \in 1 .. 3 :
         /\ e.cnt[d][CELL + 1][t] = Cardinality({ c \in 1 .. Len(s.mesh.tp) : s.mesh.tp[c] = t })
         /\ e.cnt[d][NODE + 1][t] = Cardinality({ c \in 1 .. Len(s.mesh.nt) : s.mesh.nt[c] = t })>>,
     <<"number of all entities", \A d \in 1 .. Len(e.cnt) : \A k \in 1 .. 7 : e.cnt[d][k][4] >= e.cnt[d][k][1] + e.cnt[d][k][2]>> >>
Clauses(s, op, e, en, st, r, e0) ==
  << <<"as planned", e.op = op.op>>, <<"no exception", e.exc = "">> >>
  \o IF e.op # op.op \/ e.exc # "" THEN << >>
     ELSE IF op.op = "make" THEN CountsOK(s, e) \o StateOK(st, en, s, e.o)
     ELSE << <<"what is returned", e.ret = r.ret>> >> \o StateOK(r.s, en, s, e.o)
          \o IF op.op = "print" THEN PrintOK(r.s, e) ELSE IF op.op = "spell" THEN SpellOK(e) ELSE
             IF op.op = "export" THEN << <<"fields handed to the mesh", e.stored = Exports(r.s, en)>> >> ELSE
             IF op.op \in { "mresize", "mclear" } /\ Len(e.o.h) = Len(st.H) /\ e0.exc = "" /\ Len(e0.o.h) = Len(st.H) THEN SizesOK(r.s, op, e0.o, e.o) ELSE << >>
Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ St = StartState /\ env = << >> /\ bad = {}
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1  s == Scen[sc]  op == Op(sc, k)  e == Tr[sc].ev[k] IN
  /\ l < 1 + Len(s.ops) /\ k <= NEv(sc)
  /\ l' = k /\ sc' = sc
  /\ env' = IF op.op = "make" /\ e.exc = "" THEN EnvOf(s, e) ELSE env
  /\ LET r == TLCEval(IF op.op = "make" THEN [s |-> St, ret |-> -1] ELSE Do(St, env', op))
         f == Failing(Clauses(s, op, e, env', St, r, IF k > 1 THEN Tr[sc].ev[k - 1] ELSE e))
     IN /\ St' = r.s
        /\ bad' = (IF f = {} THEN bad ELSE bad \cup { k })
        /\ Report(sc, k, f)
Finish ==
  LET s == Scen[sc] IN
  /\ l = NEv(sc) \/ l = 1 + Len(s.ops)
  /\ l <= 1 + Len(s.ops)
  /\ l' = 2 + Len(s.ops)
  /\ LET f == Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", NEv(sc) = 1 + Len(s.ops)>> >>)
     IN bad' = (IF f = {} THEN bad ELSE bad \cup { 0 }) /\ Report(sc, l + 1, f)
  /\ UNCHANGED << sc, St, env >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
