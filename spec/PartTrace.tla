------------------------------ MODULE PartTrace ------------------------------
(* Accepts recorded answers of the partitioners if Parts allows them.          *)
EXTENDS Parts, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == << sc, l >>
Clauses(s, op, e) ==
  << <<"as planned", e.op = op.op>>, <<"no error", e.exc = "">> >>
  \o (IF e.exc # "" THEN << >>
      ELSE IF op.op = "blocks" THEN
        [k \in 1 .. Len(e.r) |-> << << "blocks", k >>, BlocksOK(op.n, op.from + k - 1, e.r[k]) >>] \o << <<"all answered", Len(e.r) = op.to - op.from + 1>> >>
      ELSE TilesOK(s, e.o))
Init == sc \in 1 .. Len(Scen) /\ l = 0
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1 IN
  /\ k <= Len(Scen[sc].ops) /\ k <= Len(Tr[sc].ev)
  /\ l' = k /\ sc' = sc
  /\ Report(sc, k, Failing(Clauses(Scen[sc], Scen[sc].ops[k], Tr[sc].ev[k])))
Finish ==
  LET n == Len(Scen[sc].ops) IN
  /\ l = Len(Tr[sc].ev) \/ l = n
  /\ l <= n /\ l' = 1 + n /\ UNCHANGED sc
  /\ Report(sc, l + 1, Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", Len(Tr[sc].ev) = n>> >>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
