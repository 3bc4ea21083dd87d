---------------------------- MODULE RegionTrace ----------------------------
(* Accepts a recorded execution of regions, models and domains if it is a     *)
(* behaviour of Regions.                                                      *)
EXTENDS Regions, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
vars == << sc, l, st >>
Ev(i, k) == Tr[i].ev[k]
NEv(i) == Len(Tr[i].ev)
Clauses(s, op, e, before, after) ==
  << <<"as planned", e.op = op.op>>,
     <<"refused with an error exactly when it cannot be", (e.exc # "") = Refused(before, op)>> >>
  \o (IF op.op = "inside" /\ e.exc = "" THEN << <<"points inside", e.in = [i \in 1 .. Len(op.pts) |-> HasPoint(before.rs[op.r + 1].r, op.pts[i], op.den)]>> >> ELSE << >>)
  \o ObsOK(after, s.names, s.ids, e.o)
Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ st = S0
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1  s == Scen[sc] IN
  /\ k <= Len(s.ops) /\ k <= NEv(sc)
  /\ l' = k /\ sc' = sc
  /\ st' = DoReg(st, s.ops[k])
  /\ Report(sc, k, Failing(Clauses(s, s.ops[k], Ev(sc, k), st, st')))
Finish ==
  LET n == Len(Scen[sc].ops) IN
  /\ l = NEv(sc) \/ l = n
  /\ l <= n /\ l' = 1 + n
  /\ Report(sc, l + 1, Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", NEv(sc) = n>> >>))
  /\ UNCHANGED << sc, st >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
