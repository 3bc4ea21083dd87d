----------------------------- MODULE ShapeTrace -----------------------------
(* Accepts a recorded execution of the geometric primitives if it is a        *)
(* behaviour of Shapes.                                                       *)
EXTENDS Shapes, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, rg
vars == << sc, l, rg >>
Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ rg = << >>
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1  op == Scen[sc].ops[k]  e == Tr[sc].ev[k] IN
  /\ k <= Len(Scen[sc].ops) /\ k <= Len(Tr[sc].ev)
  /\ l' = k /\ sc' = sc
  /\ rg' = AfterPt(rg, op)
  /\ Report(sc, k, Failing(<< <<"as planned", e.op = op.op>>, <<"no error", e.exc = "">>,
                              <<"vectors", Len(e.r) = Len(rg') /\ \A i \in 1 .. Len(rg') : RegOK(rg'[i], e.r[i])>> >>
                           \o (IF e.exc = "" THEN Answer(rg, op, e) ELSE << >>)))
Finish ==
  LET n == Len(Scen[sc].ops) IN
  /\ l = Len(Tr[sc].ev) \/ l = n
  /\ l <= n /\ l' = 1 + n
  /\ Report(sc, l + 1, Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", Len(Tr[sc].ev) = n>> >>))
  /\ UNCHANGED << sc, rg >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
