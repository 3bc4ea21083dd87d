----------------------------- MODULE ErrorTrace -----------------------------
(* Accepts a recorded program if it is a behaviour of Errors: it ends by a    *)
(* report while aborting is in force, and only then.                          *)
EXTENDS Errors, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, s
vars == << sc, l, s >>
Clauses(op, e) ==
  LET n == Does(s, op) IN
  << <<"as planned", e.op = op.op>>, <<"messages", e.msgs = n.msgs>>, <<"behaviour in force", e.mode = << n.mode, n.mode >> >>,
     << << "reports abort the program", op.op >>, ~ Ends(s, op)>> >>
  \o (IF op.op = "throw" THEN << << << "what the caller gets", op.what >>, e.caught = Caught(s, op)>>, <<"caught as the library's exception", e.base = (op.what # "plain")>> >>
      ELSE IF op.op = "site" THEN << << << "error of the library", op.what >>, e.caught[1] = "Message" /\ e.caught[2] # "" /\ e.base>> >>
      ELSE << <<"no exception", e.caught = << >> >> >>)
Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ s = Start
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1 IN
  /\ k <= Len(Scen[sc].ops) /\ k <= Len(Tr[sc].ev)
  /\ l' = k /\ sc' = sc /\ s' = Does(s, Scen[sc].ops[k])
  /\ Report(sc, k, Failing(Clauses(Scen[sc].ops[k], Tr[sc].ev[k])))
Finish ==
  LET n == Len(Scen[sc].ops)  ended == l < n /\ Ends(s, Scen[sc].ops[l + 1]) IN
  /\ l = Len(Tr[sc].ev) \/ l = n
  /\ l <= n /\ l' = 1 + n /\ UNCHANGED << sc, s >>
  /\ Report(sc, l + 1, Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = IF ended THEN "signal 6" ELSE "ok">>, <<"all steps executed", ended \/ Len(Tr[sc].ev) = n>> >>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
