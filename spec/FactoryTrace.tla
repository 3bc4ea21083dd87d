---------------------------- MODULE FactoryTrace ----------------------------
(* Accepts a recorded history of a mesh factory if it is one of Factory.      *)
EXTENDS Factory, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, fs, made
vars == << sc, l, fs, made >>
(* made: what each mesh was made with, and the request *)
CapTable(e) ==
  << <<"names", \A f \in 1 .. 4 : e.caps.name[f] = NameOf(f)>>,
     <<"an unknown framework has no name", e.caps.noname>>,
     <<"available", \A f \in 1 .. 4 : e.caps.avail[f] = Available(f)>>,
     <<"generates", \A f \in 1 .. 4 : \A p \in 0 .. 1 : \A d \in 0 .. 4 : e.caps.gen[f][p + 1][d + 1] = Generates(f, p = 1, d)>>,
     <<"reads", \A f \in 1 .. 4 : \A p \in 0 .. 1 : \A t \in 1 .. 3 : e.caps.read[f][p + 1][t] = Reads(f, p = 1, t)>>,
     <<"extracts", \A f \in 1 .. 4 : \A p \in 0 .. 1 : \A d \in 0 .. 4 : e.caps.ext[f][p + 1][d + 1] = Extracts(f, p = 1, d)>> >>
IsError(e) == e.exc = "Jali" /\ e.msg
Made(e, op) ==
  LET out == Outcome(Scen[sc].ranks, fs, op) IN
  << <<"a mesh or an error, not nothing", e.exc # "" \/ ~ e.null>>,
     << << "outcome", out >>, CASE out = "error" -> e.exc # "" [] out = "mesh" -> e.exc = "" [] OTHER -> TRUE>>,
     <<"errors carry a message", e.exc = "" \/ IsError(e)>> >>
  \o (IF e.exc = "" /\ ~ e.null THEN MeshIs(fs, op, e.o) ELSE << >>)
Clauses(op, e) ==
  << <<"as planned", e.op = op.op>> >>
  \o (IF op.op = "look" THEN << <<"all meshes looked at", Len(e.meshes) = Len(made)>> >>
                             \o (IF Len(e.meshes) # Len(made) THEN << >> ELSE FlattenSeq([j \in 1 .. Len(made) |-> MeshIs(made[j].fs, made[j].op, e.meshes[j])]))
      ELSE IF op.op = "caps" THEN CapTable(e)
      ELSE IF op.op \in Creations THEN Made(e, op)
      ELSE IF Refused(op) THEN << <<"refused", IsError(e)>> >> ELSE << <<"no error", e.exc = "">> >>)
  \o OptionsAre(Set(fs, op), e.opts)
Init == sc \in 1 .. Len(Scen) /\ l = 0 /\ fs = Defaults /\ made = << >>
Report(i, k, f) == IF f = {} THEN TRUE ELSE PrintT(<< "BAD", Scen[i].sid, k, f >>)
Step ==
  LET k == l + 1 IN
  /\ k <= Len(Scen[sc].ops) /\ k <= Len(Tr[sc].ev)
  /\ LET op == Scen[sc].ops[k]  e == Tr[sc].ev[k] IN
     /\ l' = k /\ sc' = sc /\ fs' = Set(fs, op)
     /\ made' = IF op.op \in Creations /\ e.exc = "" /\ ~ e.null THEN Append(made, [fs |-> fs, op |-> op]) ELSE made
     /\ Report(sc, k, Failing(Clauses(op, e)))
Finish ==
  LET n == Len(Scen[sc].ops) IN
  /\ l = Len(Tr[sc].ev) \/ l = n
  /\ l <= n /\ l' = 1 + n /\ UNCHANGED << sc, fs, made >>
  /\ Report(sc, l + 1, Failing(<< << << "run ended", Tr[sc].end >>, Tr[sc].end = "ok">>, <<"all steps executed", Len(Tr[sc].ev) = n>> >>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
