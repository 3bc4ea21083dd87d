----------------------------- MODULE ErrorDesign -----------------------------
(* Exhaustive: a program that ended did so by a report while aborting was in  *)
(* force, the behaviour in force is the one selected last, and a message      *)
(* changes only by what is done to that message.                              *)
EXTENDS Errors
VARIABLES s, over, last, chosen
vars == << s, over, last, chosen >>
P == { << >>, << [t |-> "a"] >>, << [t |-> "a"], [t |-> "1"] >> }
Ops == { [op |-> "mode", v |-> v] : v \in { RAISE, ABORT } } \cup { [op |-> "msg", t |-> t] : t \in { "", "m" } }
   \cup { [op |-> "put", m |-> i, l |-> p] : i \in 1 .. Len(s.msgs), p \in P } \cup { [op |-> "copy", m |-> i] : i \in 1 .. Len(s.msgs) }
   \cup { [op |-> "assign", m |-> i, from |-> j] : i, j \in 1 .. Len(s.msgs) }
   \cup { [op |-> "throw", what |-> "message", m |-> i] : i \in 1 .. Len(s.msgs) } \cup { [op |-> "site"] }
Init == s = Start /\ over = FALSE /\ last = [op |-> "none"] /\ chosen = RAISE
Small(t) == Len(t.msgs) <= 2 /\ \A i \in 1 .. Len(t.msgs) : Len(t.msgs[i]) <= 4
Next == /\ ~ over
        /\ \E op \in Ops : /\ Small(Does(s, op))
                           /\ s' = Does(s, op) /\ last' = op /\ over' = Ends(s, op) /\ chosen' = IF op.op = "mode" THEN op.v ELSE chosen
Spec == Init /\ [][Next]_vars
InForce == s.mode = chosen
EndsOnlySo == over => last.op \in Reports /\ chosen = ABORT
OnlyThatMessage == [][\A i \in 1 .. Len(s.msgs) : s'.msgs[i] # s.msgs[i] => last'.op \in { "put", "assign" } /\ last'.m = i]_vars
Grows == [][last'.op = "put" => SubSeq(s'.msgs[last'.m], 1, Len(s.msgs[last'.m])) = s.msgs[last'.m]]_vars
=============================================================================
