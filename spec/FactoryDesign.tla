---------------------------- MODULE FactoryDesign ----------------------------
(* The options of the factory as a state machine over small domains, checked  *)
(* exhaustively: an operation changes its own option only, what was set is    *)
(* what is there, a reset leads back to the start from everywhere, and no     *)
(* history makes nodes, faces or cells optional or an unavailable framework   *)
(* the chosen one.                                                            *)
EXTENDS Factory
VARIABLES fs, last
vars == << fs, last >>
KindArgs == { -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7 }
Ops ==   { [op |-> "framework", v |-> f] : f \in 1 .. 4 }
    \cup { [op |-> "inc", v |-> k] : k \in KindArgs }
    \cup { [op |-> "incl", l |-> << a, b >>] : a \in { 1, 4, -1 }, b \in { 5, 6, -3 } }
    \cup { [op |-> "exc", l |-> << a >>] : a \in KindArgs } \cup { [op |-> "exc", l |-> << 1, 4, 5, 6 >>] }
    \cup { [op |-> q, v |-> n] : q \in { "tiles", "bg", "part" }, n \in 0 .. 1 }
    \cup { [op |-> "geom", v |-> n] : n \in { 0, 2 } } \cup { [op |-> "gm", v |-> n] : n \in { 0, 3 } }
    \cup { [op |-> "gids", v |-> 1], [op |-> "reset"] }
Init == fs = Defaults /\ last = [op |-> "none"]
Next == \E op \in Ops : fs' = Set(fs, op) /\ last' = op
Spec == Init /\ [][Next]_vars
TypeOK == fs.inc \subseteq Kinds /\ { 0, 2, 3 } \subseteq fs.inc
NeverUnavailable == fs.fw \in { SIMPLE, Defaults.fw }
ResetIsStart == last.op = "reset" => fs = Defaults
ReadsBack ==
  /\ last.op \in { "tiles", "part", "geom", "gm" } => fs[last.op] = last.v
  /\ last.op = "inc" /\ last.v \in Kinds => last.v \in fs.inc
  /\ last.op = "inc" /\ last.v = ALLKINDS => fs.inc = Kinds
  /\ last.op = "exc" => fs.inc \cap ToSet(last.l) \cap Optional = {}
OwnOptionOnly == [][last'.op = "reset" \/ \A f \in DOMAIN fs : f = Field(last') \/ fs'[f] = fs[f]]_vars
(* what a creation yields agrees with what the framework says it can do *)
Requests == { [op |-> "box", lo |-> << 0, 0, 0 >>, hi |-> << 1, 1, 1 >>, n |-> << 1, 1, n >>] : n \in { 0, 1 } }
       \cup { [op |-> "rect", lo |-> << 0, 0 >>, hi |-> << 1, 1 >>, n |-> << 1, 1 >>], [op |-> "line", x |-> << 0, 1 >>], [op |-> "line", x |-> << 1 >>],
              [op |-> "nline", lo |-> 0, hi |-> 2, n |-> 2], [op |-> "read", v |-> "x"], [op |-> "extract", v |-> "x"] }
SaysSo == \A op \in Requests, ranks \in { 1, 2 } : Outcome(ranks, fs, op) # "error" => Available(fs.fw) /\ Generates(fs.fw, ranks > 1, DimOf(op)) /\ ValidRequest(fs, op)
=============================================================================
