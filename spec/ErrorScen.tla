----------------------------- MODULE ErrorScen ------------------------------
EXTENDS Errors, Json, IOUtils
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Sd(i) == 331 * Seed0 + 457 * i + 23
B(i, k, n) == Below(Sd(i), 4000 + k, n)
OneOf(i, k, s) == s[B(i, k, Len(s)) + 1]
Sites == << "box ctor", "box inside", "logical ctor", "logical inside", "polygon ctor", "point inside", "plane ctor", "plane inside", "labeled inside",
            "model ctor", "model region", "domain ctor", "domain model", "domain region", "entity parent", "set of no region", "face set of point", "logical set of no region", "labeled set of other kind",
            "simple 2D", "simple extract", "simple bghost", "factory name", "factory framework", "factory read", "factory box", "factory rect", "factory line", "factory nline", "factory model", "factory extract" >>
Line64 == "0123456789 abcdefghijklmnop %q ABCDEFGHIJKLMNOPQRSTUVWXYZ ~,:;%"
Line256 == Line64 \o Line64 \o Line64 \o Line64
LongWords == << Line256 \o "'s end", Line256 \o Line256 \o Line256 \o Line256 \o Line256 \o "the end" >>
Words == << "", "a", " ", "Mesh: ", "%d", "%s%n", "cell 7", "xyz\\", "twelve chars", "a longer piece of text, which does not fit into any short string buffer", "0", "-" >> \o LongWords
IntText == << "0", "7", "-1", "42", "1000000", "2147483647", "-2147483648", "65536", "-99999" >>
DblText == << "0", "0.5", "-2.25", "1e+20", "1.5e-07", "123456", "1e-300", "-1.23457e+100", "3", "-1.23457e-100", "0.000125", "100000", "1.23457e+06", "-0.1" >>
Piece(i, k) == LET r == B(i, k, 6) IN
  IF r < 2 THEN [k |-> "chars", t |-> OneOf(i, k + 1, Words)] ELSE IF r = 2 THEN [k |-> "string", t |-> OneOf(i, k + 1, Words)]
  ELSE IF r < 5 THEN [k |-> "int", t |-> OneOf(i, k + 1, IntText)] ELSE [k |-> "dbl", t |-> OneOf(i, k + 1, DblText)]
ModeOp(i, k, v) == [op |-> "mode", v |-> v, by |-> B(i, k, 2), tu |-> B(i, k + 1, 2)]
MsgOp(i, k, s) ==
  LET n == Len(s.msgs)  r == B(i, k, 10) IN
  IF n = 0 \/ r < 2 THEN LET how == OneOf(i, k + 1, << "empty", "chars", "string" >>) IN [op |-> "msg", how |-> how, t |-> IF how = "empty" THEN "" ELSE OneOf(i, k + 2, Words)]
  ELSE IF r < 7 THEN [op |-> "put", m |-> 1 + B(i, k + 1, n), how |-> OneOf(i, k + 2, << "put", "chain", "add" >>), l |-> [j \in 1 .. 1 + B(i, k + 3, 4) |-> Piece(i, k + 4 + 2 * j)]]
  ELSE IF r < 9 THEN [op |-> "copy", m |-> 1 + B(i, k + 1, n)]
  ELSE [op |-> "assign", m |-> 1 + B(i, k + 1, n), from |-> 1 + B(i, k + 2, n)]
AddOnly(op) == IF op.op = "put" /\ op.how = "add" THEN [op EXCEPT !.l = [j \in DOMAIN op.l |-> IF op.l[j].k \in { "int", "dbl" } THEN [k |-> "chars", t |-> op.l[j].t] ELSE op.l[j]]] ELSE op
ReportOp(i, k, s) ==
  IF B(i, k, 2) = 0 THEN [op |-> "site", what |-> OneOf(i, k + 1, Sites)]
  ELSE LET w == OneOf(i, k + 2, IF s.msgs = << >> THEN << "cut", "own", "plain" >> ELSE << "message", "message", "message", "derived", "cut", "own", "plain" >>) IN
       [op |-> "throw", what |-> w, m |-> 1 + B(i, k + 3, Mx(1, Len(s.msgs))), v |-> B(i, k + 4, 100), tu |-> B(i, k + 5, 2)]
AnyOp(i, k, s, v) == LET r == B(i, k, 10) IN IF r = 0 THEN ModeOp(i, k + 1, RAISE) ELSE IF r < 3 /\ v THEN ModeOp(i, k + 1, B(i, k + 2, 2)) ELSE IF r < 6 /\ s.mode = RAISE THEN ReportOp(i, k + 3, s) ELSE AddOnly(MsgOp(i, k + 9, s))
RECURSIVE Hist(_, _, _, _, _)
Hist(i, k, n, s, acc) == IF k > n THEN [s |-> s, ops |-> acc] ELSE LET op == TLCEval(AnyOp(i, 60 * k, s, TRUE))  s2 == TLCEval(Does(s, op))  a2 == TLCEval(Append(acc, op)) IN IF s2.mode >= 0 /\ Len(a2) > 0 THEN Hist(i, k + 1, n, s2, a2) ELSE Assert(FALSE, op)
(* every site and every kind of report in each behaviour, after various histories of it *)
NS == Len(Sites)
Scenario(i) ==
  IF i <= 2 * NS THEN
    LET site == [op |-> "site", what |-> Sites[1 + ((i - 1) % NS)]]  ab == i > NS IN
    [sid |-> i, ops |-> << ModeOp(i, 1, IF ab THEN RAISE ELSE ABORT), ModeOp(i, 3, IF ab THEN ABORT ELSE RAISE), site, site >>]
  ELSE LET h == Hist(i, 1, 10 + B(i, 1, 14), Start, << >>)
           m == B(i, 2, 2)
           tail == IF B(i, 3, 3) = 0 THEN << >> ELSE << ModeOp(i, 5, m) >>
           s2 == FoldLeft(Does, h.s, tail)
       IN [sid |-> i, ops |-> h.ops \o tail \o << ReportOp(i, 8, s2) >> \o (IF s2.mode = ABORT THEN << [op |-> "msg", how |-> "empty", t |-> ""] >> ELSE << >>)]
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == plan = << >> /\ plan' = Scenario(id) /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>) /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
