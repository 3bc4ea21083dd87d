------------------------------- MODULE Errors -------------------------------
(* Error reporting: one behaviour for the whole program, messages that are    *)
(* the pieces given to them in order, and reports that raise or abort.        *)
EXTENDS Num
RAISE == 0  ABORT == 1
Start == [mode |-> RAISE, msgs |-> << >>]
Text(pieces) == FoldLeft(LAMBDA acc, p : acc \o p.t, "", pieces)
Reports == { "throw", "site" }
Does(s, op) ==
  CASE op.op = "mode" -> [s EXCEPT !.mode = op.v]
    [] op.op = "msg" -> [s EXCEPT !.msgs = Append(@, op.t)]
    [] op.op = "put" -> [s EXCEPT !.msgs[op.m] = @ \o Text(op.l)]
    [] op.op = "copy" -> [s EXCEPT !.msgs = Append(@, s.msgs[op.m])]
    [] op.op = "assign" -> [s EXCEPT !.msgs[op.m] = s.msgs[op.from]]
    [] OTHER -> s
Ends(s, op) == op.op \in Reports /\ s.mode = ABORT
(* what the caller of a report gets while errors are raised *)
Caught(s, op) ==
  CASE op.what = "message" -> << "Message", s.msgs[op.m] >>
    [] op.what = "derived" -> << "Derived", s.msgs[op.m] >>
    [] op.what = "cut" -> << "CutTimeStep", "" >>
    [] op.what = "own" -> << "Own", ToString(op.v) >>
    [] op.what = "plain" -> << "int", ToString(op.v) >>
=============================================================================
