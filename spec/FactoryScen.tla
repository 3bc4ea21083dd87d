---------------------------- MODULE FactoryScen -----------------------------
(* Histories for the mesh factory: every ordered pair of option changes       *)
(* between resets, random histories, and histories with creations.            *)
EXTENDS Factory, Json, IOUtils
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Prop == IOEnv.PROP
Sd(i) == 271 * Seed0 + 613 * i + 11
B(i, k, n) == Below(Sd(i), 3000 + k, n)
OneOf(i, k, s) == s[B(i, k, Len(s)) + 1]

Alphabet == TLCEval(
     [f \in 1 .. 4 |-> [op |-> "framework", v |-> f]]
  \o [k \in 1 .. 9 |-> [op |-> "inc", v |-> << -3, 0, 1, 2, 3, 4, 5, 6, 8 >>[k]]]
  \o << [op |-> "incl", l |-> << 1, 4 >>], [op |-> "incl", l |-> << >>], [op |-> "incl", l |-> << 6, 5, 5 >>], [op |-> "incl", l |-> << -1, 4 >>] >>
  \o [k \in 1 .. 6 |-> [op |-> "exc", l |-> << << 1 >>, << 4 >>, << 5 >>, << 6 >>, << 0, 2, 3, 7 >>, << 4, 2, 6, 1 >> >>[k]]]
  \o << [op |-> "tiles", v |-> 3], [op |-> "tiles", v |-> 0], [op |-> "halo", v |-> 2], [op |-> "halo", v |-> 1], [op |-> "dist", v |-> 0], [op |-> "dist", v |-> 4], [op |-> "bg", v |-> 1], [op |-> "bg", v |-> 0] >>
  \o [p \in 1 .. 5 |-> [op |-> "part", v |-> p - 1]] \o [g \in 1 .. 3 |-> [op |-> "geom", v |-> g - 1]]
  \o [g \in 1 .. 4 |-> [op |-> "gm", v |-> g - 1]] \o << [op |-> "gids", v |-> 1], [op |-> "gids", v |-> 0], [op |-> "reset"] >>)
NA == Len(Alphabet)
(* change a, then each change b, with a reset in between *)
PairsWith(a) == FoldLeft(LAMBDA acc, b : acc \o << Alphabet[a], b, [op |-> "reset"] >>, << >>, Alphabet)
Ints == << 0, 1, 2, 3, 5, 17, 1000, -1, 1000000 >>
RandOp(i, k) ==
  LET r == B(i, k, 22) IN
  CASE r < 4 -> [op |-> << "tiles", "halo", "dist", "dist" >>[r + 1], v |-> OneOf(i, k + 1, Ints)]
    [] r = 4 -> [op |-> "reset"]
    [] r = 5 -> [op |-> "incl", l |-> [j \in 1 .. B(i, k + 1, 5) |-> B(i, k + 1 + j, 10) - 3]]
    [] r = 6 -> [op |-> "exc", l |-> [j \in 1 .. B(i, k + 1, 5) |-> B(i, k + 1 + j, 10) - 1]]
    [] OTHER -> Alphabet[1 + B(i, k + 1, NA)]
(* options under which something can be made, most of the time *)
UsefulOp(i, k) ==
  LET r == B(i, k, 30) IN
  CASE r < 6 -> [op |-> "framework", v |-> IF B(i, k + 1, 6) = 0 THEN 1 + B(i, k + 2, 4) ELSE SIMPLE]
    [] r < 10 -> [op |-> "tiles", v |-> B(i, k + 1, 5)]
    [] r < 12 -> [op |-> "halo", v |-> B(i, k + 1, 3)]
    [] r = 12 -> [op |-> "bg", v |-> B(i, k + 1, 2)]
    [] r < 16 -> [op |-> "part", v |-> B(i, k + 1, 5)]
    [] r < 19 -> [op |-> "geom", v |-> B(i, k + 1, 3)]
    [] r < 22 -> [op |-> "gm", v |-> B(i, k + 1, 4)]
    [] r < 24 -> [op |-> "inc", v |-> OneOf(i, k + 1, << 1, 4, 5, 6, 2, 3, 0, -3 >>)]
    [] r < 27 -> [op |-> "exc", l |-> OneOf(i, k + 1, << << 1, 4, 5, 6 >>, << 4, 5, 6, 1 >>, << 1 >>, << 4 >>, << 5 >>, << 6 >>, << 2, 3 >> >>)]
    [] r = 27 -> [op |-> "reset"]
    [] r = 28 -> [op |-> "dist", v |-> B(i, k + 1, 3)]
    [] OTHER -> [op |-> "gids", v |-> B(i, k + 1, 2)]
RECURSIVE Rising(_, _, _, _)
Rising(i, k, n, acc) == IF Len(acc) >= n THEN acc ELSE Rising(i, k, n, Append(acc, acc[Len(acc)] + 1 + B(i, k + Len(acc), 4)))
Extent(i, k, d) ==
  LET lo == [j \in 1 .. d |-> B(i, k + j, 9) - 4]
      bad == B(i, k + 9, 7) = 0  how == B(i, k + 11, 5)
      ws == SetToSeq(SUBSET (1 .. d) \ { {} })  w == ws[1 + B(i, k + 10, Len(ws))]      \* the axes that are wrong: any of them
      n == [j \in 1 .. d |-> IF bad /\ how < 2 /\ j \in w THEN -how ELSE 1 + B(i, k + 11 + j, 3)]
  IN [lo |-> lo, hi |-> [j \in 1 .. d |-> IF bad /\ how >= 2 /\ j \in w THEN lo[j] - (IF how = 4 THEN 1 + B(i, k + 18 + j, 4) ELSE how - 2) ELSE lo[j] + 1 + B(i, k + 15 + j, 5)], n |-> n]
CreateOp(i, k) ==
  LET r == B(i, k, 16) IN
  CASE r < 5 -> [op |-> "box"] @@ Extent(i, k, 3)
    [] r < 7 -> [op |-> "rect"] @@ Extent(i, k, 2)
    [] r < 11 -> [op |-> "line", x |-> LET s == B(i, k + 1, 12) IN
                  IF s = 0 THEN << >> ELSE IF s = 1 THEN << 3 >> ELSE IF s = 2 THEN << 4, 4 >> ELSE IF s = 3 THEN << 5, 2, 1 >>
                  ELSE Rising(i, k + 3, 2 + B(i, k + 2, 6), << B(i, k + 1, 9) - 4 >>)]
    [] r < 14 -> LET n == IF B(i, k + 1, 8) = 0 THEN -B(i, k + 2, 3) ELSE 1 + B(i, k + 2, 7)  lo == B(i, k + 3, 9) - 4  h == IF B(i, k + 4, 9) = 0 THEN -B(i, k + 5, 2) ELSE 1 + B(i, k + 5, 4) IN
                 [op |-> "nline", lo |-> lo, hi |-> lo + h * Mx(1, n), n |-> n]
    [] r = 14 -> [op |-> "read"]
    [] OTHER -> [op |-> "extract"]
(* tiles must be possible: not more than cells, no negative numbers *)
CellsOf(op) == IF op.op = "box" THEN op.n[1] * op.n[2] * op.n[3] ELSE IF op.op = "line" THEN Len(op.x) - 1 ELSE IF op.op = "nline" THEN op.n ELSE 0
RECURSIVE Hist(_, _, _, _, _)
Hist(i, k, n, fs, acc) ==
  IF Len(acc) >= n THEN acc
  ELSE LET r == B(i, 100 * k, 10)
           cr == CreateOp(i, 100 * k + 1)
           pre == IF fs.tiles > CellsOf(cr) /\ Outcome(1, fs, cr) # "error" THEN << [op |-> "tiles", v |-> CellsOf(cr)] >> ELSE << >>
           add == IF r < 4 THEN pre \o << cr >> ELSE IF r = 4 THEN << [op |-> "look"] >> ELSE << UsefulOp(i, 100 * k + 40) >>
           nfs == FoldLeft(LAMBDA st, op : Set(st, op), fs, add)
       IN Hist(i, k + 1, n, nfs, acc \o add)
Scenario(i) ==
  [sid |-> i, ranks |-> IF Prop = "F02" /\ i % 9 = 4 THEN 2 ELSE 1, ops |->
    IF Prop = "F01" THEN IF i <= NA THEN PairsWith(i) ELSE [k \in 1 .. 60 |-> RandOp(i, 40 * k)]
    ELSE IF i = 1 THEN << [op |-> "caps"], [op |-> "box"] @@ Extent(1, 1, 3), [op |-> "read"] >>
    ELSE LET start == IF B(i, 1, 8) = 0 THEN << >> ELSE << [op |-> "framework", v |-> SIMPLE] >> IN
         start \o Hist(i, 1, 22, FoldLeft(LAMBDA st, op : Set(st, op), Defaults, start), << >>)]
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == plan = << >> /\ plan' = Scenario(id) /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>) /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
