----------------------------- MODULE RegionScen -----------------------------
(* Plans for regions, geometric models and domains.                            *)
EXTENDS Regions, Json, IOUtils
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Sd(i) == 157 * Seed0 + 887 * i + 11
B(i, k, n) == Below(Sd(i), 7000 + k, n)
Names == << "a", "ab", "A", "d", "" >>
LongNames == << "the upper half of the box", "the upper half of the box 2", "the upper half of the box 1", "the upper half" >>
NamesOf(i) == IF i % 4 = 1 THEN LongNames ELSE Names
PtIn(i, q, d, w) == [k \in 1 .. d |-> B(i, q + k, w) - w \div 2]
Dim(i, q) == << 3, 3, 2, 2, 1 >>[1 + B(i, q, 5)]
SkewPoly(i, q) ==        \* a polygon in a skew plane, by an integer basis
  LET o == PtIn(i, q, 3, 9)
      k == B(i, q + 4, 5)
      u == << << 1, 2, 0 >>, << 1, -1, 2 >>, << 2, 0, 1 >>, << 0, 3, -1 >>, << -1, 1, 1 >> >>[k + 1]
      v == << << 0, 1, 3 >>, << 2, 1, 0 >>, << 0, -1, 1 >>, << 1, 0, 0 >>, << 1, 1, -2 >> >>[k + 1]
      at(a, b) == VAdd(o, VAdd(VScale(a, u), VScale(b, v)))
      shapes == << << at(0, 0), at(4, 0), at(0, 4) >>, << at(0, 0), at(4, 0), at(4, 4), at(0, 4) >>,
                   << at(0, 0), at(6, 0), at(6, 6), at(2, 2), at(0, 6) >>, << at(0, 0), at(2, -2), at(4, 0), at(4, 2), at(2, 4), at(0, 2) >>,
                   << at(0, 0), at(6, 0), at(6, 6), at(4, 6), at(4, 2), at(2, 2), at(2, 6), at(0, 6) >>, << at(0, 0), at(3, 0), at(4, 1), at(4, 3), at(3, 4), at(1, 4), at(0, 3) >>,
                   << at(0, 0), at(2, 0), at(4, 1), at(5, 3), at(5, 5), at(4, 7), at(2, 8), at(0, 8), at(-2, 7), at(-3, 5), at(-3, 3), at(-2, 1) >> >>
      p == shapes[1 + B(i, q + 5, 7)]
  IN [pts |-> IF B(i, q + 6, 2) = 0 THEN RotSeq(p, B(i, q + 7, 3)) ELSE Reversed(p), o |-> o, u |-> u, v |-> v]
FlatPoly(i, q) ==
  LET o == PtIn(i, q, 3, 9)  k == 1 + B(i, q + 4, 3)  a == (k % 3) + 1  b == ((k + 1) % 3) + 1
      ax(j) == [x \in 1 .. 3 |-> IF x = j THEN 1 ELSE 0]
      at(x, y) == VAdd(o, VAdd(VScale(x, ax(a)), VScale(y, ax(b))))
      shapes == << << at(0, 0), at(5, 0), at(0, 4) >>, << at(0, 0), at(4, 0), at(4, 3), at(0, 3) >>, << at(0, 0), at(6, 0), at(6, 6), at(1, 1), at(0, 6) >>,
                   << at(0, 0), at(6, 0), at(6, 6), at(4, 6), at(4, 2), at(2, 2), at(2, 6), at(0, 6) >>, << at(0, 0), at(6, 0), at(6, 2), at(3, 2), at(3, 5), at(2, 6), at(0, 6) >>,
                   << at(0, 0), at(12, 0), at(12, 7), at(10, 7), at(10, 2), at(7, 2), at(7, 6), at(5, 6), at(5, 2), at(2, 2), at(2, 7), at(0, 7) >> >>
      p == shapes[1 + B(i, q + 5, 6)]
  IN [pts |-> IF B(i, q + 6, 2) = 0 THEN RotSeq(p, B(i, q + 7, 3)) ELSE Reversed(p), o |-> o, u |-> ax(a), v |-> ax(b)]
Rgn(i, q) ==
  LET d == Dim(i, q)  r == B(i, q + 1, 16)  nm == Pick(Sd(i), q + 2, NamesOf(i))  tmp == B(i, q + 3, 4) = 0  den == << 1, 4 >>[1 + B(i, q + 4, 2)]
      bad == B(i, q + 5, 15) = 0
      d2 == IF bad THEN Dim(i, q + 6) ELSE d
      p0 == PtIn(i, q + 10, d, 25)
      pl == IF B(i, q + 7, 2) = 0 THEN SkewPoly(i, q + 30) ELSE FlatPoly(i, q + 30)
  IN IF r < 5 THEN [t |-> "box", name |-> nm, temp |-> tmp, den |-> den, p0 |-> p0,
                    p1 |-> LET p1 == PtIn(i, q + 15, d2, 25) IN IF B(i, q + 8, 4) = 0 /\ d2 = d THEN [p1 EXCEPT ![1] = p0[1]] ELSE p1]
     ELSE IF r < 8 THEN [t |-> "plane", name |-> nm, temp |-> tmp, den |-> den, p |-> p0, n |-> [k \in 1 .. d2 |-> IF k = 1 + B(i, q + 9, d2) THEN 1 + B(i, q + 20, 4) ELSE B(i, q + 20 + k, 7) - 3]]
     ELSE IF r < 10 THEN [t |-> "point", name |-> nm, temp |-> tmp, den |-> den, p |-> p0]
     ELSE IF r < 13 THEN
       [t |-> "polygon", name |-> nm, temp |-> tmp, den |-> den,
        pts |-> IF d = 3 THEN (IF bad THEN SubSeq(pl.pts, 1, 1 + B(i, q + 9, 2)) ELSE pl.pts)
                ELSE IF d = 2 THEN (IF bad THEN << p0 >> ELSE << p0, VAdd(p0, << 1 + B(i, q + 20, 5), B(i, q + 21, 9) - 4 >>) >>)
                ELSE << p0, VAdd(p0, << 3 >>) >>]
     ELSE IF r < 15 THEN [t |-> "logical", name |-> nm, temp |-> tmp, bop |-> IF bad THEN "Xor" ELSE << "Union", "Intersect", "Subtract", "Complement" >>[1 + B(i, q + 20, 4)],
                     byname |-> bad \/ B(i, q + 21, 2) = 0, of |-> [k \in 1 .. B(i, q + 22, 4) |-> Pick(Sd(i), q + 22 + k, NamesOf(i))]]
     ELSE [t |-> "label", name |-> nm, temp |-> tmp, ent |-> << "CELL", "FACE", "Entity_kind::NODE" >>[1 + B(i, q + 20, 3)], label |-> Pick(Sd(i), q + 21, Names)]
(* points worth asking about: corners, between, on the plane, off it, other dimensions *)
Ask(i, q, r) ==
  LET d == IF r.t = "polygon" \/ B(i, q, 10) # 0 THEN SpaceDim(r) ELSE Dim(i, q + 1)
      base == CASE r.t = "box" -> IF B(i, q + 2, 2) = 0 THEN r.p0 ELSE r.p1
                [] r.t \in { "plane", "point" } -> r.p
                [] r.t = "polygon" -> LET a == Pick(Sd(i), q + 3, r.pts)  b == Pick(Sd(i), q + 4, r.pts)  c == Pick(Sd(i), q + 5, r.pts) IN
                     IF B(i, q + 6, 4) = 0 THEN a ELSE IF B(i, q + 6, 4) = 1 THEN VAdd(a, VSub(b, c)) ELSE [k \in 1 .. Len(a) |-> (2 * a[k] + b[k] + c[k]) \div 4]
                [] OTHER -> << 0, 0, 0 >>
      move == [k \in 1 .. Len(base) |-> IF B(i, q + 7, 3) = 0 THEN 0 ELSE B(i, q + 10 + k, 5) - 2]
      mid == IF r.t = "box" /\ Len(r.p0) = Len(r.p1) THEN [k \in 1 .. Len(r.p0) |-> (r.p0[k] * (1 + B(i, q + 20 + k, 3)) + r.p1[k] * (3 - B(i, q + 20 + k, 3))) \div 4] ELSE base
      p == IF B(i, q + 8, 3) = 0 THEN mid ELSE VAdd(base, move)
      inplane == IF r.t = "plane" /\ d = 3 /\ Len(r.n) = 3 /\ B(i, q + 9, 2) = 0 THEN VAdd(r.p, Cross3(r.n, PtIn(i, q + 25, 3, 5)))
                 ELSE IF r.t = "plane" /\ d = 2 /\ Len(r.n) = 2 /\ B(i, q + 9, 2) = 0 THEN VAdd(r.p, VScale(B(i, q + 25, 5) - 2, << -r.n[2], r.n[1] >>)) ELSE p
  IN IF d = Len(p) THEN inplane ELSE [k \in 1 .. d |-> IF k <= Len(p) THEN p[k] ELSE 0]
(* hairbreadths by which a point asked about may be off without it mattering *)
Off(i, q, p, r) == [k \in 1 .. Len(p) |-> IF r.t \in { "box", "plane", "point" } /\ B(i, q + 31, 2) = 0 THEN B(i, q + 31 + k, 3) - 1 ELSE 0]
DenOf(r) == IF "den" \in DOMAIN r THEN r.den ELSE 1
OpAt(i, q, st) ==
  LET r == B(i, q, 100)  nr == Len(st.rs)  nm == Len(st.ms)  nd == Len(st.ds)
      anyr(k) == B(i, q + k, nr)
  IN IF nr = 0 \/ r < 24 THEN [op |-> "region", r |-> Rgn(i, q + 100), id |-> B(i, q + 1, 6)]
     ELSE IF r < 30 THEN [op |-> "copy", r |-> anyr(1)]
     ELSE IF r < 62 THEN LET h == IF B(i, q + 2, 2) = 0 THEN nr - 1 ELSE anyr(1)  g == st.rs[h + 1].r IN
            [op |-> "inside", r |-> h, den |-> DenOf(g), pts |-> [k \in 1 .. 10 |-> Ask(i, q + 40 * k, g)],
                          off |-> [k \in 1 .. 10 |-> Off(i, q + 40 * k, Ask(i, q + 40 * k, g), g)]]
     ELSE IF nm = 0 \/ r < 68 THEN (LET how == IF nm > 0 /\ B(i, q + 1, 3) = 0 THEN "copy" ELSE IF B(i, q + 1, 3) = 1 THEN "list" ELSE "dim" IN
            [op |-> "model", how |-> how, dim |-> IF B(i, q + 2, 8) = 0 THEN B(i, q + 3, 5) ELSE 2 + B(i, q + 3, 2), m |-> IF nm > 0 THEN B(i, q + 4, nm) ELSE 0,
             rs |-> [k \in 1 .. B(i, q + 5, 4) |-> anyr(5 + k)]])
     ELSE IF r < 82 THEN [op |-> "addreg", m |-> B(i, q + 1, nm), r |-> anyr(2)]
     ELSE IF nd = 0 \/ r < 86 THEN (LET how == IF nd > 0 /\ B(i, q + 1, 3) = 0 THEN "copy" ELSE IF B(i, q + 1, 3) = 1 THEN "list" ELSE "dim" IN
            [op |-> "domain", how |-> how, dim |-> IF B(i, q + 2, 6) = 0 THEN B(i, q + 3, 5) ELSE 2 + B(i, q + 3, 2), d |-> IF nd > 0 THEN B(i, q + 4, nd) ELSE 0,
             rs |-> [k \in 1 .. B(i, q + 5, 3) |-> anyr(5 + k)], ms |-> [k \in 1 .. B(i, q + 9, 3) |-> B(i, q + 9 + k, nm)]])
     ELSE IF r < 93 THEN [op |-> "addmodel", d |-> B(i, q + 1, nd), m |-> B(i, q + 2, nm)]
     ELSE [op |-> "addfree", d |-> B(i, q + 1, nd), r |-> anyr(2)]
RECURSIVE Ops(_, _, _, _)
Ops(i, k, st, acc) == IF k = 0 THEN acc ELSE LET op == TLCEval(OpAt(i, 600 * k, st)) IN Ops(i, k - 1, TLCEval(DoReg(st, op)), TLCEval(Append(acc, op)))
Plan(i) == [sid |-> i, names |-> NamesOf(i) \o << "zz" >>, ids |-> << 0, 1, 2, 3, 4, 5, 6 >>, ops |-> Ops(i, IF i % 60 = 31 THEN 60 ELSE 14, S0, << >>)]
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == plan = << >> /\ plan' = Plan(id) /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>) /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
