----------------------------- MODULE ShapeScen ------------------------------
(* Plans for the geometric primitives. Every planned solid is checked to be   *)
(* closed and convex with flat faces, every planned polygon to be what it     *)
(* claims.                                                                    *)
EXTENDS Shapes, Json, IOUtils
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Sd(i) == 163 * Seed0 + 919 * i + 17
B(i, k, n) == Below(Sd(i), 3000 + k, n)

(* ---- points ---- *)
Val(i, q) == LET r == B(i, q, 6) IN IF r = 0 THEN 0 ELSE IF r < 4 THEN U * (B(i, q + 1, 41) - 20) ELSE B(i, q + 1, 641) - 320
Vals(i, q, n) == [k \in 1 .. n |-> Val(i, q + 2 * k)]
Small(v) == \A k \in 1 .. Len(v) : Abs(v[k]) <= 6000
DivBy(v, c) == \A k \in 1 .. Len(v) : v[k] % Abs(c) = 0
PtOp(i, q, rg) ==
  LET n == Len(rg)  r == B(i, q, 100)
      h == B(i, q + 1, n)  a == B(i, q + 2, n)
      like == { b \in 0 .. (n - 1) : Len(V(rg, b)) = Len(V(rg, a)) }
      b == Pick(Sd(i), q + 3, SetToSeq(like))
      hl == Pick(Sd(i), q + 4, SetToSeq({ x \in 0 .. (n - 1) : Len(V(rg, x)) = Len(V(rg, a)) }))
      to == IF n < 6 /\ B(i, q + 5, 3) = 0 THEN n ELSE h
      d == 1 + B(i, q + 6, 3)
      c == << 2, -1, 3, 0, -2, 1 >>[1 + B(i, q + 7, 6)]
      dv == << 2, -1, 4, -2, 1, 8 >>[1 + B(i, q + 7, 6)]
      mk == LET how == << "n", "xy", "xyz", "copy", "empty", "xyz" >>[1 + B(i, q + 8, 6)] IN
            IF how = "n" THEN [op |-> "mk", how |-> how, n |-> d] ELSE IF how = "copy" /\ n > 0 THEN [op |-> "mk", how |-> how, a |-> a]
            ELSE IF how = "empty" THEN [op |-> "mk", how |-> how, v |-> << >>] ELSE IF how = "xy" THEN [op |-> "mk", how |-> how, v |-> Vals(i, q + 20, 2)] ELSE [op |-> "mk", how |-> "xyz", v |-> Vals(i, q + 20, 3)]
  IN IF n < 2 \/ (n < 6 /\ r < 12) THEN mk
     ELSE IF r < 24 THEN (LET how == << "all", "pt", "arr", "narr", "xy", "xyz", "swap" >>[1 + B(i, q + 8, 7)]  dh == Len(V(rg, h)) IN
        IF how \in { "all", "arr" } /\ dh = 0 THEN [op |-> "set", how |-> "narr", h |-> h, v |-> Vals(i, q + 20, d)]
        ELSE IF how = "swap" THEN IF dh \in { 2, 3 } THEN [op |-> "set", how |-> "swap", h |-> h] ELSE [op |-> "set", how |-> "pt", h |-> h, a |-> a]
        ELSE [op |-> "set", how |-> how, h |-> h, a |-> a, v |-> Vals(i, q + 20, IF how = "xy" THEN 2 ELSE IF how = "xyz" THEN 3 ELSE IF how = "all" THEN 1 ELSE IF how = "arr" THEN dh ELSE d)])
     ELSE IF r < 30 THEN [op |-> "asg", h |-> h, a |-> a]
     ELSE IF r < 35 THEN IF Len(V(rg, h)) > 0 THEN [op |-> "at", h |-> h, i |-> B(i, q + 9, Len(V(rg, h))), v |-> << Val(i, q + 20) >>] ELSE mk
     ELSE IF r < 41 /\ Small(V(rg, hl)) /\ Small(V(rg, a)) THEN [op |-> << "add=", "sub=" >>[1 + B(i, q + 10, 2)], h |-> hl, a |-> a]
     ELSE IF r < 45 /\ Small(V(rg, h)) THEN [op |-> "mul=", h |-> h, c |-> c]
     ELSE IF r < 49 /\ DivBy(V(rg, h), dv) THEN [op |-> "div=", h |-> h, c |-> dv]
     ELSE IF r < 53 /\ Len(V(rg, h)) > 0 /\ Small(V(rg, h)) THEN
        (LET x == V(rg, h)  j == B(i, q + 9, Len(x)) IN
         IF (\A k \in 1 .. Len(x) : Abs(x[k]) < 800) /\ DivBy([k \in 1 .. Len(x) |-> x[k] * x[j + 1]], U) THEN [op |-> "mulby=", h |-> h, i |-> j] ELSE [op |-> "asg", h |-> h, a |-> a])
     ELSE IF r < 70 /\ Len(V(rg, a)) > 0 /\ Small(V(rg, a)) /\ Small(V(rg, b)) THEN [op |-> << "add", "sub", "sub" >>[1 + B(i, q + 10, 3)], h |-> to, a |-> a, b |-> b]
     ELSE IF r < 74 /\ Len(V(rg, a)) > 0 THEN [op |-> "neg", h |-> to, a |-> a]
     ELSE IF r < 80 /\ Len(V(rg, a)) > 0 /\ Small(V(rg, a)) THEN [op |-> << "rmul", "mulr" >>[1 + B(i, q + 10, 2)], h |-> to, a |-> a, c |-> c]
     ELSE IF r < 84 /\ Len(V(rg, a)) > 0 /\ DivBy(V(rg, a), dv) THEN [op |-> "div", h |-> to, a |-> a, c |-> dv]
     ELSE IF Len(V(rg, a)) > 0 /\ Small(V(rg, a)) /\ Small(V(rg, b)) THEN [op |-> "query", a |-> a, b |-> b]
     ELSE [op |-> "set", how |-> "xyz", h |-> h, a |-> a, v |-> Vals(i, q + 20, 3)]
RECURSIVE PtOps(_, _, _, _)
PtOps(i, k, rg, acc) == IF k = 0 THEN acc ELSE LET op == TLCEval(PtOp(i, 50 * k, rg)) IN PtOps(i, k - 1, TLCEval(AfterPt(rg, op)), TLCEval(Append(acc, op)))

(* ---- polygons ---- *)
Gons == << << <<0,0>>, <<6,0>>, <<0,6>> >>, << <<0,0>>, <<7,1>>, <<3,5>> >>, << <<0,0>>, <<6,0>>, <<6,6>>, <<0,6>> >>, << <<0,0>>, <<8,0>>, <<6,3>>, <<1,2>> >>,
           << <<2,0>>, <<6,0>>, <<8,3>>, <<4,6>>, <<0,3>> >>, << <<0,0>>, <<3,-1>>, <<7,0>>, <<8,4>>, <<1,5>> >>, << <<2,0>>, <<5,0>>, <<7,2>>, <<5,4>>, <<2,4>>, <<0,2>> >>,
           << <<2,0>>, <<4,0>>, <<6,2>>, <<6,4>>, <<4,6>>, <<2,6>>, <<0,4>>, <<0,2>> >>, << <<0,0>>, <<4,0>>, <<8,0>>, <<8,4>>, <<4,4>>, <<0,4>> >>,
           << <<0,0>>, <<9,1>>, <<9,2>>, <<0,1>> >>, << <<3,0>>, <<5,1>>, <<6,3>>, <<5,5>>, <<3,6>>, <<1,5>>, <<0,3>> >>,
           << <<0,0>>, <<2,0>>, <<4,1>>, <<5,3>>, <<5,5>>, <<4,7>>, <<2,8>>, <<0,8>>, <<-2,7>>, <<-3,5>>, <<-3,3>>, <<-2,1>> >> >>
(* not convex, some of them not even round their mean point *)
Bent == << << <<0,0>>, <<8,0>>, <<8,8>>, <<4,4>>, <<0,8>> >>, << <<0,0>>, <<8,0>>, <<8,3>>, <<3,3>>, <<3,8>>, <<0,8>> >>, << <<0,0>>, <<4,2>>, <<8,0>>, <<6,4>>, <<8,8>>, <<4,6>>, <<0,8>>, <<2,4>> >>,
           << <<0,0>>, <<10,0>>, <<10,8>>, <<6,8>>, <<6,3>>, <<4,3>>, <<4,8>>, <<0,8>> >>,
           << <<0,0>>, <<12,0>>, <<12,7>>, <<10,7>>, <<10,2>>, <<7,2>>, <<7,6>>, <<5,6>>, <<5,2>>, <<2,2>>, <<2,7>>, <<0,7>> >>,
           \* crossing themselves
           << <<0,0>>, <<8,0>>, <<0,6>>, <<7,7>> >>, << <<0,0>>, <<9,1>>, <<9,5>>, <<-2,3>>, <<3,-2>> >>, << <<0,0>>, <<6,0>>, <<1,1>>, <<0,5>> >> >>
M2(i, q) == << << <<1,0>>, <<0,1>> >>, << <<1,1>>, <<0,1>> >>, << <<2,1>>, <<1,1>> >>, << <<0,-1>>, <<1,0>> >>, << <<-1,0>>, <<1,-1>> >>, << <<3,1>>, <<-1,2>> >>, << <<1,0>>, <<0,-1>> >>, << <<0,1>>, <<1,2>> >> >>[1 + B(i, q, 8)]
Off(i, q, d) == [k \in 1 .. d |-> B(i, q + k, 15) - 7]
Lin2(m, p) == << m[1][1] * p[1] + m[1][2] * p[2], m[2][1] * p[1] + m[2][2] * p[2] >>
Place2(i, q, g) ==     \* counter-clockwise, or clockwise one time in four
  LET m == M2(i, q)  o == Off(i, q + 1, 2)
      p == TLCEval([j \in 1 .. Len(g) |-> VAdd(o, Lin2(m, g[j]))])
      ccw == IF Area2(p) > 0 THEN p ELSE Reversed(p)
      r == RotSeq(ccw, B(i, q + 5, Len(g)))
  IN TLCEval(IF B(i, q + 6, 4) = 0 THEN Reversed(r) ELSE r)
(* points in quarters: mixtures of nodes, near edges, around *)
Ask2(i, q, p) == TLCEval([k \in 1 .. 12 |-> LET a == Pick(Sd(i), q + 7 * k, p)  b == Pick(Sd(i), q + 7 * k + 1, p)  c == Pick(Sd(i), q + 7 * k + 2, p)  r == B(i, q + 7 * k + 3, 3) IN
     IF r = 0 THEN VAdd(VScale(2, a), VAdd(b, c)) ELSE IF r = 1 THEN VAdd(VAdd(VScale(2, a), VScale(2, b)), << B(i, q + 7 * k + 4, 3) - 1, B(i, q + 7 * k + 5, 3) - 1 >>)
     ELSE VAdd(VScale(4, a), << B(i, q + 7 * k + 4, 17) - 8, B(i, q + 7 * k + 5, 17) - 8 >>)])
Basis(i, q) == << << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,2,0>>, <<0,1,1>>, <<0,0,1>> >>, << <<1,-1,2>>, <<2,1,0>>, <<0,1,1>> >>, << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >>, << <<2,0,1>>, <<0,-1,1>>, <<1,1,0>> >>,
                  << <<0,3,-1>>, <<1,0,0>>, <<1,1,1>> >>, << <<-1,1,1>>, <<1,1,-1>>, <<1,-1,1>> >>, << <<1,0,0>>, <<0,-1,0>>, <<0,0,1>> >> >>[1 + B(i, q, 8)]
Lin3(b, p) == VAdd(VScale(p[1], b[1]), VAdd(VScale(p[2], b[2]), VScale(p[3], b[3])))
GonOp(i, q) ==
  LET r == B(i, q, 5) IN
  IF r < 2 THEN LET g == Pick(Sd(i), q + 1, Gons)  p == Place2(i, q + 10, g) IN [op |-> "polygon", pts |-> p, ask |-> Ask2(i, q + 20, p), bent |-> FALSE]
  ELSE IF r = 2 THEN LET p == Place2(i, q + 10, Pick(Sd(i), q + 1, Bent)) IN [op |-> "polygon", pts |-> p, ask |-> Ask2(i, q + 20, p), bent |-> TRUE]
  ELSE LET up == B(i, q + 9, 3)      \* one of three not plane
           g == IF up = 0 THEN Pick(Sd(i), q + 1, << Gons[3], Gons[4], Gons[3], Gons[10], Gons[5] >>) ELSE Pick(Sd(i), q + 1, Gons)  b == Basis(i, q + 2)  o == Off(i, q + 3, 3)
           p == TLCEval([j \in 1 .. Len(g) |-> VAdd(o, Lin3(b, << g[j][1], g[j][2], IF up = 0 THEN B(i, q + 10 + j, 5) - 2 ELSE 0 >>))])
       IN [op |-> "polygon", pts |-> IF B(i, q + 7, 2) = 0 THEN RotSeq(p, B(i, q + 8, Len(p))) ELSE Reversed(p), ask |-> << >>, bent |-> FALSE]

(* ---- solids ---- *)
Up(g, z) == [j \in 1 .. Len(g) |-> << g[j][1], g[j][2], z >>]
Side(n, j) == LET k == (j % n) + 1 IN << j - 1, k - 1, n + k - 1, n + j - 1 >>
Seqn(a, b) == [k \in 1 .. b - a + 1 |-> a + k - 1]
StrictGons == << Gons[1], Gons[2], Gons[3], Gons[4], Gons[5], Gons[6], Gons[7], Gons[8], Gons[10], Gons[12] >>
Prism(g, h) == LET n == Len(g) IN [pts |-> Up(g, 0) \o Up(g, h), faces |-> << Reversed(Seqn(0, n - 1)), Seqn(n, 2 * n - 1) >> \o [j \in 1 .. n |-> Side(n, j)]]
Pyramid(g, ap) == LET n == Len(g) IN [pts |-> Up(g, 0) \o << ap >>, faces |-> << Reversed(Seqn(0, n - 1)) >> \o [j \in 1 .. n |-> << j - 1, j % n, n >>]]
BiPyramid(g, top, bot) == LET n == Len(g) IN [pts |-> Up(g, 0) \o << top, bot >>, faces |-> [j \in 1 .. n |-> << j - 1, j % n, n >>] \o [j \in 1 .. n |-> << j % n, j - 1, n + 1 >>]]
Frustum(g, h) == LET n == Len(g)  g2 == [j \in 1 .. n |-> VScale(2, g[j])] IN [pts |-> Up(g2, 0) \o Up(g, h), faces |-> << Reversed(Seqn(0, n - 1)), Seqn(n, 2 * n - 1) >> \o [j \in 1 .. n |-> Side(n, j)]]
(* a cube with one corner cut off, and with two *)
Cut1 == [pts |-> << <<0,0,0>>, <<6,0,0>>, <<6,6,0>>, <<0,6,0>>, <<0,0,6>>, <<6,0,6>>, <<0,6,6>>, <<6,6,3>>, <<6,3,6>>, <<3,6,6>> >>,
         faces |-> << <<0,3,2,1>>, <<0,1,5,4>>, <<0,4,6,3>>, <<1,2,7,8,5>>, <<2,3,6,9,7>>, <<4,5,8,9,6>>, <<7,9,8>> >>]
Cut2 == [pts |-> << <<2,0,0>>, <<6,0,0>>, <<6,6,0>>, <<0,6,0>>, <<0,0,6>>, <<6,0,6>>, <<0,6,6>>, <<6,6,3>>, <<6,3,6>>, <<3,6,6>>, <<0,2,0>>, <<0,0,2>> >>,
         faces |-> << <<0,10,3,2,1>>, <<0,1,5,4,11>>, <<10,11,4,6,3>>, <<1,2,7,8,5>>, <<2,3,6,9,7>>, <<4,5,8,9,6>>, <<7,9,8>>, <<0,11,10>> >>]
(* bricks and columns with corners out of place: curved faces, dents, cells    *)
(* turned inside out; and columns over an L                                   *)
Jog(s, i, q, far) == [s EXCEPT !.pts = [k \in 1 .. Len(s.pts) |-> IF far = 0 THEN [j \in 1 .. 3 |-> @[k][j] + B(i, q + 3 * k + j, 2)]
                                      ELSE IF k = 1 + B(i, q, Len(s.pts)) THEN VAdd(@[k], << B(i, q + 1, 17) - 8, B(i, q + 2, 17) - 8, B(i, q + 3, 17) - 8 >>) ELSE @[k]]]
OddSolid(i, q) ==
  LET r == B(i, q, 8)  h == 3 + B(i, q + 1, 4)  brick == Prism(Gons[3 + B(i, q + 2, 2)], h)
      ell == << <<0,0>>, <<4,0>>, <<8,0>>, <<8,4>>, <<4,4>>, <<4,8>>, <<0,8>>, <<0,4>> >> IN
  IF r < 4 THEN Jog(Prism(Gons[3], h), i, q + 10, 0) ELSE IF r = 4 THEN Prism(ell, h) ELSE IF r = 5 THEN Jog(Pyramid(Gons[1], << 2, 2, h >>), i, q + 10, 1)
  ELSE Jog(brick, i, q + 10, 1)
RawSolid(i, q) ==
  LET r == B(i, q, 12)  g == Pick(Sd(i), q + 1, StrictGons)  h == 1 + B(i, q + 2, 6)  in1 == LET a == Pick(Sd(i), q + 3, g) b == Pick(Sd(i), q + 4, g) IN << (a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2 >> IN
  CASE r < 2 -> Prism(g, h) [] r < 4 -> Pyramid(g, << B(i, q + 5, 13) - 3, B(i, q + 6, 13) - 3, h >>)
    [] r < 6 -> BiPyramid(Gons[3], << 1 + B(i, q + 5, 5), 1 + B(i, q + 6, 5), h >>, << 1 + B(i, q + 7, 5), 1 + B(i, q + 8, 5), -1 - B(i, q + 9, 4) >>)
    [] r = 6 -> Frustum(g, h) [] r = 7 -> Cut1 [] r = 8 -> Cut2
    [] OTHER -> Pyramid(Gons[1 + B(i, q + 5, 2)], << B(i, q + 6, 9) - 3, B(i, q + 7, 9) - 3, h >>)
SolidOp(i, q) ==
  LET odd == B(i, q + 22, 3) = 0
      raw == TLCEval(IF odd THEN OddSolid(i, q) ELSE RawSolid(i, q))  b == Basis(i, q + 20)  o == Off(i, q + 21, 3)
      n == Len(raw.pts)  p == Perm(Sd(i) + q, n)             \* points in any order
      pts == TLCEval([k \in 1 .. n |-> VAdd(o, Lin3(b, raw.pts[PosOf(p, k - 1)]))])
      fs == [f \in 1 .. Len(raw.faces) |-> [j \in 1 .. Len(raw.faces[f]) |-> p[raw.faces[f][j] + 1]]]
      fp == Perm(Sd(i) + q + 1, Len(fs))
      one == TLCEval([pts |-> pts, faces |-> [k \in 1 .. Len(fs) |-> LET f == fs[fp[k] + 1] IN RotSeq(f, B(i, q + 30 + k, Len(f)))]])
      turned == TLCEval([one EXCEPT !.faces = [k \in 1 .. Len(fs) |-> Reversed(@[k])]])
      right == IF SixVol(one) > 0 THEN one ELSE turned
      s == IF B(i, q + 25, 5) = 0 THEN (IF SixVol(one) > 0 THEN turned ELSE one) ELSE right
      ask == [k \in 1 .. 10 |-> LET a == Pick(Sd(i), q + 50 + 7 * k, pts)  c == Pick(Sd(i), q + 51 + 7 * k, pts)  d == Pick(Sd(i), q + 52 + 7 * k, pts)  e == Pick(Sd(i), q + 53 + 7 * k, pts) IN
                 IF k % 2 = 0 THEN VAdd(VAdd(a, c), VAdd(d, e)) ELSE VAdd(VAdd(VScale(2, a), VScale(2, c)), << B(i, q + 54 + 7 * k, 5) - 2, B(i, q + 55 + 7 * k, 5) - 2, B(i, q + 56 + 7 * k, 5) - 2 >>)]
  IN [op |-> "solid", convex |-> ~ odd, s |-> s, right |-> right, ask |-> TLCEval(ask)]
SegOp(i, q) ==
  LET sph == B(i, q, 2) = 0  d == IF sph THEN 1 ELSE 1 + B(i, q + 1, 3)
      a == IF sph THEN << B(i, q + 2, 8) >> ELSE Off(i, q + 2, d)
      b == IF sph THEN << a[1] + B(i, q + 3, 8) >> ELSE VAdd(a, Off(i, q + 12, d))
  IN [op |-> "segment", sph |-> sph, a |-> a, b |-> b]
Plan(i) ==
  IF i % 3 = 0 THEN [sid |-> i, ops |-> PtOps(i, 25, << >>, << >>)]
  ELSE IF i % 3 = 1 THEN [sid |-> i, ops |-> [k \in 1 .. 6 |-> IF k = 6 THEN SegOp(i, 200 * k) ELSE GonOp(i, 200 * k)]]
  ELSE [sid |-> i, ops |-> [k \in 1 .. 4 |-> SolidOp(i, 300 * k)]]
(* the plans are of the shapes they claim *)
GoodPlan(p) == \A k \in 1 .. Len(p.ops) : LET op == p.ops[k] IN
   /\ op.op = "solid" => ClosedSolid(op.right)
   /\ op.op = "solid" /\ op.convex => FlatFaces(op.right) /\ ConvexSolid(op.right) /\ SixVol(op.right) > 0
                         /\ Abs(SixVol(op.s)) = SixVol(op.right) /\ SolidCentroid(op.s) = SolidCentroid(op.right)
   /\ op.op = "polygon" /\ ~ op.bent /\ Len(op.pts[1]) = 2 =>
        LET p0 == IF Area2(op.pts) > 0 THEN op.pts ELSE Reversed(op.pts) IN Area2(p0) > 0 /\ \A j \in 1 .. Len(p0) : \A x \in ToSet(p0) : Cross2(Edge2(p0, j), VSub(x, p0[j])) >= 0
VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == plan = << >> /\ plan' = Plan(id) /\ Assert(GoodPlan(plan'), << "plan", id >>) /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>) /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
