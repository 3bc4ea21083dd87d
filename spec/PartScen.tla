------------------------------ MODULE PartScen -------------------------------
(* Plans for the partitioners: every small grid with every number of blocks,   *)
(* some large grids, and meshes divided into tiles.                           *)
EXTENDS Parts, Json, IOUtils
Seed0 == atoi(IOEnv.VERIF_SEED)
N == atoi(IOEnv.COUNT)
Out == IOEnv.SCEN
Thorough == IOEnv.TIER = "thorough"
Sd(i) == 173 * Seed0 + 929 * i + 5
B(i, k, n) == Below(Sd(i), 2000 + k, n)
W2 == IF Thorough THEN 12 ELSE 9
W3 == IF Thorough THEN 5 ELSE 4
Grids == [a \in 1 .. 48 |-> << a, 1, 1, 1 >>] \o [a \in 1 .. W2 * W2 |-> << 1 + ((a - 1) % W2), 1 + ((a - 1) \div W2), 1, 2 >>]
         \o [a \in 1 .. W3 * W3 * W3 |-> << 1 + ((a - 1) % W3), 1 + (((a - 1) \div W3) % W3), 1 + ((a - 1) \div (W3 * W3)), 3 >>]
Blocks(d, from, to) == [op |-> "blocks", dim |-> d[4], n |-> << d[1], d[2], d[3] >>, from |-> from, to |-> to]
Large(i) ==
  LET d == 1 + B(i, 1, 3)  w == << 900, 40, 14 >>[d]
      n == << 1 + B(i, 2, w), IF d > 1 THEN 1 + B(i, 3, w) ELSE 1, IF d > 2 THEN 1 + B(i, 4, w) ELSE 1, d >>
      tot == n[1] * n[2] * n[3]
      k == IF B(i, 5, 5) = 0 THEN tot - B(i, 6, 3) ELSE 1 + B(i, 6, Mn(tot, 60))
  IN Blocks(n, Mx(1, Mn(k, 90)), Mx(1, Mn(k, 90)) + 1)
O(i, tiles, part) == [faces |-> TRUE, edges |-> FALSE, sides |-> FALSE, wedges |-> FALSE, corners |-> FALSE, tiles |-> tiles, halo |-> B(i, 9, 2), part |-> part, geom |-> "CART"]
Box(i) ==
  LET n == << 1 + B(i, 11, 5), 1 + B(i, 12, 4), 1 + B(i, 13, 3) >>  lo == << B(i, 14, 9) - 4, B(i, 15, 9) - 4, B(i, 16, 9) - 4 >>
  IN [fam |-> "s3", lo |-> lo, hi |-> [k \in 1 .. 3 |-> lo[k] + n[k] * (1 + B(i, 16 + k, 3))], n |-> n]
Row(i) == [fam |-> "s1", x |-> [k \in 1 .. 2 + B(i, 29, 12) |-> 3 * k - 4]]
(* a grid with permuted numbering *)
Even(nx, ny, dx, dy) ==
  [pts |-> [k \in 1 .. (nx + 1) * (ny + 1) |-> << dx * ((k - 1) % (nx + 1)) - 2, dy * ((k - 1) \div (nx + 1)) + 1 >>],
   cells |-> [k \in 1 .. nx * ny |-> LET i == (k - 1) % nx  j == (k - 1) \div nx IN PCell(<< GId(nx, i, j), GId(nx, i + 1, j), GId(nx, i + 1, j + 1), GId(nx, i, j + 1) >>)]]
Grid2(i) == Mesh2(Even(1 + B(i, 21, 5), 1 + B(i, 22, 5), 1 + B(i, 23, 3), 1 + B(i, 24, 3)), Sd(i), 0)
Grid3(i) == LET n == << 1 + B(i, 21, 4), 1 + B(i, 22, 3), 1 + B(i, 23, 3) >> IN
            Mesh3(Extrude(Even(n[1], n[2], 2, 1), [k \in 1 .. n[3] + 1 |-> 3 * k], 0, 0, Sd(i)), Sd(i), 0)
Other(i) == MeshOf(LET k == B(i, 2, 5) IN IF k = 0 THEN D("fan", << 0 >>, 0, 0, Sd(i), 1) ELSE IF k = 1 THEN D("honey", << 1 + B(i, 3, 3), 1 + B(i, 4, 3) >>, 0, 0, Sd(i), 1)
                     ELSE IF k = 2 THEN D("bricks", << 1 + B(i, 3, 2), 1 + B(i, 4, 2), 1 >>, B(i, 5, 3), 0, Sd(i), 1) ELSE D("quads", << 1 + B(i, 3, 5), 1 + B(i, 4, 4) >>, B(i, 5, 2), B(i, 6, 3), Sd(i), 1))
(* rows whose cells differ in width but fill the blocks on the whole: some     *)
(* centres lie on the edge of a block                                          *)
RECURSIVE UnevenX(_, _, _, _)
UnevenX(i, q, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET w == << << 2, 2 >>, << 1, 3 >>, << 3, 1 >>, << 1, 2, 3 >>, << 3, 2, 1 >>, << 2 >>, << 2, 1, 2, 3 >> >>[1 + B(i, q + k, 7)]
       IN  UnevenX(i, q, k - 1, acc \o [j \in 1 .. Len(w) |-> acc[Len(acc)] + FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(w, 1, j))])
Uneven(i) ==
  LET xs == TLCEval(UnevenX(i, 600, 1 + B(i, 31, 3), << -3 >>))  ys == TLCEval(UnevenX(i, 700, 1 + B(i, 32, 2), << 1 >>))  nx == Len(xs) - 1  ny == Len(ys) - 1
  IN  IF B(i, 33, 2) = 0 THEN [fam |-> "s1", x |-> xs]
      ELSE Mesh2([pts |-> [k \in 1 .. (nx + 1) * (ny + 1) |-> << xs[1 + ((k - 1) % (nx + 1))], ys[1 + ((k - 1) \div (nx + 1))] >>],
                  cells |-> [k \in 1 .. nx * ny |-> LET a == (k - 1) % nx  b == (k - 1) \div nx IN PCell(<< GId(nx, a, b), GId(nx, a + 1, b), GId(nx, a + 1, b + 1), GId(nx, a, b + 1) >>)]], Sd(i), 0)
Tiles(i) ==
  LET r == B(i, 7, 7)
      m == IF r = 0 THEN Box(i) ELSE IF r = 1 THEN Row(i) ELSE IF r < 4 THEN Grid2(i) ELSE IF r = 4 THEN Grid3(i) ELSE IF r = 5 THEN Uneven(i) ELSE Other(i)
      nc == IF r = 0 THEN m.n[1] * m.n[2] * m.n[3] ELSE IF m.fam = "s1" THEN Len(m.x) - 1 ELSE Len(m.cn)
      t == IF B(i, 8, 6) = 0 THEN nc ELSE 1 + B(i, 10, Mn(nc, 9))
  IN [sid |-> i, mesh |-> m, regular |-> r < 5, opt |-> O(i, t, IF B(i, 6, 2) = 0 THEN 1 ELSE B(i, 17, 5)), ops |-> << [op |-> "tiles"] >>]
Plan(i) ==
  IF i <= Len(Grids) THEN [sid |-> i, ops |-> << Blocks(Grids[i], 1, Mn(Grids[i][1] * Grids[i][2] * Grids[i][3], 70) + 1) >>]
  ELSE IF i % 2 = 0 THEN [sid |-> i, ops |-> [k \in 1 .. 5 |-> Large(7 * i + k)]]
  ELSE Tiles(i)

VARIABLES id, plan
Init == id \in 1 .. N /\ plan = << >>
Next == plan = << >> /\ plan' = Plan(id) /\ ndJsonSerialize(Out \o "." \o ToString(id), << plan' >>) /\ UNCHANGED id
Spec == Init /\ [][Next]_<< id, plan >>
=============================================================================
