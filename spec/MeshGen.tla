------------------------------ MODULE MeshGen ------------------------------
(* Conforming meshes of convex cells as records                               *)
(*   dim, sdim   manifold and space dimension                                 *)
(*   X           coordinates of the nodes (integers)                          *)
(*   ct          type of each cell                                            *)
(*   cn cf cd    nodes, faces and face directions of each cell                *)
(*   ce          edges of each cell                                           *)
(*   fn fe fd    nodes, edges and edge directions of each face                *)
(*   en          end nodes of each edge                                       *)
(*   nt et ft tp ownership class of nodes, edges, faces, cells (1 owned,      *)
(*               2 ghost, 3 boundary ghost)                                   *)
(* Identifiers count from zero. Numbering, orientation of faces and edges,    *)
(* starting nodes and ownership are all chosen pseudo-randomly by the seed,   *)
(* since nothing in the properties may depend on them.                        *)
EXTENDS Num

TRI == 1  QUAD == 2  POLYGON == 3  TET == 4  PRISM == 5  PYRAMID == 6  HEX == 7  POLYHED == 8
OWNED == 1  GHOST == 2  BGHOST == 3

(* ---- cells as lists of outward node cycles ---- *)
FaceCycles(dim, c) == IF dim = 3 THEN c.faces
                      ELSE [i \in 1 .. Len(c.nodes) |-> << c.nodes[i], c.nodes[(i % Len(c.nodes)) + 1] >>]
Succ(cyc, x) == cyc[(PosOf(cyc, x) % Len(cyc)) + 1]
Reversed(cyc) == [i \in 1 .. Len(cyc) |-> cyc[Len(cyc) + 1 - i]]
Unique(ss) == FoldLeft(LAMBDA acc, s : IF Has(acc, s) THEN acc ELSE Append(acc, s), << >>, ss)

(* ranks with the lower classes first, random within a class *)
ClassedPerm(seed, cls) ==
  LET n == Len(cls)
      key == TLCEval([i \in 1 .. n |-> cls[i] * 65536 + Rnd(seed, i)])
      ord == SetToSortSeq(1 .. n, LAMBDA a, b : key[a] < key[b] \/ (key[a] = key[b] /\ a < b))
  IN  TLCEval(ord)                       \* ord[new + 1] = old position

(* Ownership of cells: mode 0 all owned, 1 some ghost, 2 some ghost and some  *)
(* boundary ghost, 3 the far end is ghost, 4 every second cell is ghost.      *)
CellClasses(seed, mode, n) ==
  [i \in 1 .. n |->
     IF mode = 0 \/ i = 1 + Below(seed, 900, n) THEN OWNED
     ELSE IF mode = 3 THEN (IF 3 * i > 2 * n + 1 THEN GHOST ELSE OWNED)
     ELSE IF mode = 4 THEN (IF i % 2 = 0 THEN GHOST ELSE OWNED)
     ELSE LET r == Below(seed, 500 + i, 8)
          IN IF mode = 2 /\ r = 0 THEN BGHOST ELSE IF r <= 2 THEN GHOST ELSE OWNED]
SharedClass(seed, i, classes) ==         \* of a node, edge or face, from its cells' classes
  IF OWNED \notin classes THEN GHOST
  ELSE IF GHOST \in classes /\ Below(seed, i, 3) = 0 THEN GHOST ELSE OWNED

Build(dim, sdim, pts, cells, seed, mode) ==
  LET nn0 == Len(pts)  nc == Len(cells)
      cls0 == TLCEval(CellClasses(seed, mode, nc))
      cord == ClassedPerm(seed + 1, cls0)                 \* new cell -> old cell
      ncls0 == TLCEval([n \in 1 .. nn0 |-> SharedClass(seed + 2, n,
                   { cls0[c] : c \in { d \in 1 .. nc : Has(cells[d].nodes, n - 1) } })])
      nord == ClassedPerm(seed + 3, ncls0)
      nnew == TLCEval([n \in 0 .. (nn0 - 1) |-> PosOf(nord, n + 1) - 1])
      Ren(cyc) == [i \in 1 .. Len(cyc) |-> nnew[cyc[i]]]
      C == TLCEval([k \in 1 .. nc |-> LET c == cells[cord[k]]
                                      nd == IF dim = 2 THEN RotSeq(Ren(c.nodes), Below(seed + 4, k, Len(c.nodes))) ELSE Ren(c.nodes)
                                  IN [ct |-> c.ct, nodes |-> nd,
                                      faces |-> FaceCycles(dim, [nodes |-> nd,
                                         faces |-> [i \in 1 .. Len(c.faces) |-> Ren(c.faces[i])]])]])
      ccls == TLCEval([k \in 1 .. nc |-> cls0[cord[k]]])
      cyc0 == TLCEval(FoldLeft(LAMBDA acc, c : acc \o c.faces, << >>, C))
      fsets0 == TLCEval(Unique([i \in 1 .. Len(cyc0) |-> ToSet(cyc0[i])]))
      nf == Len(fsets0)
      fcls0 == TLCEval([f \in 1 .. nf |-> SharedClass(seed + 5, f,
                 { ccls[k] : k \in { j \in 1 .. nc : \E i \in 1 .. Len(C[j].faces) : ToSet(C[j].faces[i]) = fsets0[f] } })])
      ford == ClassedPerm(seed + 6, fcls0)
      fsets == TLCEval([f \in 1 .. nf |-> fsets0[ford[f]]])
      fn == TLCEval([f \in 1 .. nf |->
               LET cy == cyc0[CHOOSE i \in 1 .. Len(cyc0) : ToSet(cyc0[i]) = fsets[f]]
                   r == RotSeq(cy, Below(seed + 7, f, Len(cy)))
               IN  IF Below(seed + 8, f, 2) = 0 THEN r ELSE Reversed(r)])
      FId(cy) == PosOf(fsets, ToSet(cy)) - 1
      DirOf(cy) == IF dim = 2 THEN IF fn[FId(cy) + 1] = cy THEN 1 ELSE -1
                   ELSE IF Succ(fn[FId(cy) + 1], cy[1]) = cy[2] THEN 1 ELSE -1
      corder == TLCEval([k \in 1 .. nc |-> LET n == Len(C[k].faces) IN
                   IF dim = 2 THEN C[k].faces
                   ELSE LET p == Perm(seed + 9 + 13 * k, n) IN [i \in 1 .. n |-> C[k].faces[p[i] + 1]]])
      cf == TLCEval([k \in 1 .. nc |-> [i \in 1 .. Len(corder[k]) |-> FId(corder[k][i])]])
      cd == TLCEval([k \in 1 .. nc |-> [i \in 1 .. Len(corder[k]) |-> DirOf(corder[k][i])]])
      \* edges
      pairs0 == TLCEval(Unique(FoldLeft(LAMBDA acc, cy : acc \o [i \in 1 .. Len(cy) |-> { cy[i], cy[(i % Len(cy)) + 1] }], << >>, fn)))
      fclsN == TLCEval([f \in 1 .. nf |-> fcls0[ford[f]]])
      ecls0 == TLCEval([e \in 1 .. Len(pairs0) |-> SharedClass(seed + 10, e,
                 { ccls[k] : k \in { j \in 1 .. nc : \E i \in 1 .. Len(C[j].faces) :
                      LET cy == C[j].faces[i] IN \E q \in 1 .. Len(cy) : { cy[q], cy[(q % Len(cy)) + 1] } = pairs0[e] } })])
      eord == ClassedPerm(seed + 11, ecls0)
      pairs == TLCEval([e \in 1 .. Len(pairs0) |-> pairs0[eord[e]]])
      en3 == TLCEval([e \in 1 .. Len(pairs0) |->
                LET a == CHOOSE x \in pairs[e] : TRUE  b == CHOOSE x \in pairs[e] : x # a
                IN IF Below(seed + 12, e, 2) = 0 THEN << a, b >> ELSE << b, a >>])
      EId(a, b) == PosOf(pairs, { a, b }) - 1
      fe3 == TLCEval([f \in 1 .. nf |-> [i \in 1 .. Len(fn[f]) |-> EId(fn[f][i], fn[f][(i % Len(fn[f])) + 1])]])
      fd3 == TLCEval([f \in 1 .. nf |-> [i \in 1 .. Len(fn[f]) |-> IF en3[fe3[f][i] + 1][1] = fn[f][i] THEN 1 ELSE -1]])
      ce3 == TLCEval([k \in 1 .. nc |-> Unique(FoldLeft(LAMBDA acc, f : acc \o fe3[f + 1], << >>, cf[k]))])
  IN [ fam |-> "h", dim |-> dim, sdim |-> sdim,
       X |-> [n \in 1 .. nn0 |-> pts[nord[n]]],
       ct |-> [k \in 1 .. nc |-> C[k].ct],
       cn |-> [k \in 1 .. nc |-> C[k].nodes],
       cf |-> cf, cd |-> cd,
       ce |-> IF dim = 2 THEN cf ELSE ce3,
       fn |-> fn,
       fe |-> IF dim = 2 THEN [f \in 1 .. nf |-> << f - 1 >>] ELSE fe3,
       fd |-> IF dim = 2 THEN [f \in 1 .. nf |-> << 1 >>] ELSE fd3,
       en |-> IF dim = 2 THEN fn ELSE en3,
       nt |-> [n \in 1 .. nn0 |-> ncls0[nord[n]]],
       ft |-> fclsN,
       et |-> IF dim = 2 THEN fclsN ELSE [e \in 1 .. Len(pairs0) |-> ecls0[eord[e]]],
       tp |-> ccls ]

(* ---- one dimension: cells in order, faces, edges and nodes coincide ---- *)
Line(xs, mode) ==
  LET nn == Len(xs)  nc == nn - 1
      ng == IF mode = 0 THEN 0 ELSE nc \div 3
      ct(k) == IF k > nc - ng THEN IF mode = 2 /\ k = nc THEN BGHOST ELSE GHOST ELSE OWNED
      nt(n) == IF n > nn - ng THEN GHOST ELSE OWNED
  IN [ fam |-> "h", dim |-> 1, sdim |-> 1,
       X |-> [n \in 1 .. nn |-> << xs[n] >>],
       ct |-> Repeat(HEX, nc),
       cn |-> [k \in 1 .. nc |-> << k - 1, k >>],
       cf |-> [k \in 1 .. nc |-> << k - 1, k >>],
       cd |-> [k \in 1 .. nc |-> << -1, 1 >>],
       ce |-> [k \in 1 .. nc |-> << k - 1, k >>],
       fn |-> [n \in 1 .. nn |-> << n - 1 >>],
       fe |-> [n \in 1 .. nn |-> << n - 1 >>],
       fd |-> [n \in 1 .. nn |-> << 1 >>],
       en |-> [n \in 1 .. nn |-> << n - 1, n - 1 >>],
       nt |-> [n \in 1 .. nn |-> nt(n)], ft |-> [n \in 1 .. nn |-> nt(n)],
       et |-> [n \in 1 .. nn |-> nt(n)], tp |-> [k \in 1 .. nc |-> ct(k)] ]

(* ---- two-dimensional patterns: points and counter-clockwise cells ---- *)
PolyType(n) == IF n = 3 THEN TRI ELSE IF n = 4 THEN QUAD ELSE POLYGON
PCell(nd) == [ct |-> PolyType(Len(nd)), nodes |-> nd, faces |-> << >>]
(* increasing grid lines with spacing 3..5 *)
RECURSIVE Lines(_, _, _)
Lines(seed, n, acc) == IF Len(acc) > n THEN acc
                       ELSE Lines(seed, n, Append(acc, acc[Len(acc)] + 3 + Below(seed, Len(acc), 3)))
GridLines(seed, n) == Lines(seed, n, << Below(seed, 77, 3) >>)
GId(nx, i, j) == j * (nx + 1) + i
(* quads with moved nodes; each split into two triangles along either        *)
(* diagonal, or kept                                                         *)
Quads(nx, ny, seed, move, split) ==
  LET gx == TLCEval(GridLines(seed + 21, nx))  gy == TLCEval(GridLines(seed + 22, ny))
      jog(s, k) == IF move = 1 THEN Below(s, k, 2) ELSE 0
      pts == [k \in 1 .. (nx + 1) * (ny + 1) |->
               << gx[((k - 1) % (nx + 1)) + 1] + jog(seed + 23, k), gy[((k - 1) \div (nx + 1)) + 1] + jog(seed + 24, k) >>]
      cells(k) == LET i == (k - 1) % nx  j == (k - 1) \div nx
                      a == GId(nx, i, j)  b == GId(nx, i + 1, j)  c == GId(nx, i + 1, j + 1)  d == GId(nx, i, j + 1)
                      r == IF split = 0 THEN 0 ELSE IF split = 1 THEN Below(seed + 25, k, 3) ELSE 1 + Below(seed + 25, k, 2)
                  IN  IF r = 0 THEN << PCell(<< a, b, c, d >>) >>
                      ELSE IF r = 1 THEN << PCell(<< a, b, c >>), PCell(<< a, c, d >>) >>
                      ELSE << PCell(<< a, b, d >>), PCell(<< b, c, d >>) >>
  IN  [pts |-> TLCEval(pts), cells |-> TLCEval(FoldLeft(LAMBDA acc, k : acc \o cells(k), << >>, [k \in 1 .. nx * ny |-> k]))]
(* rows of hexagons: every second row is shifted, the joints bulge           *)
Honey(nx, ny, seed) ==
  LET W == 2 * nx + 2                                        \* nodes per row of joints
      pts == [k \in 1 .. W * (ny + 1) |-> LET i == (k - 1) % W  j == (k - 1) \div W
               IN << 3 * i, 5 * j + (IF (i + j) % 2 = 0 THEN 1 ELSE 0) >>]
      nid(i, j) == j * W + i
      cell(i, j) == LET s == 2 * i + (j % 2) IN
          PCell(<< nid(s, j), nid(s + 1, j), nid(s + 2, j), nid(s + 2, j + 1), nid(s + 1, j + 1), nid(s, j + 1) >>)
      cl == [k \in 1 .. nx * ny |-> cell((k - 1) % nx, (k - 1) \div nx)]
      used == TLCEval(SetToSortSeq(UNION { ToSet(cl[k].nodes) : k \in 1 .. nx * ny }, LAMBDA a, b : a < b))
      ren(n) == PosOf(used, n) - 1
  IN [pts |-> TLCEval([i \in 1 .. Len(used) |-> pts[used[i] + 1]]),
      cells |-> TLCEval([k \in 1 .. nx * ny |-> [cl[k] EXCEPT !.nodes = [i \in 1 .. 6 |-> ren(cl[k].nodes[i])]]])]
(* a fan of triangles and quads around one point *)
Fan(seed) ==
  LET ring == << <<12, 6>>, <<10, 10>>, <<6, 12>>, <<2, 10>>, <<0, 6>>, <<2, 2>>, <<6, 0>>, <<10, 2>> >>
      c == << 5 + Below(seed, 1, 3), 5 + Below(seed, 2, 3) >>
      r(i) == (i - 1) % 8
      step(i) == 1 + Below(seed + 26, i, 2)
      RECURSIVE go(_, _)
      go(i, acc) == IF i > 8 THEN acc
                    ELSE LET s == Mn(step(i), 9 - i)
                         IN  go(i + s, Append(acc, PCell(<< 8 >> \o [k \in 1 .. s + 1 |-> r(i + k - 1)])))
  IN [pts |-> Append(ring, c), cells |-> TLCEval(go(1, << >>))]

(* a ring of quads round a cell of twelve nodes, or round slices of it          *)
Gear(seed) ==
  LET gon == << <<-1,-4>>, <<1,-4>>, <<3,-3>>, <<4,-1>>, <<4,1>>, <<3,3>>, <<1,4>>, <<-1,4>>, <<-3,3>>, <<-4,1>>, <<-4,-1>>, <<-3,-3>> >>
      whole == Below(seed, 1, 3) = 0
      big == IF whole THEN 3 ELSE 1 + Below(seed, 2, 3)
      r(i) == (i - 1) % 12
      RECURSIVE go(_, _)
      go(i, acc) == IF i > 12 THEN acc
                    ELSE LET s == Mn(1 + Below(seed + 26, i, big), 13 - i)
                         IN  go(i + s, Append(acc, PCell(<< 24 >> \o [k \in 1 .. s + 1 |-> r(i + k - 1)])))
      inner == IF whole THEN << PCell([k \in 1 .. 12 |-> k - 1]) >> ELSE go(1, << >>)
  IN [pts |-> TLCEval([k \in 1 .. IF whole THEN 24 ELSE 25 |-> IF k <= 12 THEN gon[k] ELSE IF k <= 24 THEN VScale(2, gon[k - 12]) ELSE << Below(seed, 3, 3) - 1, Below(seed, 4, 3) - 1 >>]),
      cells |-> TLCEval(inner \o [k \in 1 .. 12 |-> PCell(<< r(k), 12 + r(k), 12 + r(k + 1), r(k + 1) >>)])]

(* a square with flat triangles on its sides: the node closest to a point in *)
(* the square is often a triangle's                                           *)
Caps(seed) ==
  LET h(i) == 1 + Below(seed + 27, i, 2) IN
  [pts |-> << <<0, 0>>, <<12, 0>>, <<12, 12>>, <<0, 12>>, <<6, -h(1)>>, <<12 + h(2), 6>>, <<6, 12 + h(3)>>, <<-h(4), 6>> >>,
   cells |-> << PCell(<< 0, 1, 2, 3 >>), PCell(<< 0, 4, 1 >>), PCell(<< 1, 5, 2 >>), PCell(<< 2, 6, 3 >>), PCell(<< 3, 7, 0 >>) >>]

(* squares, some cut into four: the others have nodes inside their sides      *)
Used(pts, cells) ==            \* keep the points in use
  LET used == TLCEval(SetToSortSeq(UNION { ToSet(cells[k].nodes) : k \in 1 .. Len(cells) }, LAMBDA a, b : a < b)) IN
  [pts |-> TLCEval([i \in 1 .. Len(used) |-> pts[used[i] + 1]]),
   cells |-> TLCEval([k \in 1 .. Len(cells) |-> [cells[k] EXCEPT !.nodes = [i \in 1 .. Len(@) |-> PosOf(used, @[i]) - 1]]])]
Hang(nx, ny, seed) ==
  LET W == 2 * nx + 1
      st(s, k) == 2 * (2 + Below(s, k, 2))
      gx == TLCEval(FoldLeft(LAMBDA acc, k : acc \o << acc[Len(acc)] + st(seed + 61, k) \div 2, acc[Len(acc)] + st(seed + 61, k) >>, << 0 >>, [k \in 1 .. nx |-> k]))
      gy == TLCEval(FoldLeft(LAMBDA acc, k : acc \o << acc[Len(acc)] + st(seed + 62, k) \div 2, acc[Len(acc)] + st(seed + 62, k) >>, << 1 >>, [k \in 1 .. ny |-> k]))
      sh == Below(seed, 63, 2)
      pts == [k \in 1 .. W * (2 * ny + 1) |-> LET i == (k - 1) % W  j == (k - 1) \div W IN << gx[i + 1] + sh * gy[j + 1], gy[j + 1] >>]
      id(i, j) == j * W + i
      fine(i, j) == i \in 0 .. (nx - 1) /\ j \in 0 .. (ny - 1) /\ (IF nx * ny = 1 THEN FALSE ELSE IF i = 0 /\ j = 0 THEN TRUE ELSE IF i = nx - 1 /\ j = ny - 1 THEN FALSE ELSE Below(seed + 64, j * nx + i, 2) = 0)
      mid(b, n) == IF b THEN << n >> ELSE << >>
      cell(i, j) ==
        IF fine(i, j) THEN [q \in 1 .. 4 |-> LET a == 2 * i + ((q - 1) % 2)  b == 2 * j + ((q - 1) \div 2) IN PCell(<< id(a, b), id(a + 1, b), id(a + 1, b + 1), id(a, b + 1) >>)]
        ELSE LET a == 2 * i  b == 2 * j IN
             << PCell(<< id(a, b) >> \o mid(fine(i, j - 1), id(a + 1, b)) \o << id(a + 2, b) >> \o mid(fine(i + 1, j), id(a + 2, b + 1))
                   \o << id(a + 2, b + 2) >> \o mid(fine(i, j + 1), id(a + 1, b + 2)) \o << id(a, b + 2) >> \o mid(fine(i - 1, j), id(a, b + 1))) >>
  IN Used(pts, FoldLeft(LAMBDA acc, k : acc \o cell((k - 1) % nx, (k - 1) \div nx), << >>, [k \in 1 .. nx * ny |-> k]))
(* squares of an L with a small square in its corner, turned at random: cells *)
(* that are not convex                                                        *)
Ells(nx, ny, seed) ==
  LET W == 2 * nx + 1
      a(s) == 2 + Below(seed, s, 2)
      pts == [k \in 1 .. W * (2 * ny + 1) |-> LET i == (k - 1) % W  j == (k - 1) \div W IN << a(71) * i, a(72) * j - 1 >>]
      \* the border of a block from one of its corners, as steps on the lattice
      ring == << << 0, 0 >>, << 1, 0 >>, << 2, 0 >>, << 2, 1 >>, << 2, 2 >>, << 1, 2 >>, << 0, 2 >>, << 0, 1 >> >>
      at(i, j, r, k) == LET q == ring[((2 * r + k) % 8) + 1] IN (2 * j + q[2]) * W + 2 * i + q[1]
      mid(i, j) == (2 * j + 1) * W + 2 * i + 1
      (* all eight border nodes belong to the blocks, so that neighbours agree *)
      block(i, j) == LET r == Below(seed + 73, j * nx + i, 4) IN
        << PCell(<< at(i, j, r, 0), at(i, j, r, 1), at(i, j, r, 2), at(i, j, r, 3), mid(i, j), at(i, j, r, 5), at(i, j, r, 6), at(i, j, r, 7) >>),
           PCell(<< mid(i, j), at(i, j, r, 3), at(i, j, r, 4), at(i, j, r, 5) >>) >>
  IN Used(pts, FoldLeft(LAMBDA acc, k : acc \o block((k - 1) % nx, (k - 1) \div nx), << >>, [k \in 1 .. nx * ny |-> k]))

HId(nx, ny, i, j, k) == (k * (ny + 1) + j) * (nx + 1) + i
Mesh2(p, seed, mode) == Build(2, 2, p.pts, p.cells, seed, mode)

(* ---- surfaces in space: plane cells, folded along grid lines or tilted     *)
Turn(q, r) == IF r = 0 THEN q ELSE IF r = 1 THEN << q[2], q[3], q[1] >> ELSE << q[3], q[1], q[2] >>
(* fold 0: a tilted plane; fold 1: a pleat along x for unmoved quads; always  *)
(* shifted off the origin                                                     *)
Raised(p, fold, seed) ==
  LET a == Below(seed, 51, 3) - 1  b == Below(seed, 52, 3) - 1  r == Below(seed, 53, 3)
      xs == TLCEval(SetToSortSeq({ q[1] : q \in ToSet(p.pts) }, LAMBDA u, v : u < v))
      h == TLCEval([k \in 1 .. Len(xs) |-> Below(seed + 54, k, 7)])
      o == << Below(seed, 55, 9) - 4, Below(seed, 56, 9) - 4, Below(seed, 57, 9) - 4 >>
      up(q) == VAdd(o, Turn(<< q[1], q[2], IF fold = 1 THEN h[PosOf(xs, q[1])] + b * q[2] ELSE a * q[1] + b * q[2] >>, r))
  IN  [pts |-> TLCEval([k \in 1 .. Len(p.pts) |-> up(p.pts[k])]), cells |-> p.cells]
(* closed surfaces: of a block of bricks, and of a tetrahedron               *)
Shell(nx, ny, nz, ax, ay, seed) ==
  LET gx == TLCEval(GridLines(seed + 31, nx))  gy == TLCEval(GridLines(seed + 32, ny))  gz == TLCEval(GridLines(seed + 33, nz))
      q(a, b, c, d) == PCell(<< a, b, c, d >>)
      all == { << i, j, k >> : i \in 0 .. nx, j \in 0 .. ny, k \in 0 .. nz }
      used == TLCEval(SetToSortSeq({ t \in all : t[1] \in { 0, nx } \/ t[2] \in { 0, ny } \/ t[3] \in { 0, nz } },
                 LAMBDA u, v : HId(nx, ny, u[1], u[2], u[3]) < HId(nx, ny, v[1], v[2], v[3])))
      id(i, j, k) == PosOf(used, << i, j, k >>) - 1
      xy == [k \in 1 .. nx * ny |-> << (k - 1) % nx, (k - 1) \div nx >>]
      yz == [k \in 1 .. ny * nz |-> << (k - 1) % ny, (k - 1) \div ny >>]
      zx == [k \in 1 .. nz * nx |-> << (k - 1) % nz, (k - 1) \div nz >>]
      lo(i, j, k, u, v) == q(id(i, j, k), id(i + v[1], j + v[2], k + v[3]), id(i + u[1] + v[1], j + u[2] + v[2], k + u[3] + v[3]), id(i + u[1], j + u[2], k + u[3]))
      X == << 1, 0, 0 >>  Y == << 0, 1, 0 >>  Z == << 0, 0, 1 >>
      cells == [k \in 1 .. Len(xy) |-> lo(xy[k][1], xy[k][2], 0, X, Y)] \o [k \in 1 .. Len(xy) |-> lo(xy[k][1], xy[k][2], nz, Y, X)]
            \o [k \in 1 .. Len(yz) |-> lo(0, yz[k][1], yz[k][2], Y, Z)] \o [k \in 1 .. Len(yz) |-> lo(nx, yz[k][1], yz[k][2], Z, Y)]
            \o [k \in 1 .. Len(zx) |-> lo(zx[k][2], 0, zx[k][1], Z, X)] \o [k \in 1 .. Len(zx) |-> lo(zx[k][2], ny, zx[k][1], X, Z)]
      sh(t) == LET x == gx[t[1] + 1]  y == gy[t[2] + 1]  z == gz[t[3] + 1] IN << x + ax * y + ay * z, y + ax * z, z >>
  IN  [pts |-> TLCEval([i \in 1 .. Len(used) |-> sh(used[i])]), cells |-> TLCEval(cells)]
TetShell(seed) ==
  [pts |-> << << Below(seed, 1, 3), 0, 1 >>, << 7 + Below(seed, 2, 3), 1, 0 >>, << 2, 6 + Below(seed, 3, 4), 1 >>, << 3, 2, 5 + Below(seed, 4, 5) >> >>,
   cells |-> << PCell(<< 0, 2, 1 >>), PCell(<< 0, 1, 3 >>), PCell(<< 1, 2, 3 >>), PCell(<< 0, 3, 2 >>) >>]
MeshS(p, seed, mode) == Build(2, 3, p.pts, p.cells, seed, mode)

(* ---- three dimensions ---- *)
(* columns over a two-dimensional pattern, sheared by k*a per layer *)
Extrude(p, zs, ax, ay, seed) ==
  LET n2 == Len(p.pts)  nz == Len(zs) - 1
      pts == [k \in 1 .. n2 * (nz + 1) |-> LET q == p.pts[((k - 1) % n2) + 1]  l == (k - 1) \div n2
               IN << q[1] + ax * zs[l + 1], q[2] + ay * zs[l + 1], zs[l + 1] >>]
      col(nd, l) == LET m == Len(nd)  lo == [i \in 1 .. m |-> nd[i] + l * n2]  hi == [i \in 1 .. m |-> nd[i] + (l + 1) * n2]
                    IN [ct |-> IF m = 3 THEN PRISM ELSE IF m = 4 THEN HEX ELSE POLYHED,
                        nodes |-> lo \o hi,
                        faces |-> << Reversed(lo), hi >> \o
                                  [i \in 1 .. m |-> << lo[i], lo[(i % m) + 1], hi[(i % m) + 1], hi[i] >>]]
  IN [pts |-> TLCEval(pts),
      cells |-> TLCEval([k \in 1 .. nz * Len(p.cells) |-> col(p.cells[((k - 1) % Len(p.cells)) + 1].nodes, (k - 1) \div Len(p.cells))])]

HexFaces(v) == << << v[1], v[4], v[3], v[2] >>, << v[5], v[6], v[7], v[8] >>, << v[1], v[2], v[6], v[5] >>,
                  << v[2], v[3], v[7], v[6] >>, << v[3], v[4], v[8], v[7] >>, << v[4], v[1], v[5], v[8] >> >>
HexNodes(nx, ny, i, j, k) ==
  LET h(a, b, c) == HId(nx, ny, i + a, j + b, k + c)
  IN << h(0,0,0), h(1,0,0), h(1,1,0), h(0,1,0), h(0,0,1), h(1,0,1), h(1,1,1), h(0,1,1) >>
Tet(a, b, c, d) == [ct |-> TET, nodes |-> << a, b, c, d >>,
                    faces |-> << << a, c, b >>, << a, b, d >>, << b, c, d >>, << a, d, c >> >>]
(* bricks; kind 0 keep, 1 six tetrahedra each, 2 some bricks become six      *)
(* pyramids around an inner node, 3 nodes moved so that faces are curved      *)
Bricks(nx, ny, nz, kind, ax, ay, seed) ==
  LET gx == TLCEval(GridLines(seed + 31, nx))  gy == TLCEval(GridLines(seed + 32, ny))  gz == TLCEval(GridLines(seed + 33, nz))
      n0 == (nx + 1) * (ny + 1) * (nz + 1)
      base(k) == LET i == (k - 1) % (nx + 1)  j == ((k - 1) \div (nx + 1)) % (ny + 1)  l == (k - 1) \div ((nx + 1) * (ny + 1))
                 IN << gx[i + 1], gy[j + 1], gz[l + 1] >>
      shear(q) == << q[1] + ax * q[2] + ay * q[3], q[2] + ax * q[3], q[3] >>
      jog(k, q) == IF kind = 3 THEN [j \in 1 .. 3 |-> q[j] + Below(seed + 38, 3 * k + j, 2)] ELSE q
      isPyr(k) == kind = 2 /\ (k = 1 \/ Below(seed + 34, k, 2) = 0)
      ijk(k) == << (k - 1) % nx, ((k - 1) \div nx) % ny, (k - 1) \div (nx * ny) >>
      Hx(k) == HexNodes(nx, ny, ijk(k)[1], ijk(k)[2], ijk(k)[3])
      pyrs == SelectSeq([k \in 1 .. nx * ny * nz |-> k], isPyr)
      inner(k) == LET q == ijk(k) IN << gx[q[1] + 1] + 1 + Below(seed + 35, k, 2), gy[q[2] + 1] + 1 + Below(seed + 36, k, 2),
                                        gz[q[3] + 1] + 1 + Below(seed + 37, k, 2) >>
      pts == [k \in 1 .. n0 |-> jog(k, shear(base(k)))] \o [k \in 1 .. Len(pyrs) |-> shear(inner(pyrs[k]))]
      cellsOf(k) ==
        LET v == TLCEval(Hx(k)) IN
        IF kind = 1 THEN
          << Tet(v[1], v[2], v[3], v[7]), Tet(v[1], v[3], v[4], v[7]), Tet(v[1], v[4], v[8], v[7]),
             Tet(v[1], v[8], v[5], v[7]), Tet(v[1], v[5], v[6], v[7]), Tet(v[1], v[6], v[2], v[7]) >>
        ELSE IF isPyr(k) THEN
          LET apex == n0 + PosOf(pyrs, k) - 1  hf == HexFaces(v) IN
          [i \in 1 .. 6 |-> LET b == Reversed(hf[i]) IN    \* base seen from the apex
             [ct |-> PYRAMID, nodes |-> b \o << apex >>,
              faces |-> << hf[i] >> \o [q \in 1 .. 4 |-> << b[q], b[(q % 4) + 1], apex >>]]]
        ELSE << [ct |-> HEX, nodes |-> v, faces |-> HexFaces(v)] >>
  IN [pts |-> TLCEval(pts), cells |-> TLCEval(FoldLeft(LAMBDA acc, k : acc \o cellsOf(k), << >>, [k \in 1 .. nx * ny * nz |-> k]))]

(* cells become pyramids over all their faces round a point inside, where one *)
(* with whole coordinates exists: many faces meet there, and in a pyramid's tip *)
Star(p, seed) ==
  LET at(n) == p.pts[n + 1]
      coords(k, j) == { at(n)[j] : n \in ToSet(p.cells[k].nodes) }
      rng(k, j) == Min(coords(k, j)) .. Max(coords(k, j))
      vec(f) == LET a == at(f[1]) IN FoldLeft(LAMBDA acc, i : VAdd(acc, Cross3(VSub(at(f[i]), a), VSub(at(f[i + 1]), a))), << 0, 0, 0 >>, [i \in 1 .. Len(f) - 2 |-> i + 1])
      inside(k) == LET fs == TLCEval([i \in 1 .. Len(p.cells[k].faces) |-> << at(p.cells[k].faces[i][1]), vec(p.cells[k].faces[i]) >>]) IN
                   { q \in rng(k, 1) \X rng(k, 2) \X rng(k, 3) : \A i \in 1 .. Len(fs) : Dot(fs[i][2], VSub(q, fs[i][1])) < -30 }
      tips == TLCEval([k \in 1 .. Len(p.cells) |-> IF k > 1 /\ Below(seed + 81, k, 2) = 0 THEN << >>
                 ELSE LET s == SetToSeq(inside(k)) IN IF s = << >> THEN << >> ELSE << s[1 + Below(seed + 82, k, Len(s))] >>])
      starred == SelectSeq([k \in 1 .. Len(p.cells) |-> k], LAMBDA k : tips[k] # << >>)
      parts(k) == IF tips[k] = << >> THEN << p.cells[k] >>
                  ELSE LET tip == Len(p.pts) + PosOf(starred, k) - 1  fs == p.cells[k].faces IN
                       [i \in 1 .. Len(fs) |-> LET b == Reversed(fs[i])  n == Len(b) IN
                          [ct |-> IF n = 3 THEN TET ELSE IF n = 4 THEN PYRAMID ELSE POLYHED, nodes |-> b \o << tip >>,
                           faces |-> << fs[i] >> \o [q \in 1 .. n |-> << b[q], b[(q % n) + 1], tip >>]]]
  IN  [pts |-> TLCEval(p.pts \o [j \in 1 .. Len(starred) |-> tips[starred[j]][1]]),
       cells |-> TLCEval(FoldLeft(LAMBDA acc, k : acc \o parts(k), << >>, [k \in 1 .. Len(p.cells) |-> k]))]
Mesh3(p, seed, mode) == Build(3, 3, p.pts, p.cells, seed, mode)

(* ---- a mesh by description ---- *)
Pattern2(d) ==
  CASE d.fam = "quads" -> Quads(d.n[1], d.n[2], d.seed, d.a, d.b)
    [] d.fam = "honey" -> Honey(d.n[1], d.n[2], d.seed)
    [] d.fam = "fan" -> Fan(d.seed)
    [] d.fam = "gear" -> Gear(d.seed)
    [] d.fam = "caps" -> Caps(d.seed)
    [] d.fam = "hang" -> Hang(d.n[1], d.n[2], d.seed)
    [] d.fam = "ells" -> Ells(d.n[1], d.n[2], d.seed)
Flats == { "quads", "honey", "fan", "caps", "hang", "ells", "gear" }      \* and "x" before: columns over it, "w": raised into space
MeshOf(d) ==
  CASE d.fam = "line" -> Line(GridLines(d.seed + 41, d.n[1]), d.mode)
    [] d.fam \in Flats -> Mesh2(Pattern2(d), d.seed, d.mode)
    [] \E q \in Flats : d.fam = "x" \o q ->
         LET q == CHOOSE q \in Flats : d.fam = "x" \o q IN
         Mesh3(Extrude(Pattern2([d EXCEPT !.fam = q]), GridLines(d.seed + 42, d.n[3]), Below(d.seed, 43, 2), Below(d.seed, 44, 2), d.seed), d.seed, d.mode)
    [] \E q \in Flats : d.fam = "w" \o q ->
         LET q == CHOOSE q \in Flats : d.fam = "w" \o q IN
         MeshS(Raised(Pattern2([d EXCEPT !.fam = q]), IF q = "quads" /\ d.a = 0 THEN 1 ELSE 0, d.seed), d.seed, d.mode)
    [] d.fam \in { "shoney", "squads" } ->
         Mesh3(Star(Extrude(Pattern2([d EXCEPT !.fam = IF d.fam = "shoney" THEN "honey" ELSE "quads"]), GridLines(d.seed + 42, d.n[3]), Below(d.seed, 43, 2), Below(d.seed, 44, 2), d.seed), d.seed), d.seed, d.mode)
    [] d.fam = "shell" -> MeshS(Shell(d.n[1], d.n[2], d.n[3], Below(d.seed, 45, 2), Below(d.seed, 46, 2), d.seed), d.seed, d.mode)
    [] d.fam = "tetshell" -> MeshS(TetShell(d.seed), d.seed, d.mode)
    [] d.fam = "bricks" -> Mesh3(Bricks(d.n[1], d.n[2], d.n[3], d.a, Below(d.seed, 45, 2), Below(d.seed, 46, 2), d.seed), d.seed, d.mode)
D(fam, n, a, b, seed, mode) == [fam |-> fam, n |-> n, a |-> a, b |-> b, seed |-> seed, mode |-> mode]
=============================================================================
