-------------------------------- MODULE Parts --------------------------------
(* Dividing a regular grid into blocks, and a mesh into parts.                *)
EXTENDS Mesh

(* a block is <<start, count>> in each of three directions *)
Vol(b) == b[2][1] * b[2][2] * b[2][3]
Apart(a, b) == \E d \in 1 .. 3 : a[1][d] + a[2][d] <= b[1][d] \/ b[1][d] + b[2][d] <= a[1][d]
Within(b, n) == \A d \in 1 .. 3 : b[1][d] >= 0 /\ b[2][d] >= 1 /\ b[1][d] + b[2][d] <= n[d]
(* non-empty blocks inside the grid, pairwise apart, as many cells as the grid *)
Covers(bs, n) ==
  /\ \A i \in 1 .. Len(bs) : Within(bs[i], n)
  /\ \A i \in 1 .. Len(bs), j \in 1 .. Len(bs) : i < j => Apart(bs[i], bs[j])
  /\ Sum([i \in 1 .. Len(bs) |-> Vol(bs[i])]) = n[1] * n[2] * n[3]
(* the answer for k blocks of a grid *)
BlocksOK(n, k, r) ==
  IF k > n[1] * n[2] * n[3] THEN r.ret = 0
  ELSE r.ret = 1 /\ Len(r.b) = k /\ Covers(r.b, n)

(* parts of a mesh: cells owned by tiles, by centroid cc in thousandths *)
IsBlock(cc, part) ==
  LET d == Len(cc[1])
      lo == [k \in 1 .. d |-> Min({ At(cc, c)[k] : c \in part })]  hi == [k \in 1 .. d |-> Max({ At(cc, c)[k] : c \in part })]
  IN part = { c \in Ids(Len(cc)) : \A k \in 1 .. d : lo[k] - 2 <= At(cc, c)[k] /\ At(cc, c)[k] <= hi[k] + 2 }
TilesOK(s, o) ==
  LET own == { c \in Ids(o.nc) : At(o.tp, c) = OWNED }  t == o.t
      k == s.opt.tiles IN
  << <<"number of parts", Len(t) = k>>,
     <<"disjoint parts that cover the owned cells", Sum([i \in 1 .. Len(t) |-> Len(t[i])]) = Cardinality(own) /\ UNION { ToSet(t[i]) : i \in 1 .. Len(t) } = own>>,
     <<"consecutive ranges", s.opt.part \notin { 0, 3, 4 } \/ \A i \in 1 .. Len(t) : t[i] = << >> \/ \A c \in own : (Min(ToSet(t[i])) <= c /\ c <= Max(ToSet(t[i]))) => c \in ToSet(t[i])>>,
     <<"blocks of a regular grid", ~ s.regular \/ s.opt.part # 1 \/ k > Cardinality(own) \/ \A i \in 1 .. Len(t) : t[i] # << >> /\ IsBlock(o.cc, ToSet(t[i]))>> >>
=============================================================================
