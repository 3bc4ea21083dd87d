---------------------------- MODULE BlockDesign -----------------------------
(* The design of the block partitioner as a state machine: halve all blocks    *)
(* while they have even sides and fewer than k/2 exist, then split single     *)
(* blocks until k exist. Model checked on every grid of the given bounds and  *)
(* every k: the blocks always partition the grid, and k of them are reached.  *)
EXTENDS Parts
CONSTANTS NX, NY, NZ
VARIABLES n, k, bs
SplitAt(b, d, m) == << << b[1], [b[2] EXCEPT ![d] = m] >>, << [b[1] EXCEPT ![d] = @ + m], [b[2] EXCEPT ![d] = @ - m] >> >>
Init == \E a \in 1 .. NX, b \in 1 .. NY, c \in 1 .. NZ : n = << a, b, c >> /\ k \in 1 .. a * b * c /\ bs = << << << 0, 0, 0 >>, << a, b, c >> >> >>
Halve(d) ==
  /\ 2 * Len(bs) <= k /\ \A i \in 1 .. Len(bs) : bs[i][2][d] % 2 = 0
  /\ bs' = FoldLeft(LAMBDA acc, b : acc \o SplitAt(b, d, b[2][d] \div 2), << >>, bs)
CanHalve == 2 * Len(bs) <= k /\ \E d \in 1 .. 3 : \A i \in 1 .. Len(bs) : bs[i][2][d] % 2 = 0
Splittable(d) == { i \in 1 .. Len(bs) : bs[i][2][d] > 1 }
(* the first block that can be split in a direction is *)
Split(d) ==
  /\ ~ CanHalve /\ Len(bs) < k /\ Splittable(d) # {}
  /\ LET i == Min(Splittable(d)) IN bs' = SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 1, Len(bs)) \o SplitAt(bs[i], d, bs[i][2][d] \div 2)
Next == UNCHANGED << n, k >> /\ \E d \in 1 .. 3 : Halve(d) \/ Split(d)
Spec == Init /\ [][Next]_<< n, k, bs >> /\ WF_<< n, k, bs >>(Next)
Partition == Covers(bs, n) /\ Len(bs) <= k
NotStuck == Len(bs) = k \/ ENABLED Next
Reached == <>(Len(bs) = k)
=============================================================================
