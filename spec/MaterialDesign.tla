---------------------------- MODULE MaterialDesign ----------------------------
(* The design of materials as they are kept: for each material a list of its  *)
(* owned cells followed by its ghosts, for each cell a list of its materials, *)
(* and a vector with one array per material whose j-th value belongs to the   *)
(* j-th cell of the material. New owned cells come before the old ghosts, so  *)
(* values are inserted in the middle; the materials after a removed one move  *)
(* down. Model checked over every history on a small universe against the     *)
(* relation between materials and cells of State.tla (ref): both lists show   *)
(* the relation, and the value of every (cell, material) pair stays with the  *)
(* pair until it is written.                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS NOwn, NGho, NOth, NMat
U == 0 .. (NOwn + NGho + NOth - 1)
IsOwn(c) == c < NOwn
IsGho(c) == c >= NOwn /\ c < NOwn + NGho
VARIABLES own, gho, cm, arr, ref
vars == << own, gho, cm, arr, ref >>
Zeros(n) == [i \in 1 .. n |-> 0]
All(m) == own[m] \o gho[m]
Owned(l) == SelectSeq(l, IsOwn)
Ghosts(l) == SelectSeq(l, IsGho)
Real(l) == ToSet(Owned(l)) \cup ToSet(Ghosts(l))
Init == own = << >> /\ gho = << >> /\ cm = [c \in U |-> << >>] /\ arr = << >> /\ ref = << >>
AddMat(l) ==
  /\ Len(ref) < NMat
  /\ own' = Append(own, Owned(l)) /\ gho' = Append(gho, Ghosts(l))
  /\ cm' = [c \in U |-> IF c \in Real(l) THEN Append(cm[c], Len(own) + 1) ELSE cm[c]]
  /\ arr' = Append(arr, Zeros(Len(Owned(l)) + Len(Ghosts(l))))
  /\ ref' = Append(ref, [c \in Real(l) |-> 0])
AddCells(m, l) ==
  LET no == Len(own[m])  o == Owned(l)  g == Ghosts(l) IN
  /\ own' = [own EXCEPT ![m] = @ \o o] /\ gho' = [gho EXCEPT ![m] = @ \o g]
  /\ cm' = [c \in U |-> IF c \in Real(l) THEN Append(cm[c], m) ELSE cm[c]]
  /\ arr' = [arr EXCEPT ![m] = SubSeq(@, 1, no) \o Zeros(Len(o)) \o SubSeq(@, no + 1, Len(@)) \o Zeros(Len(g))]
  /\ ref' = [ref EXCEPT ![m] = [c \in DOMAIN ref[m] \cup Real(l) |-> IF c \in DOMAIN ref[m] THEN ref[m][c] ELSE 0]]
RemMat(m) ==
  /\ own' = RemoveAt(own, m) /\ gho' = RemoveAt(gho, m) /\ arr' = RemoveAt(arr, m) /\ ref' = RemoveAt(ref, m)
  /\ cm' = [c \in U |-> LET s == SelectSeq(cm[c], LAMBDA k : k # m) IN [i \in 1 .. Len(s) |-> IF s[i] > m THEN s[i] - 1 ELSE s[i]]]
(* through the position of the cell in its material                           *)
Write(m, c) ==
  /\ arr' = [arr EXCEPT ![m][CHOOSE i \in 1 .. Len(All(m)) : All(m)[i] = c] = 1]
  /\ ref' = [ref EXCEPT ![m][c] = 1] /\ UNCHANGED << own, gho, cm >>
Lists == UNION { { l \in [1 .. k -> U] : Cardinality(ToSet(l)) = k } : k \in 0 .. 3 }
Next == \/ \E l \in Lists : AddMat(l)
        \/ \E m \in 1 .. Len(ref), l \in Lists : ToSet(l) \cap DOMAIN ref[m] = {} /\ AddCells(m, l)
        \/ \E m \in 1 .. Len(ref) : RemMat(m)
        \/ \E m \in 1 .. Len(ref) : \E c \in DOMAIN ref[m] : ref[m][c] = 0 /\ Write(m, c)
Spec == Init /\ [][Next]_vars
NoTwice(s) == Cardinality(ToSet(s)) = Len(s)
InverseLists == /\ \A m \in 1 .. Len(ref) : NoTwice(All(m)) /\ ToSet(All(m)) = DOMAIN ref[m]
           /\ \A c \in U : NoTwice(cm[c]) /\ ToSet(cm[c]) = { m \in 1 .. Len(ref) : c \in DOMAIN ref[m] }
InPlace == Len(arr) = Len(ref) /\ \A m \in 1 .. Len(ref) :
  Len(arr[m]) = Len(All(m)) /\ \A i \in 1 .. Len(arr[m]) : arr[m][i] = ref[m][All(m)[i]]
=============================================================================
