------------------------------ MODULE SetDesign ------------------------------
(* The design of a changing mesh set: owned entities, ghost entities, the     *)
(* list of all and the position of each entity, kept up by moving the last    *)
(* entry into the gap. Model checked over every history on a small universe,  *)
(* lists to be removed with repetitions included: the lists always show the   *)
(* set of the entities added and not removed since (Sets.tla), and the        *)
(* positions are those in the list of all.                                     *)
EXTENDS Sets
CONSTANTS NOwn, NGho, NOth, NList
U == 0 .. (NOwn + NGho + NOth - 1)
ClsU == << << >>, << >>, << >>, [j \in 1 .. NOwn + NGho + NOth |-> IF j <= NOwn THEN OWNED ELSE IF j <= NOwn + NGho THEN GHOST ELSE BGHOST] >>
Is(e, t) == ClsOf(ClsU, CELL, e) = t
VARIABLES own, gho, all, pos, mem
vars == << own, gho, all, pos, mem >>
Init == own = << >> /\ gho = << >> /\ all = << >> /\ pos = [e \in U |-> -1] /\ mem = SetRec("s", CELL, {}, {}, "yes")
Renumber(p, a, from) == [e \in U |-> IF \E i \in from .. Len(a) : a[i] = e THEN (CHOOSE i \in from .. Len(a) : a[i] = e) - 1 ELSE p[e]]
(* added at the end of their part: the ghosts move up, so all positions from   *)
(* the first new owned entity on change                                        *)
Add(l) ==
  LET o == own \o SelectSeq(l, LAMBDA e : Is(e, OWNED))  g == gho \o SelectSeq(l, LAMBDA e : Is(e, GHOST)) IN
  /\ own' = o /\ gho' = g /\ all' = o \o g
  /\ pos' = Renumber(pos, o \o g, Len(own) + 1)
  /\ mem' = Added(ClsU, mem, l)
(* one entity out of a part of which the first n entries count: the last of    *)
(* these fills the gap                                                         *)
RECURSIVE Drop(_, _, _)
Drop(s, n, l) ==
  IF l = << >> THEN SubSeq(s, 1, n)
  ELSE LET at == { i \in 1 .. n : s[i] = Head(l) } IN
       IF at = {} THEN Drop(s, n, Tail(l)) ELSE Drop([s EXCEPT ![Min(at)] = s[n]], n - 1, Tail(l))
Rem(l) ==
  LET o == Drop(own, Len(own), SelectSeq(l, LAMBDA e : Is(e, OWNED)))  g == Drop(gho, Len(gho), l) IN
  /\ own' = o /\ gho' = g /\ all' = o \o g
  /\ pos' = Renumber([e \in U |-> IF e \in ToSet(l) THEN -1 ELSE pos[e]], o \o g, 1)
  /\ mem' = Removed(mem, l)
Lists == UNION { [1 .. k -> U] : k \in 0 .. NList }
Next == \/ \E l \in Lists : NoDup(l) /\ ToSet(l) \cap (mem.own \cup mem.gho) = {} /\ Add(l)
        \/ \E l \in Lists : Rem(l)
Spec == Init /\ [][Next]_vars
Shows == NoDup(all) /\ ToSet(own) = mem.own /\ ToSet(gho) = mem.gho /\ all = own \o gho
Positions == \A e \in U : IF Has(all, e) THEN pos[e] = PosOf(all, e) - 1 ELSE pos[e] = -1
=============================================================================
