------------------------------ MODULE TileDesign ------------------------------
(* The design of making tiles: a tile goes through its own cells in order and *)
(* takes every entity no tile has taken before; entities of its cells taken   *)
(* by others, and those of its halo it did not take, are its ghosts. Entities *)
(* are the nodes of a grid of NX by NY cells; a tile may be made without      *)
(* listing them. Model checked over every sequence of disjoint lists of       *)
(* cells: whatever the order, every node of a cell of a listing tile has one  *)
(* owner, the first such tile, it is the master tile the mesh tells, and a    *)
(* tile's nodes are exactly those of its cells.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
CONSTANTS NX, NY, NTile, NHalo
Cells == 0 .. (NX * NY - 1)
Nodes == 0 .. ((NX + 1) * (NY + 1) - 1)
CNodes == TLCEval([c \in Cells |-> LET i == c % NX  j == c \div NX  n == j * (NX + 1) + i IN << n, n + 1, n + NX + 2, n + NX + 1 >>])
NodesOf(S) == UNION { ToSet(CNodes[c]) : c \in S }
Around(S) == { c \in Cells : ToSet(CNodes[c]) \cap NodesOf(S) # {} }
RECURSIVE Layers(_, _)
Layers(S, k) == IF k = 0 THEN S ELSE Layers(Around(S), k - 1)
VARIABLES tiles, master, cmaster
vars == << tiles, master, cmaster >>
Init == tiles = << >> /\ master = [n \in Nodes |-> -1] /\ cmaster = [c \in Cells |-> -1]
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* one pass over the cells of a list                                          *)
Walk(l, id, own0, gho0, mas0, take) ==
  LET step(acc, n) == IF acc.m[n] = -1 /\ take THEN [o |-> Append(acc.o, n), g |-> acc.g, m |-> [acc.m EXCEPT ![n] = id]]
                      ELSE IF acc.m[n] # id /\ n \notin ToSet(acc.g) THEN [acc EXCEPT !.g = Append(@, n)] ELSE acc
  IN FoldLeft(step, [o |-> own0, g |-> gho0, m |-> mas0], FlattenSeq([i \in 1 .. Len(l) |-> CNodes[l[i]]]))
Make(own, halo, lists) ==
  LET id == Len(tiles)
      ghosts == Ordered(Layers(ToSet(own), halo) \ ToSet(own))
      one == Walk(own, id, << >>, << >>, master, TRUE)
      two == Walk(ghosts, id, one.o, one.g, one.m, FALSE)
  IN /\ tiles' = Append(tiles, [own |-> own, gho |-> ghosts, lists |-> lists, nown |-> IF lists THEN two.o ELSE << >>, ngho |-> IF lists THEN two.g ELSE << >>])
     /\ master' = IF lists THEN two.m ELSE master
     /\ cmaster' = [c \in Cells |-> IF c \in ToSet(own) THEN id ELSE cmaster[c]]
Next == /\ Len(tiles) < NTile
        /\ \E S \in SUBSET { c \in Cells : cmaster[c] = -1 }, h \in 0 .. NHalo, lists \in BOOLEAN :
             /\ S # {}
             /\ \E l \in { Ordered(S), Reverse(Ordered(S)) } : Make(l, h, lists)
Spec == Init /\ [][Next]_vars
NoTwice(s) == Cardinality(ToSet(s)) = Len(s)
Own(t) == ToSet(tiles[t].own)
T == 1 .. Len(tiles)
ListsNodes(t) == tiles[t].lists
OneMaster == \A n \in Nodes :
  LET firsts == { t \in T : ListsNodes(t) /\ n \in NodesOf(Own(t)) } IN
  /\ master[n] = (IF firsts = {} THEN -1 ELSE Min(firsts) - 1)
  /\ Cardinality({ t \in T : n \in ToSet(tiles[t].nown) }) = (IF firsts = {} THEN 0 ELSE 1)
  /\ \A t \in T : n \in ToSet(tiles[t].nown) => master[n] = t - 1
AllOfMine == \A t \in T : ListsNodes(t) =>
  /\ NoTwice(tiles[t].nown \o tiles[t].ngho)
  /\ ToSet(tiles[t].nown) \cup ToSet(tiles[t].ngho) = NodesOf(Own(t) \cup ToSet(tiles[t].gho))
  /\ ToSet(tiles[t].nown) \subseteq NodesOf(Own(t))
CellsOnce == /\ \A s, t \in T : s # t => Own(s) \cap Own(t) = {}
             /\ \A t \in T : \A c \in Own(t) : cmaster[c] = t - 1
             /\ \A t \in T : ToSet(tiles[t].gho) \cap Own(t) = {}
=============================================================================
