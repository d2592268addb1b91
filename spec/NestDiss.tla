------------------------------ MODULE NestDiss ------------------------------
(* Design of the orderings: whatever the separators that the methods find, the
   recursive assembly of column blocks (parts first, separator last; fathers of
   the parts: the last block of the separator; components side by side; chains
   of blocks) yields a permutation, a valid block structure, and a separator
   tree such that no edge links two of its branches.  All graphs of N vertices,
   all lists of vertices to order, all dissections. *)
EXTENDS Ordering, TLC
CONSTANTS N, Base

VARIABLES edges, lst, todo, peri, blocks
vars == <<edges, lst, todo, peri, blocks>>
V == 1 .. N
Pairs == {p \in V \X V : p[1] < p[2]}
Adj(x, y) == <<x, y>> \in edges \/ <<y, x>> \in edges
gr == [n |-> N, b |-> Base, nb |-> [v \in V |-> SetToSortSeq({w \in V : Adj(v, w)}, <)]]

\* A task: set of vertices s to order from index at (from 1) on, father: first index of the father block or 0
Init == /\ edges \in SUBSET Pairs
        /\ lst \in SUBSET V \ {{}}
        /\ peri = [i \in V |-> IF i <= Cardinality(lst) THEN 0 ELSE SetToSortSeq(V \ lst, <)[i - Cardinality(lst)]]
        /\ blocks = IF lst = V THEN {} ELSE {[at |-> Cardinality(lst) + 1, sz |-> N - Cardinality(lst), up |-> 0]}
        /\ todo = {[s |-> lst, at |-> 1, up |-> 0]}

Put(t) == /\ peri' = [i \in V |-> IF i \in t.at .. t.at + Cardinality(t.s) - 1 THEN SetToSortSeq(t.s, <)[i - t.at + 1] ELSE peri[i]]
Leaf(t) == /\ Put(t)
           /\ blocks' = blocks \cup {[at |-> t.at, sz |-> Cardinality(t.s), up |-> t.up]}
           /\ todo' = todo \ {t}
\* A leaf split into a chain of two blocks
Chain(t) == \E k \in 1 .. Cardinality(t.s) - 1 :
           /\ Put(t)
           /\ blocks' = blocks \cup {[at |-> t.at, sz |-> k, up |-> t.at + k], [at |-> t.at + k, sz |-> Cardinality(t.s) - k, up |-> t.up]}
           /\ todo' = todo \ {t}
Dissect(t) == \E a \in SUBSET t.s : \E b \in SUBSET (t.s \ a) :
           LET s == t.s \ (a \cup b)
               na == Cardinality(a)
               nb == Cardinality(b)
               at == t.at + na + nb
           IN  /\ a # {} /\ b # {} /\ \A x \in a : \A y \in b : ~ Adj(x, y)
               /\ IF s = {} THEN /\ todo' = (todo \ {t}) \cup {[s |-> a, at |-> t.at, up |-> t.up], [s |-> b, at |-> t.at + na, up |-> t.up]}
                                 /\ UNCHANGED <<peri, blocks>>
                  ELSE /\ todo' = (todo \ {t}) \cup {[s |-> a, at |-> t.at, up |-> at], [s |-> b, at |-> t.at + na, up |-> at]}
                       /\ Put([t EXCEPT !.s = s, !.at = at])
                       /\ blocks' = blocks \cup {[at |-> at, sz |-> Cardinality(s), up |-> t.up]}
\* One task at a time: tasks are independent, so that their order does not matter
Next == /\ todo # {}
        /\ LET t == CHOOSE x \in todo : \A y \in todo : x.at <= y.at
           IN  Leaf(t) \/ Chain(t) \/ Dissect(t)
        /\ UNCHANGED <<edges, lst>>
Spec == Init /\ [][Next]_vars

Bl == SetToSortSeq(blocks, LAMBDA x, y : x.at < y.at)
R == [peri |-> [i \in V |-> peri[i] + Base - 1],
      perm |-> [v \in V |-> Base - 1 + CHOOSE i \in V : peri[i] = v],
      cblk |-> Len(Bl),
      rang |-> [i \in 1 .. Len(Bl) + 1 |-> IF i <= Len(Bl) THEN Bl[i].at + Base - 1 ELSE N + Base],
      tree |-> [i \in 1 .. Len(Bl) |-> IF Bl[i].up = 0 THEN -1 ELSE Base - 1 + CHOOSE j \in 1 .. Len(Bl) : Bl[j].at = Bl[i].up]]
Correct == todo = {} => LET r == TLCEval(R) IN
           /\ PermFault(Base, N, r) = OK
           /\ BlockFault(Base, N, r) = OK
           /\ ListFault(gr, Base, r, SetToSeq(lst)) = OK
           /\ SepFault(gr, Base, r, V \ lst, 0) = OK
\* Indices are handed out once, and the sizes of the tasks and blocks add up
Conserve == Cardinality({i \in V : peri[i] # 0}) + FoldSet(LAMBDA t, s : s + Cardinality(t.s), 0, todo) = N
=============================================================================
