------------------------------ MODULE DistGrow ------------------------------
(* Design model of the level-synchronous growing by which distributed graphs are
   explored from seed vertices: bands, growing of parts (dgraph_band_grow.c, for
   SCOTCH_dgraphBand, SCOTCH_dgraphGrow and the bands of the multi-level scheme).

   At every level, a process labels the free neighbors of its current vertices,
   sends to every neighbor process the list of its vertices that were reached,
   be it empty, and handles the lists of its neighbors in any order.  Processes
   are not synchronised otherwise: one may be a level ahead of another.

   Checked, for all graphs on the given vertices and all seeds: the vertices
   reached are those at distance Dist at most, at the level which is their
   distance; each has the color of one of its neighbors of the level before;
   no list is lost, or handled at another level than the one it was made for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Owner, Dist
Own3  == <<1, 2, 3>>
Own22 == <<1, 1, 2, 2>>
Own4  == <<1, 1, 2, 3>>

N     == Len (Owner)
Verts == 1 .. N
Procs == {Owner[v] : v \in Verts}
Pairs == {e \in SUBSET Verts : Cardinality (e) = 2}
Free  == -1

VARIABLES edges, seeds, pc, lev, lab, col, queue, chan, got, bad
vars == <<edges, seeds, pc, lev, lab, col, queue, chan, got, bad>>

Adj (v)   == {w \in Verts : {v, w} \in edges}
Local (p) == {v \in Verts : Owner[v] = p}
Known (p) == Local (p) \cup UNION {Adj (v) : v \in Local (p)}
Ngb (p)   == {Owner[w] : w \in Known (p)} \ {p}

Init ==
  /\ edges \in SUBSET Pairs
  /\ seeds \in SUBSET Verts
  /\ pc    = [p \in Procs |-> "grow"]
  /\ lev   = [p \in Procs |-> 0]              (* Levels which are complete                    *)
  /\ lab   = [p \in Procs |-> [v \in Verts |-> IF v \in seeds /\ Owner[v] = p THEN 0 ELSE Free]] (* Level at which reached, or Free *)
  /\ col   = [v \in Verts |-> IF v \in seeds THEN v ELSE 0] (* Color of a vertex, at its owner  *)
  /\ queue = [p \in Procs |-> seeds \cap Local (p)]
  /\ chan  = [p \in Procs |-> [q \in Procs |-> <<>>]]
  /\ got   = [p \in Procs |-> {}]
  /\ bad   = FALSE

(* Vertices of the queue are taken in any order: a free neighbor is labelled by the first of them which sees it. *)
Grow (p) ==
  /\ pc[p] = "grow" /\ lev[p] < Dist
  /\ LET new == {w \in Verts : lab[p][w] = Free /\ Adj (w) \cap queue[p] # {}}
     IN \E by \in [new -> queue[p]] :
          /\ \A w \in new : by[w] \in Adj (w)
          /\ lab'   = [lab EXCEPT ![p] = [w \in Verts |-> IF w \in new THEN lev[p] + 1 ELSE @[w]]]
          /\ col'   = [w \in Verts |-> IF w \in new /\ Owner[w] = p THEN col[by[w]] ELSE col[w]]
          /\ queue' = [queue EXCEPT ![p] = new \cap Local (p)]
          /\ chan'  = [chan EXCEPT ![p] = [q \in Procs |-> IF q \notin Ngb (p) THEN @[q]
                         ELSE Append (@[q], [lev |-> lev[p] + 1, set |-> {<<w, col[by[w]]>> : w \in {x \in new : Owner[x] = q}}])]]
  /\ pc'  = [pc EXCEPT ![p] = "recv"]
  /\ got' = [got EXCEPT ![p] = {}]
  /\ UNCHANGED <<edges, seeds, lev, bad>>

Recv (p, q) ==
  /\ pc[p] = "recv" /\ q \in Ngb (p) \ got[p] /\ chan[q][p] # <<>>
  /\ LET m == Head (chan[q][p])
         s == {x \in m.set : lab[p][x[1]] = Free}
         n == {x[1] : x \in s}
     IN /\ lab'   = [lab EXCEPT ![p] = [w \in Verts |-> IF w \in n THEN lev[p] + 1 ELSE @[w]]]
        /\ col'   = [w \in Verts |-> IF w \in n THEN (CHOOSE x \in s : x[1] = w)[2] ELSE col[w]]
        /\ queue' = [queue EXCEPT ![p] = @ \cup n]
        /\ bad'   = (bad \/ m.lev # lev[p] + 1 \/ \E x \in m.set : Owner[x[1]] # p)
  /\ chan' = [chan EXCEPT ![q][p] = Tail (@)]
  /\ got'  = [got EXCEPT ![p] = @ \cup {q}]
  /\ UNCHANGED <<edges, seeds, pc, lev>>

Level (p) ==
  /\ pc[p] = "recv" /\ got[p] = Ngb (p)
  /\ pc'  = [pc EXCEPT ![p] = "grow"]
  /\ lev' = [lev EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<edges, seeds, lab, col, queue, chan, got, bad>>

End  == \A p \in Procs : pc[p] = "grow" /\ lev[p] = Dist
Done == End /\ UNCHANGED vars
Next == Done \/ \E p \in Procs : Grow (p) \/ Level (p) \/ \E q \in Procs : Recv (p, q)
Spec == Init /\ [][Next]_vars

RECURSIVE Ball (_, _)
Ball (S, d) == IF d = 0 THEN S ELSE LET B == Ball (S, d - 1) IN B \cup UNION {Adj (v) : v \in B}
True (v) == IF \E d \in 0 .. Dist : v \in Ball (seeds, d) THEN CHOOSE d \in 0 .. Dist : v \in Ball (seeds, d) /\ (d = 0 \/ v \notin Ball (seeds, d - 1)) ELSE Free
L (v)    == lab[Owner[v]][v]

NoBad  == ~ bad
Sound  == \A v \in Verts : L (v) # Free => L (v) = True (v)
Exact  == End => \A v \in Verts : L (v) = True (v)
Colors == \A v \in Verts : L (v) > 0 => \E w \in Adj (v) : L (w) = L (v) - 1 /\ col[w] = col[v]
Ghosts == \A p \in Procs : \A w \in Known (p) \ Local (p) : lab[p][w] # Free => lab[p][w] >= True (w) /\ True (w) # Free
Near   == \A p \in Procs : \A q \in Ngb (p) : lev[p] - lev[q] \in -1 .. 1
Clean  == End => \A p, q \in Procs : chan[p][q] = <<>>
=============================================================================
