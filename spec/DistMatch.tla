----------------------------- MODULE DistMatch -----------------------------
(* Design model of the distributed matching by which distributed graphs are
   coarsened: the scan of the local vertices of a process (dgraph_match_scan.c),
   the mating requests that it sends, and the two rounds of messages of
   dgraphMatchSyncPtop (dgraph_match_sync_ptop.c).  Messages from different
   processes are handled in any order.

   A mate is 0 for a free vertex, -w for a vertex which asks w for mating, and w
   for a vertex mated with w (itself if it is single); it is what a process knows
   of its vertices and of their remote neighbors.

   Checked: matings are symmetric and between neighbors, every coarse vertex is
   made by exactly one process, what a process knows of remote vertices is true,
   the internal consistency tests of the code never fail, and all processes
   terminate, for all graphs on the given vertices. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Owner,                              (* Owner[v] is the process of vertex v   *)
          Rounds                              (* Number of passes                      *)

Owner3 == <<1, 2, 3>>
Owner4 == <<1, 1, 2, 3>>
Owner22 == <<1, 1, 2, 2>>
N     == Len (Owner)
Verts == 1 .. N
Procs == {Owner[v] : v \in Verts}
Pairs == {e \in SUBSET Verts : Cardinality (e) = 2}

VARIABLES edges, pc, rnd, mate, mult, sent, qry, rpl, got, todo, bad
vars == <<edges, pc, rnd, mate, mult, sent, qry, rpl, got, todo, bad>>

Adj (v)    == {w \in Verts : {v, w} \in edges}
Local (p)  == {v \in Verts : Owner[v] = p}
Known (p)  == Local (p) \cup UNION {Adj (v) : v \in Local (p)}
Ngb (p)    == {Owner[w] : w \in Known (p)} \ {p}
None       == [p \in Procs |-> [q \in Procs |-> <<>>]]

NoReply == <<<<0, 0, 0>>>>                     (* No answer to an empty request        *)

Init ==
  /\ edges \in SUBSET Pairs
  /\ pc    = [p \in Procs |-> "scan"]
  /\ rnd   = [p \in Procs |-> 1]
  /\ mate  = [p \in Procs |-> [v \in Verts |-> 0]]
  /\ mult  = [p \in Procs |-> {}]
  /\ sent  = None                             (* Requests of this round: <<v, w>>      *)
  /\ qry   = None                             (* qry[p][q]: request messages from p to q, in order *)
  /\ rpl   = None
  /\ got   = [p \in Procs |-> {}]             (* Neighbors whose message is processed  *)
  /\ todo  = None                             (* Answers to be sent                    *)
  /\ bad   = {}                               (* Consistency tests which failed        *)

(* The ways in which the free vertices in S, in any order, may be left alone, mated with themselves or with local
   neighbors, or made to ask remote ones. m: mates, c: new coarse vertices, k: queue of the vertices that ask. *)
RECURSIVE Scans (_, _, _, _, _, _)
Scans (p, S, m, c, k, last) ==
  LET R == {v \in S : m[v] = 0} IN
  IF R = {} THEN {[m |-> m, c |-> c, k |-> k]}
  ELSE LET v    == CHOOSE x \in R : TRUE
           open == {w \in Adj (v) : m[w] <= 0}
           free == {w \in Adj (v) : m[w] = 0 /\ (~ last \/ Owner[w] = p)}
       IN UNION {LET T == S \ {u} IN
                 LET op == {w \in Adj (u) : m[w] <= 0}
                     fr == {w \in Adj (u) : m[w] = 0 /\ (~ last \/ Owner[w] = p)}
                 IN IF Adj (u) = {}           (* Isolated vertices are mated with one another *)
                    THEN UNION {Scans (p, T, [m EXCEPT ![u] = w, ![w] = u], c \cup {{u, w}}, k, last) : w \in {x \in R : Adj (x) = {}}}
                    ELSE IF (IF last THEN fr = {} ELSE op = {})
                    THEN Scans (p, T, [m EXCEPT ![u] = u], c \cup {{u}}, k, last)
                    ELSE (IF last THEN {} ELSE Scans (p, T, m, c, k, last)) \cup
                         UNION {IF Owner[w] = p
                                THEN Scans (p, T, [m EXCEPT ![u] = w, ![w] = u], c \cup {{u, w}}, k, last)
                                ELSE Scans (p, T, [m EXCEPT ![u] = - w], c, Append (k, u), last) : w \in fr}
                 : u \in R}

(* Scanning, and sending of the requests to all neighbors, be they empty. *)
Scan (p) ==
  /\ pc[p] = "scan"
  /\ LET m0 == [v \in Verts |-> IF v \in Local (p) /\ mate[p][v] < 0 THEN 0 ELSE mate[p][v]]
     IN \E o \in Scans (p, Local (p), m0, {}, <<>>, FALSE) :
          LET req (q) == LET ks == SelectSeq (o.k, LAMBDA v : Owner[- o.m[v]] = q)
                         IN [i \in 1 .. Len (ks) |-> <<ks[i], - o.m[ks[i]]>>]
          IN /\ mate' = [mate EXCEPT ![p] = o.m]
             /\ mult' = [mult EXCEPT ![p] = @ \cup o.c]
             /\ bad'  = bad \cup {<<"remote not free", v>> : v \in {u \in Local (p) : o.m[u] < 0 /\ o.m[- o.m[u]] # 0}}
             /\ sent' = [sent EXCEPT ![p] = [q \in Procs |-> IF q \in Ngb (p) THEN req (q) ELSE <<>>]]
             /\ qry'  = [qry  EXCEPT ![p] = [q \in Procs |-> IF q \in Ngb (p) THEN Append (@[q], req (q)) ELSE @[q]]]
  /\ pc'   = [pc EXCEPT ![p] = "recv"]
  /\ got'  = [got EXCEPT ![p] = {}]
  /\ todo' = [todo EXCEPT ![p] = [q \in Procs |-> <<>>]]
  /\ UNCHANGED <<edges, rnd, rpl>>

Flag (a, b) == LET f == IF b > a THEN 1 ELSE 0 IN (((b + (b - a) * f) % 2) + f) % 2

(* One request <<u, v>>: remote u asks local v. *)
RECURSIVE Answer (_, _, _, _, _, _)
Answer (p, l, m, c, t, b) ==
  IF l = <<>> THEN [m |-> m, c |-> c, t |-> t, b |-> b]
  ELSE LET u == Head (l)[1]  v == Head (l)[2]  x == m[v] IN
       CASE x = 0   -> Answer (p, Tail (l), [m EXCEPT ![u] = v, ![v] = u], c, Append (t, <<u, v, v>>), b)
         [] x = - u -> Answer (p, Tail (l), [m EXCEPT ![u] = v, ![v] = u], IF Flag (v, u) = 0 THEN c \cup {{u, v}} ELSE c, t, b)
         [] x < 0 /\ x # - u -> Answer (p, Tail (l), m, c, Append (t, <<u, v, 0>>), b)
         [] x > 0   -> Answer (p, Tail (l), m, c, Append (t, <<u, v, x>>), b)

RecvQuery (p, q) ==
  /\ pc[p] = "recv" /\ q \in Ngb (p) \ got[p] /\ qry[q][p] # <<>>
  /\ LET r == Answer (p, Head (qry[q][p]), mate[p], {}, <<>>, {})
     IN /\ mate' = [mate EXCEPT ![p] = r.m]
        /\ mult' = [mult EXCEPT ![p] = @ \cup r.c]
        /\ todo' = [todo EXCEPT ![p][q] = IF Head (qry[q][p]) = <<>> THEN NoReply ELSE r.t]
        /\ bad'  = bad \cup r.b
  /\ qry' = [qry EXCEPT ![q][p] = Tail (@)]
  /\ got' = [got EXCEPT ![p] = @ \cup {q}]
  /\ UNCHANGED <<edges, pc, rnd, sent, rpl>>

(* Answers for vertices which asked someone else are completed if these are mated by now, and dropped otherwise. *)
Final (p, t) ==
  SelectSeq ([i \in 1 .. Len (t) |-> IF t[i][3] = 0 THEN <<t[i][1], t[i][2], mate[p][t[i][2]]>> ELSE t[i]],
             LAMBDA a : a[3] > 0)

Reply (p) ==
  /\ pc[p] = "recv" /\ got[p] = Ngb (p)
  /\ rpl' = [rpl EXCEPT ![p] = [q \in Procs |-> IF q \notin Ngb (p) \/ todo[p][q] = NoReply THEN @[q]
                                                ELSE Append (@[q], Final (p, todo[p][q]))]]
  /\ todo' = [todo EXCEPT ![p] = [q \in Procs |-> <<>>]]
  /\ pc'  = [pc EXCEPT ![p] = "reply"]
  /\ got' = [got EXCEPT ![p] = {}]
  /\ UNCHANGED <<edges, rnd, mate, mult, sent, qry, bad>>

RECURSIVE Learn (_, _, _, _)
Learn (l, m, c, b) ==
  IF l = <<>> THEN [m |-> m, c |-> c, b |-> b]
  ELSE LET v == Head (l)[1]  w == - m[v]  x == Head (l)[3]
           no == w <= 0 \/ (m[w] > 0 /\ m[w] \notin {v, x})
       IN IF no THEN [m |-> m, c |-> c, b |-> b \cup {<<"unexpected answer", v>>}]
          ELSE IF x = w THEN Learn (Tail (l), [m EXCEPT ![v] = w, ![w] = v], c \cup {{v, w}}, b)
          ELSE Learn (Tail (l), [m EXCEPT ![v] = 0, ![w] = x], c, b)

Asked (p) == {q \in Ngb (p) : sent[p][q] # <<>>}

RecvReply (p, q) ==
  /\ pc[p] = "reply" /\ q \in Asked (p) \ got[p] /\ rpl[q][p] # <<>>
  /\ LET r == Learn (Head (rpl[q][p]), mate[p], {}, {})
     IN /\ mate' = [mate EXCEPT ![p] = r.m]
        /\ mult' = [mult EXCEPT ![p] = @ \cup r.c]
        /\ bad'  = bad \cup r.b
  /\ rpl' = [rpl EXCEPT ![q][p] = Tail (@)]
  /\ got' = [got EXCEPT ![p] = @ \cup {q}]
  /\ UNCHANGED <<edges, pc, rnd, sent, qry, todo>>

Next1 (p) ==
  /\ pc[p] = "reply" /\ got[p] = Asked (p)
  /\ IF rnd[p] < Rounds
     THEN /\ rnd' = [rnd EXCEPT ![p] = @ + 1]
          /\ pc'  = [pc EXCEPT ![p] = "scan"]
          /\ UNCHANGED <<mate, mult>>
     ELSE /\ \E o \in Scans (p, Local (p), [v \in Verts |-> IF v \in Local (p) /\ mate[p][v] < 0 THEN 0 ELSE mate[p][v]], {}, <<>>, TRUE) :
               /\ mate' = [mate EXCEPT ![p] = o.m]
               /\ mult' = [mult EXCEPT ![p] = @ \cup o.c]
          /\ pc'  = [pc EXCEPT ![p] = "end"]
          /\ UNCHANGED rnd
  /\ UNCHANGED <<edges, sent, qry, rpl, got, todo, bad>>

Done == (\A p \in Procs : pc[p] = "end") /\ UNCHANGED vars

Next == Done \/ \E p \in Procs : Scan (p) \/ Reply (p) \/ Next1 (p) \/ \E q \in Procs : RecvQuery (p, q) \/ RecvReply (p, q)

Spec == Init /\ [][Next]_vars

(* A vertex and its mate are known by their owners as mated with each other, once no message about them is on its way. *)
M (v) == mate[Owner[v]][v]
End   == \A p \in Procs : pc[p] = "end"

NoBad     == bad = {}
Valid     == \A v \in Verts : M (v) > 0 => M (v) = v \/ M (v) \in Adj (v) \/ (Adj (v) = {} /\ Adj (M (v)) = {})
Symmetric == End => \A v \in Verts : M (v) > 0 /\ M (M (v)) = v
Once      == \A c \in {{v, w} : v, w \in Verts} : Cardinality ({p \in Procs : c \in mult[p]}) <= 1
Made      == End => \A v \in Verts : \E p \in Procs : {v, M (v)} \in mult[p]
Disjoint  == \A p, q \in Procs : \A c \in mult[p], d \in mult[q] : c = d \/ c \cap d = {}
Truth     == End => \A p \in Procs : \A w \in Known (p) : mate[p][w] > 0 => mate[p][w] = M (w)
Clean     == End => \A p, q \in Procs : qry[p][q] = <<>> /\ rpl[p][q] = <<>>
=============================================================================
