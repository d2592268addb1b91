------------------------------ MODULE GraphOps ------------------------------
(* Sequential graph operations: for every operation Op, a fault operator gives *)
(* the name of the first clause of its contract that a result violates ("ok"   *)
(* if none), so that the same text is the guard of the action in the design    *)
(* model (Design.tla) and the acceptance condition of a recorded call.         *)
EXTENDS Graphs

----------------------------------------------------------------------------
(* Consistency checking.                                                      *)

\* What SCOTCH_graphCheck must decide, from the arrays given to graphBuild.
\* "unspecified" is returned for zero edge loads, on which the manual is mute.
RawVerdict(r) ==
   CASE r.n < 0 \/ r.e < 0                                                   -> "bad"
     [] ~RawShapeOk(r)                                                       -> "bad"
     [] OTHER ->
        LET g == TLCEval(AbsGraph(r))
            f == GraphFault([g EXCEPT !.hl = FALSE])
        IN  CASE f = "non-positive edge load" ->
                   IF \E v \in 1 .. g.n : \E k \in 1 .. Len(g.ew[v]) : g.ew[v][k] < 0 THEN "bad" ELSE "unspecified"
              [] f # OK                       -> "bad"
              [] r.e # ArcNbr(g)              -> "bad"
              [] ~SumFits(g.vw)               -> "bad"
              [] ~SumFits2(g.ew)            -> "bad"
              [] OTHER                        -> "good"

GraphCheckFault(r, ret) ==
   LET v == RawVerdict(r) IN
   CASE v = "good" /\ ret # 0 -> "consistent graph refused"
     [] v = "bad"  /\ ret = 0 -> "inconsistent graph accepted"
     [] OTHER -> OK

----------------------------------------------------------------------------
(* A graph object as observed through the accessors must be the abstract one. *)
SameArcLists(g, h) == g.nb = h.nb /\ g.ew = h.ew

ObserveFault(g, r) ==
   CASE ~RawShapeOk(r)               -> "unreadable arrays"
     [] r.b # g.b                    -> "base value"
     [] r.n # g.n                    -> "vertex number"
     [] r.e # ArcNbr(g)              -> "arc number"
     [] OTHER -> LET h == TLCEval(AbsGraph(r)) IN
        CASE h.vw # g.vw             -> "vertex loads"
          [] h.lb # g.lb             -> "vertex labels"
          [] h.nb # g.nb             -> "adjacency"
          [] h.ew # g.ew             -> "edge loads"
          [] OTHER -> OK

\* Same, up to the order of the arcs of a vertex (labels not compared)
EquivFault(g, r) ==
   CASE ~RawShapeOk(r)               -> "unreadable arrays"
     [] r.b # g.b                    -> "base value"
     [] r.n # g.n                    -> "vertex number"
     [] r.e # ArcNbr(g)              -> "arc number"
     [] OTHER -> LET h == TLCEval(AbsGraph(r)) IN
        CASE h.vw # g.vw             -> "vertex loads"
          [] GraphFault([h EXCEPT !.hl = FALSE]) \notin {OK, "non-positive edge load"} -> "ill-formed result"
          [] ArcSet(h) # ArcSet(g)   -> "arcs or arc loads"
          [] OTHER -> OK

----------------------------------------------------------------------------
(* Rebasing. *)
Rebase(g, b) == [g EXCEPT !.b = b, !.lb = IF g.hl THEN g.lb ELSE [i \in 1 .. g.n |-> b + i - 1]]

GraphBaseFault(g, ret) == IF ret # g.b THEN "old base value" ELSE OK

----------------------------------------------------------------------------
(* Induced subgraphs.  s is the sequence of kept vertices (1-based).          *)
Induce(g, s) ==
   LET pos == TLCEval([v \in 1 .. g.n |-> LET P == {i \in 1 .. Len(s) : s[i] = v} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE])
       keep(v) == TLCEval(SelectSeq([k \in 1 .. Deg(g, v) |-> k], LAMBDA k : pos[g.nb[v][k]] # 0))
       nb == TLCEval([i \in 1 .. Len(s) |-> LET q == keep(s[i]) IN TLCEval([j \in 1 .. Len(q) |-> pos[g.nb[s[i]][q[j]]]])])
       ew == TLCEval([i \in 1 .. Len(s) |-> LET q == keep(s[i]) IN TLCEval([j \in 1 .. Len(q) |-> g.ew[s[i]][q[j]]])])
   IN [b |-> g.b, n |-> Len(s), nb |-> nb, ew |-> ew, vw |-> [i \in 1 .. Len(s) |-> g.vw[s[i]]],
       lb |-> [i \in 1 .. Len(s) |-> g.b + i - 1], hv |-> g.hv, he |-> g.he, hl |-> FALSE]

----------------------------------------------------------------------------
(* Matchings and coarsening.  mate[v] is the mate of v (v itself if single).  *)
MateFault(g, mate, nomerge) ==
   CASE Len(mate) # g.n                                             -> "mate array size"
     [] \E v \in 1 .. g.n : mate[v] < 1 \/ mate[v] > g.n            -> "mate out of range"
     [] \E v \in 1 .. g.n : mate[mate[v]] # v                       -> "matching not symmetric"
     [] \E v \in 1 .. g.n : /\ mate[v] # v
                            /\ ~(\E k \in 1 .. Deg(g, v) : g.nb[v][k] = mate[v])
                            /\ (nomerge \/ (Deg(g, v) # 0 /\ Deg(g, mate[v]) # 0)) -> "mates are not neighbours"
     [] OTHER -> OK

MateCount(mate) == Cardinality({v \in 1 .. Len(mate) : mate[v] >= v})

\* fc[v]: coarse vertex of fine vertex v; cn coarse vertices
Quotient(g, fc, cn) ==
   LET fa   == UNION {{<<fc[v], fc[g.nb[v][k]], v, k>> : k \in 1 .. Deg(g, v)} : v \in 1 .. g.n}
       ca   == {a \in fa : a[1] # a[2]}
       prs  == {<<a[1], a[2]>> : a \in ca}
   IN {<<p[1], p[2], MapThenSumSet(LAMBDA a : g.ew[a[3]][a[4]], {a \in ca : a[1] = p[1] /\ a[2] = p[2]})>> : p \in prs}

\* Linear-time equivalent used on larger graphs: checks that the coarse arcs c
\* carry exactly the loads of the fine arcs between different coarse vertices.
CoarseArcs(g, fc, mult) ==
   UNION {
     LET us  == IF mult[c][1] = mult[c][2] THEN <<mult[c][1]>> ELSE <<mult[c][1], mult[c][2]>>
         ft  == UNION {{<<fc[g.nb[us[i]][k]], us[i], k>> : k \in 1 .. Deg(g, us[i])} : i \in 1 .. Len(us)}
         ds  == {t[1] : t \in ft} \ {c}
     IN {<<c, d, MapThenSumSet(LAMBDA t : g.ew[t[2]][t[3]], {t \in ft : t[1] = d})>> : d \in ds}
     : c \in 1 .. Len(mult)}

\* m: flat multinode array as returned (based), r: raw coarse graph, fc: witness
\* fine-to-coarse array (1-based; checked here, supplied only to save a search)
CoarsenFault(g, m, r, fc, nomerge) ==
   LET cn == r.n IN
   CASE cn < 0 \/ 2 * cn > Len(m)                                     -> "coarse vertex number"
     [] r.b # g.b                                                     -> "base value"
     [] ~RawShapeOk(r)                                                -> "unreadable coarse arrays"
     [] \E i \in 1 .. 2 * cn : m[i] < g.b \/ m[i] >= g.b + g.n        -> "multinode out of range"
     [] OTHER ->
   LET mult == TLCEval([c \in 1 .. cn |-> <<m[2 * c - 1] - g.b + 1, m[2 * c] - g.b + 1>>])
       tot  == FoldLeft(LAMBDA a, p : a + (IF p[1] = p[2] THEN 1 ELSE 2), 0, mult)
   IN
   CASE \E v \in 1 .. g.n : fc[v] < 1 \/ fc[v] > cn                   -> "fine vertex in no multinode"
     [] \E v \in 1 .. g.n : v # mult[fc[v]][1] /\ v # mult[fc[v]][2]  -> "fine vertex in no multinode"
     [] tot # g.n                                                     -> "fine vertex in two multinodes"
     [] OTHER ->
   LET mate == TLCEval([v \in 1 .. g.n |-> IF mult[fc[v]][1] = v THEN mult[fc[v]][2] ELSE mult[fc[v]][1]])
       mf   == MateFault(g, mate, nomerge)
       cg   == TLCEval(AbsGraph(r))
   IN
   CASE mf # OK                                                       -> mf
     [] \E c \in 1 .. cn : cg.vw[c] # (IF mult[c][1] = mult[c][2] THEN g.vw[mult[c][1]] ELSE g.vw[mult[c][1]] + g.vw[mult[c][2]]) -> "coarse vertex load"
     [] GraphFault(cg) # OK                                           -> "ill-formed coarse graph"
     [] ArcSet(cg) # CoarseArcs(g, fc, mult)                          -> "coarse arcs or arc loads"
     [] r.e # ArcNbr(cg)                                              -> "coarse arc number"
     [] OTHER -> OK

\* Threshold of the coarsening ratio, in thousandths
CoarMax(n, permil) == (n * permil) \div 1000

\* Return value 0 / 1 against the documented thresholds
CoarRetFault(n, arcs, cn, minnbr, permil, ret) ==
   CASE ret \notin {0, 1}                                   -> "error on a valid graph"
     [] ret = 0 /\ CoarMax(n, permil) < minnbr              -> "minimum coarse vertex number not enforced"
     [] ret = 0 /\ cn > CoarMax(n, permil)                  -> "coarsening ratio not enforced"
     [] ret = 1 /\ permil = 1000 /\ n >= minnbr /\ arcs > 0  -> "graph with edges not coarsened"
     [] OTHER -> OK

----------------------------------------------------------------------------
(* Colouring. *)
ColorFault(g, col, nbr) ==
   CASE nbr < 0 \/ (g.n > 0 /\ nbr < 1)                                       -> "number of colors"
     [] Len(col) # g.n                                                        -> "color array size"
     [] \E v \in 1 .. g.n : col[v] < 0 \/ col[v] >= nbr                       -> "color out of range"
     [] \E v \in 1 .. g.n : \E k \in 1 .. Deg(g, v) : col[v] = col[g.nb[v][k]] -> "neighbours of same color"
     [] {col[v] : v \in 1 .. g.n} # 0 .. (nbr - 1)                            -> "unused color"
     [] OTHER -> OK

----------------------------------------------------------------------------
(* Statistics.  Averages and deltas come scaled by 1000 and rounded.          *)
SeqMin(s) == MinSeq(s, s[1])
SeqMax(s) == MaxSeq(s, s[1])
Near(a, b) == Abs(a - b) <= 1 + (Abs(a) \div 1000)
AvgOf(s)  == Ratio(SumSeq(s), Len(s))
\* mean absolute deviation, times 1000: sum |n*x - sum| * 1000 / n^2
DltOf(s)  == LET t == SumSeq(s) IN Ratio(SumSeq([i \in 1 .. Len(s) |-> Abs(Len(s) * s[i] - t)]), Len(s) * Len(s))

----------------------------------------------------------------------------
(* Pseudo-diameter: all-pairs distances by Bellman-Ford relaxation; a path     *)
(* costs the loads of its edges and of the vertices it leaves (none when the    *)
(* graph has no vertex loads).                                                 *)
Inf == 100000000
RECURSIVE Relax(_, _, _, _)
Relax(g, leave, d, chg) ==                        \* chg: vertices reached at less cost in the previous round
   IF chg = {} THEN d
   ELSE LET near == UNION {{g.nb[v][k] : k \in 1 .. Len(g.nb[v])} : v \in chg}
            cand == TLCEval([v \in near |-> Min({d[g.nb[v][k]] + g.ew[v][k] + leave[g.nb[v][k]] : k \in {x \in 1 .. Len(g.nb[v]) : g.nb[v][x] \in chg}})])
            nchg == {v \in near : cand[v] < d[v]}
        IN  Relax(g, leave, TLCEval([v \in 1 .. g.n |-> IF v \in nchg THEN cand[v] ELSE d[v]]), nchg)
LeaveCost(g) == TLCEval([v \in 1 .. g.n |-> IF g.hv THEN g.vw[v] ELSE 0])
DistFrom(g, leave, s) == Relax(g, leave, TLCEval([v \in 1 .. g.n |-> IF v = s THEN 0 ELSE Inf]), {s})
Ecc(g, leave, s) == LET d == DistFrom(g, leave, s) IN MaxSeq(d, 0)
=============================================================================
