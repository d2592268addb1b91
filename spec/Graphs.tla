------------------------------- MODULE Graphs -------------------------------
(* Abstract graphs.  A concrete ("raw") graph is the set of arrays that cross  *)
(* the API: [b, n, e, vt, ve, vw, lb, et, ew] with b the base value, vt/ve the *)
(* start/end index arrays (ve = <<>> when compact), et the part of the edge    *)
(* array that may be indexed, and empty sequences for absent weight arrays.    *)
(* An abstract graph is                                                        *)
(*    [b, n, nb, ew, vw, lb, hv, he, hl]                                       *)
(* with vertices 1..n, nb[v] the neighbour list of v, ew[v] the edge loads in  *)
(* the same order, and presence flags for the three optional arrays.           *)
EXTENDS Util

RawVend(r, i) == IF r.ve = <<>> THEN r.vt[i + 1] ELSE r.ve[i]

\* Can the arrays be read at all ?
RawShapeOk(r) ==
   /\ r.n >= 0
   /\ Len(r.vt) = (IF r.ve = <<>> THEN r.n + 1 ELSE r.n)
   /\ r.ve # <<>> => Len(r.ve) = r.n
   /\ Len(r.vw) \in {0, r.n}
   /\ Len(r.lb) \in {0, r.n}
   /\ Len(r.ew) \in {0, Len(r.et)}
   /\ \A i \in 1 .. r.n : /\ r.vt[i] >= r.b
                          /\ RawVend(r, i) >= r.vt[i]
                          /\ RawVend(r, i) - r.b <= Len(r.et)

AbsGraph(r) ==
   LET nb == TLCEval([i \in 1 .. r.n |-> TLCEval([k \in 1 .. (RawVend(r, i) - r.vt[i]) |-> r.et[r.vt[i] - r.b + k] - r.b + 1])])
       ew == TLCEval([i \in 1 .. r.n |-> TLCEval([k \in 1 .. (RawVend(r, i) - r.vt[i]) |->
                        IF r.ew = <<>> THEN 1 ELSE r.ew[r.vt[i] - r.b + k]])])
   IN [b |-> r.b, n |-> r.n, nb |-> nb, ew |-> ew,
       vw |-> IF r.vw = <<>> THEN [i \in 1 .. r.n |-> 1] ELSE r.vw,
       lb |-> IF r.lb = <<>> THEN [i \in 1 .. r.n |-> r.b + i - 1] ELSE r.lb,
       hv |-> r.vw # <<>>, he |-> r.ew # <<>>, hl |-> r.lb # <<>>]

Deg(g, v)     == Len(g.nb[v])
ArcNbr(g)     == FoldLeft(LAMBDA a, s : a + Len(s), 0, g.nb)
VeloSum(g)    == SumSeq(g.vw)
EdloSum(g)    == FoldLeft(LAMBDA a, s : a + SumSeq(s), 0, g.ew)
DegMax(g)     == FoldLeft(LAMBDA a, s : IF Len(s) > a THEN Len(s) ELSE a, 0, g.nb)

ArcSet(g)     == UNION {{<<v, g.nb[v][k], g.ew[v][k]>> : k \in 1 .. Len(g.nb[v])} : v \in 1 .. g.n}
PairSet(g)    == UNION {{<<v, g.nb[v][k]>> : k \in 1 .. Len(g.nb[v])} : v \in 1 .. g.n}

\* The name of the first well-formedness clause that an abstract graph violates
GraphFault(g) ==
   CASE \E v \in 1 .. g.n : \E k \in 1 .. Len(g.nb[v]) : g.nb[v][k] < 1 \/ g.nb[v][k] > g.n -> "arc end out of range"
     [] \E v \in 1 .. g.n : \E k \in 1 .. Len(g.nb[v]) : g.nb[v][k] = v                      -> "loop arc"
     [] \E v \in 1 .. g.n : Cardinality({g.nb[v][k] : k \in 1 .. Len(g.nb[v])}) # Len(g.nb[v]) -> "duplicate arc"
     [] \E v \in 1 .. g.n : g.vw[v] < 0                                                       -> "negative vertex load"
     [] \E v \in 1 .. g.n : \E k \in 1 .. Len(g.ew[v]) : g.ew[v][k] < 1                       -> "non-positive edge load"
     [] LET as == ArcSet(g) IN as # {<<a[2], a[1], a[3]>> : a \in as}                         -> "asymmetric arcs"
     [] g.hl /\ Cardinality({g.lb[v] : v \in 1 .. g.n}) # g.n                                 -> "duplicate label"
     [] OTHER -> OK

WellFormed(g) == GraphFault(g) = OK

\* Connected components by repeated expansion
RECURSIVE ReachFrom(_, _, _)
ReachFrom(g, seen, front) ==
   IF front = {} THEN seen
   ELSE LET nxt == (UNION {{g.nb[v][k] : k \in 1 .. Len(g.nb[v])} : v \in front}) \ seen
        IN  ReachFrom(g, seen \cup nxt, nxt)
Component(g, v) == ReachFrom(g, {v}, {v})
RECURSIVE CompCount(_, _)
CompCount(g, todo) == IF todo = {} THEN 0
                      ELSE LET v == CHOOSE x \in todo : TRUE IN 1 + CompCount(g, todo \ Component(g, v))
Components(g) == CompCount(g, 1 .. g.n)

\* Same graph, arcs compared as sets
SameGraph(g, h) == g.n = h.n /\ g.vw = h.vw /\ g.lb = h.lb /\ ArcSet(g) = ArcSet(h)
=============================================================================
