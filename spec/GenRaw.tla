------------------------------- MODULE GenRaw -------------------------------
(* Enumerates small concrete graphs, consistent or not, for replay into the    *)
(* real library, and checks design-level facts on each of them: the verdict of *)
(* the consistency check is invariant under rebasing and label changes, and a  *)
(* consistent structure survives a save / load cycle in the native format.     *)
EXTENDS GraphIO, Json, IOUtils

CONSTANTS N, D                     \* at most N vertices of degree at most D

Seqs(S, k) == UNION {[1 .. j -> S] : j \in 0 .. k}

\* adjacency in 0-based numbers, one number out of range allowed
Adj(n) == [1 .. n -> Seqs(0 .. n, D)]

VARIABLES r
vars == <<r>>

RawOf(b, n, nb, ew, e) ==
   [b |-> b, n |-> n, e |-> e, ve |-> <<>>, vw |-> <<>>, lb |-> <<>>,
    vt |-> [i \in 1 .. n + 1 |-> b + SumSeq([j \in 1 .. i - 1 |-> Len(nb[j])])],
    et |-> Flat([i \in 1 .. n |-> [k \in 1 .. Len(nb[i]) |-> nb[i][k] + b]]), ew |-> ew]

Arcs(n, nb) == SumSeq([j \in 1 .. n |-> Len(nb[j])])

Init == \E n \in 0 .. N : \E nb \in Adj(n) :
           LET m == Arcs(n, nb) IN
           \/ r = RawOf(0, n, nb, <<>>, m)
           \/ m \in 1 .. 4 /\ \E ew \in [1 .. m -> {1, 2}] : r = RawOf(0, n, nb, ew, m)
Next == UNCHANGED r

\* All simple graphs on at most N vertices
InitG == \E n \in 0 .. N : \E es \in SUBSET {p \in (0 .. n - 1) \X (0 .. n - 1) : p[1] < p[2]} :
            LET nb == [v \in 1 .. n |-> SetToSortSeq({u \in 0 .. n - 1 : <<u, v - 1>> \in es \/ <<v - 1, u>> \in es}, LAMBDA x, y : x < y)]
            IN  r = RawOf(0, n, nb, <<>>, 2 * Cardinality(es))
SpecG == InitG /\ [][Next]_vars
Spec == Init /\ [][Next]_vars

Shift(x, b) == [x EXCEPT !.b = b, !.vt = [i \in DOMAIN x.vt |-> x.vt[i] + b], !.et = [i \in DOMAIN x.et |-> x.et[i] + b]]

VerdictBaseFree == RawVerdict(Shift(r, 1)) = RawVerdict(r)
RoundTrip ==
   RawVerdict(r) = "good" =>
      LET g == AbsGraph(r) IN
      /\ GraphOfFile(FileOf(g), -1, 0) = g
      /\ GraphOfFile(FileOf(g), 1, 0) = Rebase(g, 1)
      /\ GraphOfFile(FileOf(g), 0, 2) = [g EXCEPT !.he = FALSE, !.ew = [v \in 1 .. g.n |-> [k \in 1 .. Deg(g, v) |-> 1]]]
ChacoTrip == RawVerdict(r) = "good" => LET g == Rebase(AbsGraph(r), 1) IN GraphOfChaco(ChacoOf(g)) = g
Emit == PrintT("RAW|" \o ToJson(r) \o "|")
Inv == VerdictBaseFree /\ RoundTrip /\ ChacoTrip
InvEmit == Inv /\ Emit
InvG == RawVerdict(r) = "good" /\ Inv /\ Emit
=============================================================================
