------------------------------ MODULE Mapping -------------------------------
(* Mappings of graphs onto target architectures, and partitions with overlap. *)
EXTENDS Archs

\* Processor numbers of an architecture: the only values a mapping may take
Terminals(a) == IF a.k = "deco" THEN {a.lb[i] : i \in 1 .. Len(a.lb)} ELSE 0 .. ASize(a) - 1
\* Weight of every processor
WeightOf(a, t) == IF a.k = "deco" THEN a.w[CHOOSE i \in 1 .. Len(a.lb) : a.lb[i] = t] ELSE AWght(a, t)

LoadOf(g, part, t) == FoldLeft(LAMBDA s, v : IF part[v] = t THEN s + g.vw[v] ELSE s, 0, [v \in 1 .. g.n |-> v])

(* Balance: no processor gets more than its share of the load, enlarged by
   the requested tolerance (bal per thousand), plus a term for the granularity
   of the vertex loads.  The tolerance is only a target of the heuristics: on
   complete graph targets it is widened by a quarter and 20 per thousand; the
   recursive bipartitions of other targets get 100 per thousand. *)
Tolerance(a, bal) == IF a.k = "cmplt" THEN bal + (bal \div 4) + 20 ELSE bal + (bal \div 4) + 100
Unbalanced(g, a, part, bal, ts) ==
   LET W   == SumSeq(g.vw)
       w   == TLCEval([t \in ts |-> WeightOf(a, t)])
       sw  == FoldSet(LAMBDA t, s : s + w[t], 0, ts)
       mx  == MaxSeq(g.vw, 0)
   IN  \E t \in ts : LoadOf(g, part, t) > ((W * w[t]) \div sw) + ((W * w[t] * Tolerance(a, bal)) \div (1000 * sw)) + 3 * mx

MapFault(g, a, part, fix, bal) ==
   LET ts == TLCEval(Terminals(a)) IN
   CASE Len(part) # g.n                                                -> "length of the mapping"
     [] \E v \in 1 .. g.n : part[v] \notin ts                          -> "vertex not mapped onto a processor"
     [] fix # <<>> /\ \E v \in 1 .. g.n : fix[v] >= 0 /\ part[v] # fix[v] -> "fixed vertex moved"
     [] bal >= 0 /\ fix = <<>> /\ Unbalanced(g, a, part, bal, ts)      -> "load imbalance"
     [] OTHER -> OK

Cut(g, part) ==
   FoldLeft(LAMBDA s, v : s + FoldLeft(LAMBDA t, e : IF part[g.nb[v][e]] # part[v] THEN t + g.ew[v][e] ELSE t, 0, [e \in 1 .. Len(g.nb[v]) |-> e]),
            0, [v \in 1 .. g.n |-> v]) \div 2
(* Quality, on r x c grids: cutting into k strips costs (k - 1) times the short
   side; a heuristic result may be worse, by a factor of two plus two edges
   per part. *)
GridFault(g, rc, k, part) ==
   IF Cut(g, part) > 2 * (k - 1) * Min2(rc[1], rc[2]) + 2 * k THEN "cut of a grid far from the best one" ELSE OK

(* Clustering: mapping onto a variable-sized target, whose domains are the
   nodes of an infinite binary tree numbered from root 1 (children 2i, 2i + 1).
   The clusters used are pairwise disjoint domains, and are split until their
   load is about pwgt (unit vertex loads, twice that at worst). *)
RECURSIVE Anc(_, _)
Anc(i, j) == IF j < i THEN FALSE ELSE IF i = j THEN TRUE ELSE Anc(i, j \div 2)   \* i ancestor of j
ClusterFault(g, part, pwgt) ==
   LET ps == TLCEval({part[v] : v \in 1 .. g.n}) IN
   CASE Len(part) # g.n                                 -> "length of the mapping"
     [] \E p \in ps : p < 1                             -> "not a domain of the target"
     [] \E p, q \in ps : p # q /\ Anc(p, q)             -> "clusters are not disjoint domains"
     [] pwgt >= 0 /\ \E p \in ps : LoadOf(g, part, p) > 2 * pwgt + 2 /\ Cardinality({v \in 1 .. g.n : part[v] = p}) > 1 -> "cluster not split"
     [] OTHER -> OK

(* Partition with overlap: vertices are in one of the parts or in the
   separator (-1); no edge links two different parts. *)
OvlFault(g, k, part) ==
   CASE Len(part) # g.n                                                    -> "length of the partition"
     [] \E v \in 1 .. g.n : part[v] < -1 \/ part[v] >= k                   -> "part number out of range"
     [] \E v \in 1 .. g.n : part[v] >= 0 /\ \E e \in 1 .. Len(g.nb[v]) : part[g.nb[v][e]] >= 0 /\ part[g.nb[v][e]] # part[v] -> "edge between two parts"
     [] OTHER -> OK
\* Load of part p, with the separator vertices that are adjacent to it
OvlLoad(g, part, p) ==
   FoldLeft(LAMBDA s, v : IF part[v] = p \/ (part[v] = -1 /\ \E e \in 1 .. Len(g.nb[v]) : part[g.nb[v][e]] = p) THEN s + g.vw[v] ELSE s,
            0, [v \in 1 .. g.n |-> v])
=============================================================================
