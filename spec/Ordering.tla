------------------------------ MODULE Ordering ------------------------------
(* Block orderings of graphs: permutations, column blocks and their tree. *)
EXTENDS Mapping

\* r.perm, r.peri: direct and inverse permutations; r.rang: first index of
\* every column block, and one past the last one; r.tree: father of every block
\* or -1.  All values based as given by the library; b: base, n: size.
\* The permutation that was not asked for, computed from the other one.
InvOf(b, n, p) == IF \A i \in 1 .. Len(p) : p[i] - b + 1 \in 1 .. n
                  THEN [v \in 1 .. n |-> LET c == {i \in 1 .. Len(p) : p[i] = v + b - 1} IN IF c = {} THEN b - 1 ELSE b - 1 + CHOOSE i \in c : TRUE]
                  ELSE <<>>
Complete(b, n, r) == TLCEval([r EXCEPT !.perm = IF @ = <<>> THEN InvOf(b, n, r.peri) ELSE @, !.peri = IF @ = <<>> THEN InvOf(b, n, r.perm) ELSE @])
PermFault(b, n, r) ==
   CASE Len(r.perm) # n \/ Len(r.peri) # n                                     -> "length of the permutation"
     [] \E v \in 1 .. n : r.perm[v] < b \/ r.perm[v] >= n + b                  -> "permuted index out of range"
     [] Cardinality({r.perm[v] : v \in 1 .. n}) # n                            -> "not a permutation"
     [] \E v \in 1 .. n : r.peri[r.perm[v] - b + 1] # v + b - 1                -> "inverse permutation"
     [] OTHER -> OK

BlockFault(b, n, r) ==
   CASE r.cblk < 0 \/ r.cblk > n \/ (n > 0 /\ r.cblk = 0)                       -> "number of column blocks"
     [] Len(r.rang) # r.cblk + 1 \/ Len(r.tree) # r.cblk                        -> "length of the column block arrays"
     [] r.rang[1] # b \/ r.rang[r.cblk + 1] # n + b                             -> "range of the column blocks"
     [] \E i \in 1 .. r.cblk : r.rang[i] >= r.rang[i + 1]                       -> "column blocks not in increasing order"
     [] \E i \in 1 .. r.cblk : r.tree[i] # -1 /\ (r.tree[i] <= i + b - 1 \/ r.tree[i] > r.cblk + b - 1) -> "father of a column block"
     [] OTHER -> OK

\* Block of every index (1-based indices and blocks)
BlockOf(b, n, r) == FoldLeft(LAMBDA s, i : s \o [x \in 1 .. r.rang[i + 1] - r.rang[i] |-> i], <<>>, [i \in 1 .. r.cblk |-> i])
\* Ancestors (or self) of block i: fathers have larger numbers
RECURSIVE IsAnc(_, _, _, _)
IsAnc(r, b, i, j) == IF i = j THEN TRUE ELSE IF i > j \/ r.tree[i] = -1 THEN FALSE ELSE IsAnc(r, b, r.tree[i] - b + 1, j)

(* Separation: the blocks of the ends of an edge are on a path to a root, so
   that eliminating one branch of the tree never touches another one.  Vertices
   of the set out are not part of the ordered subgraph.
   mode: 0: separators are made of single blocks;  1: separators may be split
   into chains of blocks, in which case the parts that they separate are linked
   to the last block of the chain;  2: nothing known on separators. *)
RECURSIVE Lca(_, _, _, _)
Up(r, b, i) == IF r.tree[i] = -1 THEN 0 ELSE r.tree[i] - b + 1
Lca(r, b, i, j) == IF i = j \/ i = 0 \/ j = 0 THEN (IF i = j THEN i ELSE 0)
                   ELSE IF i < j THEN Lca(r, b, Up(r, b, i), j) ELSE Lca(r, b, i, Up(r, b, j))
EdgeSafe(r, b, i, j, mode) ==
   IF mode = 0 THEN IsAnc(r, b, i, j)
   ELSE LET a == Lca(r, b, i, j) IN a # 0 /\ \A k \in j .. a - 1 : Up(r, b, k) = k + 1
SepFault(g, b, r, out, mode) ==
   LET bl == TLCEval(BlockOf(b, g.n, r))
       q  == TLCEval([v \in 1 .. g.n |-> bl[r.perm[v] - b + 1]])
       of(v)  == {<<Min2(q[v], q[w]), Max2(q[v], q[w])>> : w \in {g.nb[v][k] : k \in 1 .. Len(g.nb[v])} \ out}
       pairs  == UNION {of(v) : v \in (1 .. g.n) \ out}
   IN  IF mode # 2 /\ \E p \in pairs : ~ EdgeSafe(r, b, p[1], p[2], mode)
       THEN "edge between two branches of the separator tree" ELSE OK

\* Orderings of a subset of the vertices (1-based): these come first, the others last
ListFault(g, b, r, lst) ==
   LET S == {lst[i] : i \in 1 .. Len(lst)} IN
   CASE \E v \in 1 .. g.n : (v \in S) # (r.perm[v] - b < Cardinality(S)) -> "listed vertices are not first"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Fill-in of an ordering: number of non-zeros of the triangular factor, by
   symbolic elimination: the structure of a column is that of its neighbours
   of higher index, merged into its first one. *)
Fill(g, b, r) ==
   LET n   == g.n
       adj == TLCEval([i \in 1 .. n |-> LET v == r.peri[i] - b + 1 IN {r.perm[g.nb[v][k]] - b + 1 : k \in 1 .. Len(g.nb[v])}])
       st(a, i) == LET c == {x \in a[1][i] : x > i}
                       p == IF c = {} THEN 0 ELSE CHOOSE x \in c : \A y \in c : x <= y
                   IN  <<IF p = 0 THEN a[1] ELSE [a[1] EXCEPT ![p] = @ \cup c], a[2] + 1 + Cardinality(c)>>
   IN  FoldLeft(st, <<adj, 0>>, [i \in 1 .. n |-> i])[2]
(* On grids, nested dissection orderings of all kinds have a fill-in of O(n log n);
   the factor lim, in tenths, was measured on small grids: it is larger when the
   leaves of the separator tree are not ordered by a minimum degree method. *)
Log2(n) == CHOOSE k \in 0 .. 30 : 2 ^ k <= n /\ n < 2 ^ (k + 1)
FillExcess(g, b, r, lim) == 10 * Fill(g, b, r) > lim * g.n * (Log2(g.n) + 1)
=============================================================================
