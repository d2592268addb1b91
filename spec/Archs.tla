-------------------------------- MODULE Archs --------------------------------
(* Target architectures.  An abstract architecture is a record                *)
(*   cmplt [n]  cmpltw [w]  hcub [d]  mesh/torus [dim]  tleaf/ltleaf [sz, lk,  *)
(*   pm]  sub [org, lst]  deco [lb, w, dm]                                     *)
(* with field k its kind; dm is a full distance matrix in the order of lb.     *)
(* Terminals are numbered from 0 to ASize - 1.                                 *)
EXTENDS Util

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Pow2(d) == 2 ^ d

RECURSIVE ASize(_)
ASize(a) == CASE a.k = "cmplt"  -> a.n
              [] a.k = "cmpltw" -> Len(a.w)
              [] a.k = "hcub"   -> Pow2(a.d)
              [] a.k \in {"mesh", "torus"} -> Prod(a.dim)
              [] a.k \in {"tleaf", "ltleaf"} -> Prod(a.sz)
              [] a.k = "sub"    -> Len(a.lst)
              [] a.k = "deco"   -> Len(a.lb)

RECURSIVE AWght(_, _)
AWght(a, t) == CASE a.k = "cmpltw" -> a.w[t + 1]
                 [] a.k = "sub"    -> AWght(a.org, a.lst[t + 1])
                 [] a.k = "deco"   -> a.w[CHOOSE i \in 1 .. Len(a.lb) : a.lb[i] = t]
                 [] OTHER -> 1

\* Terminal numbers, in the order of their domains
ANum(a) == IF a.k = "deco" THEN a.lb ELSE [i \in 1 .. ASize(a) |-> i - 1]
DistKnown(a) == a.k # "deco" \/ a.dm # <<>>

\* Coordinates: the first dimension varies fastest
Coord(dim, t) == FoldLeft(LAMBDA acc, d : [c |-> Append(acc.c, acc.t % d), t |-> acc.t \div d], [c |-> <<>>, t |-> t], dim).c

RECURSIVE Hamming(_, _)
Hamming(i, j) == IF i = j THEN 0 ELSE (IF i % 2 # j % 2 THEN 1 ELSE 0) + Hamming(i \div 2, j \div 2)

\* Leaves of a tree: sum of the link costs from the leaves up to the level of
\* the lowest common ancestor
RECURSIVE LeafDist(_, _, _, _, _)
LeafDist(sz, lk, l, i, j) == IF i = j THEN 0
                             ELSE lk[l] + LeafDist(sz, lk, l - 1, i \div sz[l], j \div sz[l])
\* ltleaf: terminal pm[x] of a block of Len(pm) terminals is the x-th leaf of the block
LeafOf(pm, t) == LET m == Len(pm) IN (t \div m) * m + (CHOOSE x \in 1 .. m : pm[x] = t % m) - 1

RECURSIVE ADist(_, _, _)
ADist(a, i, j) ==
   CASE i = j -> 0
     [] a.k \in {"cmplt", "cmpltw"} -> 1
     [] a.k = "hcub"  -> Hamming(i, j)
     [] a.k = "mesh"  -> LET ci == Coord(a.dim, i)  cj == Coord(a.dim, j)
                         IN  SumSeq([x \in 1 .. Len(a.dim) |-> Abs(ci[x] - cj[x])])
     [] a.k = "torus" -> LET ci == Coord(a.dim, i)  cj == Coord(a.dim, j)
                         IN  SumSeq([x \in 1 .. Len(a.dim) |-> LET d == Abs(ci[x] - cj[x]) IN Min2(d, a.dim[x] - d)])
     [] a.k = "tleaf" -> LeafDist(a.sz, a.lk, Len(a.sz), i, j)
     [] a.k = "ltleaf" -> LeafDist(a.sz, a.lk, Len(a.sz), LeafOf(a.pm, i), LeafOf(a.pm, j))
     [] a.k = "sub"   -> ADist(a.org, a.lst[i + 1], a.lst[j + 1])
     [] a.k = "deco"  -> a.dm[CHOOSE x \in 1 .. Len(a.lb) : a.lb[x] = i][CHOOSE x \in 1 .. Len(a.lb) : a.lb[x] = j]

\* The text of the file of an architecture, as a sequence of words
Words(s) == [x \in 1 .. Len(s) |-> ToString(s[x])]
LinkWords(a) == Words(<<Len(a.sz)>> \o Flat([x \in 1 .. Len(a.sz) |-> <<a.sz[x], a.lk[x]>>]))
DimWords(p, dim) == CASE Len(dim) = 2 -> <<p \o "2D">> \o Words(dim)
                      [] Len(dim) = 3 -> <<p \o "3D">> \o Words(dim)
                      [] OTHER -> <<p \o "XD">> \o Words(<<Len(dim)>> \o dim)
RECURSIVE AFile(_)
AFile(a) == CASE a.k = "cmplt"  -> <<"cmplt">> \o Words(<<a.n>>)
              [] a.k = "cmpltw" -> <<"cmpltw">> \o Words(<<Len(a.w)>> \o a.w)
              [] a.k = "hcub"   -> <<"hcub">> \o Words(<<a.d>>)
              [] a.k \in {"mesh", "torus"} -> IF a.x = 1 THEN <<a.k \o "XD">> \o Words(<<Len(a.dim)>> \o a.dim) ELSE DimWords(a.k, a.dim)
              [] a.k = "tleaf"  -> <<"tleaf">> \o LinkWords(a)
              [] a.k = "ltleaf" -> <<"ltleaf">> \o LinkWords(a) \o Words(<<Len(a.pm)>> \o a.pm)
              [] a.k = "sub"    -> <<"sub">> \o Words(<<Len(a.lst)>> \o a.lst) \o AFile(a.org)
              [] OTHER -> <<>>

ArchName(a) == IF a.k \in {"mesh", "torus"} THEN AFile(a)[1] ELSE a.k

----------------------------------------------------------------------------
(* The domain tree reached by bipartitioning from the initial domain.  A node  *)
(* is [s, w, m, r, l, q]: size, weight, number, result of the bipartitioning,  *)
(* and the indices of its two subdomains.                                      *)
TreeFault(a, T) ==
   LET n  == ASize(a)
       lf == {i \in 1 .. Len(T) : T[i].r = 1}
       br == {i \in 1 .. Len(T) : T[i].r = 0}
   IN CASE T[1].s # n                                                -> "size of the initial domain"
        [] \E i \in 1 .. Len(T) : T[i].r \notin {0, 1}               -> "bipartitioning failed"
        [] \E i \in br : T[i].s < 2 \/ T[T[i].l].s < 1 \/ T[T[i].q].s < 1 -> "empty domain"
        [] \E i \in lf : T[i].s # 1                                  -> "domain cannot be split yet is not terminal"
        [] \E i \in br : T[i].s # T[T[i].l].s + T[T[i].q].s          -> "subdomain sizes do not add up"
        [] \E i \in br : T[i].w # T[T[i].l].w + T[T[i].q].w          -> "subdomain weights do not add up"
        [] {T[i].m : i \in lf} # Range(ANum(a)) \/ Cardinality(lf) # n   -> "terminal numbers are not a partition"
        [] \E i \in lf : T[i].w # AWght(a, T[i].m)                   -> "terminal weight"
        [] \E i \in br : T[i].m # Min2(T[T[i].l].m, T[T[i].q].m)     -> "number is not the smallest of the domain"
        [] OTHER -> OK

TermFault(a, tm, dm, dl, ov) ==
   LET n == ASize(a)
       nm == ANum(a) IN
   CASE \E t \in 1 .. n : tm[t].r # 0                                -> "terminal domain refused"
     [] ov # 1                                                       -> "terminal number out of range accepted"
     [] \E t \in 1 .. n : tm[t].m # nm[t] \/ tm[t].s # 1             -> "wrong terminal domain"
     [] \E t \in 1 .. n : tm[t].w # AWght(a, nm[t])                  -> "weight of terminal domain"
     [] \E t \in 1 .. n : dl[t] # 0                                  -> "terminal and leaf domains differ"
     [] DistKnown(a) /\ \E i \in 1 .. n : \E j \in 1 .. n : dm[i][j] # ADist(a, nm[i], nm[j]) -> "distance between terminals"
     [] \E i \in 1 .. n : dm[i][i] # 0                              -> "distance of a terminal to itself"
     [] \E i \in 1 .. n : \E j \in 1 .. i - 1 : dm[i][j] < 1 \/ dm[i][j] # dm[j][i] -> "distance not positive or not symmetric"
     [] OTHER -> OK

\* Estimated distances between disjoint domains: symmetric, positive, and not
\* above the largest distance between terminals
EstFault(a, pr) ==
   IF \E p \in Range(pr) : p[3] # p[4] THEN "estimated distance not symmetric"
   ELSE IF \E p \in Range(pr) : p[3] < 1 THEN "estimated distance not positive"
   ELSE OK
==============================================================================
