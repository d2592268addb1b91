------------------------------- MODULE Views --------------------------------
(* Files of mappings and orderings, and the statistics printed about them.    *)
EXTENDS Mapping, GraphOps

-----------------------------------------------------------------------------
(* Mapping and ordering files: a number of pairs, then (label, value) pairs.  *)
PairFile(g, val) == <<g.n>> \o Flat([v \in 1 .. g.n |-> <<g.lb[v], val[v]>>])

\* Reading of a mapping file: pairs in any order, unknown labels are ignored,
\* vertices without a pair get -1.
TabBad(tok) == \/ tok = <<>> \/ tok[1] < 0
               \/ tok[1] > (Len(tok) - 1) \div 2
               \/ Cardinality({tok[2 * i] : i \in 1 .. tok[1]}) # tok[1]
TabOf(g, tok) ==
   LET at == TLCEval([l \in {tok[2 * i] : i \in 1 .. tok[1]} |-> tok[2 * (CHOOSE i \in 1 .. tok[1] : tok[2 * i] = l) + 1]])
   IN  [v \in 1 .. g.n |-> IF g.lb[v] \in DOMAIN at THEN at[g.lb[v]] ELSE -1]
TabFault(g, tok, ret, part) ==
   CASE TabBad(tok)             -> IF ret = 0 THEN "ill-formed file accepted" ELSE OK
     [] ret # 0                 -> "well-formed file refused"
     [] part # TabOf(g, tok)    -> "contents of the array read"
     [] OTHER -> OK

\* Reading of an ordering file: every vertex once, in any order, with its rank
OrdBad(g, tok) ==
   \/ tok = <<>> \/ tok[1] # g.n \/ Len(tok) < 1 + 2 * g.n
   \/ {tok[2 * i] : i \in 1 .. g.n} # {g.lb[v] : v \in 1 .. g.n}
   \/ {tok[2 * i + 1] : i \in 1 .. g.n} # g.b .. (g.n + g.b - 1)
OrdLoadFault(g, tok, ret, perm, peri) ==
   CASE OrdBad(g, tok) -> IF ret = 0 THEN "ill-formed file accepted" ELSE OK
     [] ret # 0        -> "well-formed file refused"
     [] LET p == TabOf(g, tok) IN perm # p \/ \E v \in 1 .. g.n : peri[p[v] - g.b + 1] # v + g.b - 1 -> "contents of the ordering read"
     [] OTHER -> OK

\* Block number, from 0, of every vertex of an ordering
VertBlock(g, r) == [v \in 1 .. g.n |-> CHOOSE k \in 0 .. r.cblk - 1 : r.rang[k + 1] <= r.perm[v] /\ r.perm[v] < r.rang[k + 2]]
OrdFilesFault(g, r, ev) ==
   LET blk == TLCEval(VertBlock(g, r)) IN
   CASE ev.ret # 0                                                       -> "call failed"
     [] ev.tok # PairFile(g, r.perm)                                     -> "ordering file"
     [] ev.tokmap # PairFile(g, blk)                                     -> "column block file"
     [] ev.toktree # PairFile(g, [v \in 1 .. g.n |-> r.tree[blk[v] + 1]]) -> "separator tree file"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Statistics.  Printed decimals are recorded in thousandths. *)
SumOver(S, f(_)) == FoldSet(LAMBDA x, s : s + f(x), 0, S)

\* Distance, in the subgraph of part p, from v
RECURSIVE PartSpread(_, _, _, _, _, _)
PartSpread(g, part, p, seen, front, d) ==
   LET nxt == {x \in UNION {{g.nb[v][e] : e \in 1 .. Len(g.nb[v])} : v \in front} : part[x] = p /\ x \notin seen}
   IN  IF nxt = {} THEN [d |-> d, seen |-> seen] ELSE PartSpread(g, part, p, seen \cup nxt, nxt, d + 1)
PartEcc(g, part, v) == PartSpread(g, part, part[v], {v}, {v}, 0)
\* Extents of the connected components of a part: smallest and largest values
\* that the pseudo-diameter of the part may take; every component counts for one
\* more than the eccentricity of one of its vertices
RECURSIVE PartDiamBounds(_, _, _, _)
PartDiamBounds(g, part, todo, acc) ==
   IF todo = {} THEN acc
   ELSE LET v0   == CHOOSE v \in todo : TRUE
            comp == PartEcc(g, part, v0).seen
            es   == {PartEcc(g, part, v).d : v \in comp}
            mx   == Max(es)
        IN  PartDiamBounds(g, part, todo \ comp, [lo |-> acc.lo + 1 + Max2(Min(es), (mx + 1) \div 2), hi |-> acc.hi + 1 + mx])

MapViewFault(g, a, part, old, emra, vml, v) ==
   LET mapped == {x \in 1 .. g.n : part[x] # -1}
       ps     == TLCEval({part[x] : x \in mapped})
       ld     == TLCEval([p \in ps |-> LoadOf(g, part, p)])
       m      == Cardinality(ps)
       S      == SumOver(ps, LAMBDA p : ld[p])
       nghb   == TLCEval([p \in ps |-> Cardinality({q \in ps : q # p /\ \E x \in mapped : part[x] = p /\ \E e \in 1 .. Len(g.nb[x]) : part[g.nb[x][e]] = q})])
       dist   == TLCEval([p \in ps |-> TLCEval([q \in ps |-> ADist(a, p, q)])])
       arcs   == Flat([x \in 1 .. g.n |-> IF x \notin mapped THEN <<>>
                       ELSE SelectSeq([e \in 1 .. Len(g.nb[x]) |-> IF part[g.nb[x][e]] = -1 THEN <<-1, 0>> ELSE <<dist[part[x]][part[g.nb[x][e]]], g.ew[x][e]>>], LAMBDA t : t[1] >= 0)])
       total  == FoldLeft(LAMBDA s, t : s + t[2], 0, arcs)
       dil    == FoldLeft(LAMBDA s, t : s + t[1], 0, arcs)
       exp    == FoldLeft(LAMBDA s, t : s + t[1] * t[2], 0, arcs)
       cut    == FoldLeft(LAMBDA s, t : IF t[1] > 0 THEN s + t[2] ELSE s, 0, arcs)
       enbr   == ArcNbr(g)
       at(d)  == FoldLeft(LAMBDA s, t : IF Min2(t[1], 255) = d THEN s + t[2] ELSE s, 0, arcs)
       dmax   == FoldLeft(LAMBDA s, t : IF t[1] > s THEN Min2(t[1], 255) ELSE s, -1, arcs)
       dmb    == TLCEval([p \in ps |-> TLCEval(PartDiamBounds(g, part, {x \in mapped : part[x] = p}, [lo |-> 0, hi |-> 0]))])
       moved  == IF old = <<>> THEN {} ELSE {x \in mapped : old[x] # -1 /\ old[x] # part[x]}
       k      == Cardinality(moved)
   IN
   CASE v.nbr # m \/ v.tgt # ASize(a)                                       -> "number of processors"
     [] v.lmin # (IF m = 0 THEN 0 ELSE Min({ld[p] : p \in ps})) \/ v.lmax # (IF m = 0 THEN 0 ELSE Max({ld[p] : p \in ps})) -> "smallest or largest load"
     [] m > 0 /\ ~Near(v.lavg, Ratio(S, m))                                 -> "average load"
     [] S > 0 /\ ~Near(v.ldlt, Ratio(SumOver(ps, LAMBDA p : Abs(m * ld[p] - S)), m * S)) -> "load deviation"
     [] S > 0 /\ ~Near(v.lmxa, Ratio(v.lmax * m, S))                        -> "largest to average load"
     [] v.raw = 0 /\ (v.nmin # (IF m = 0 THEN 0 ELSE Min({nghb[p] : p \in ps})) \/ v.nmax # (IF m = 0 THEN 0 ELSE Max({nghb[p] : p \in ps}))
                      \/ v.nsum # SumOver(ps, LAMBDA p : nghb[p]))          -> "numbers of neighbors"
     [] ~Near(v.dil, Ratio(dil, enbr)) \/ (v.raw = 0 /\ v.dilsum # dil \div 2) -> "dilation"
     [] ~Near(v.exp, IF total = 0 THEN 0 ELSE Ratio(exp, total)) \/ v.expsum # (IF v.raw = 0 THEN exp \div 2 ELSE exp) -> "expansion"
     [] ~Near(v.cut, IF total = 0 THEN 0 ELSE Ratio(cut, total)) \/ (v.raw = 0 /\ v.cutsum # cut \div 2) -> "cut"
     [] v.raw = 1 /\ v.total # total                                        -> "total load"
     [] ~Near(v.dlt, IF total = 0 \/ dil = 0 THEN 0 ELSE Ratio(exp * enbr, total * dil)) -> "expansion to dilation"
     [] v.raw = 0 /\ (Len(v.hist) # dmax + 1 \/ \E d \in 0 .. dmax : ~Near(v.hist[d + 1], Ratio(at(d), total))) -> "loads by distance"
     [] v.raw = 0 /\ m > 0 /\ (\/ v.dmin < Min({dmb[p].lo : p \in ps}) \/ v.dmin > Min({dmb[p].hi : p \in ps})
                               \/ v.dmax < Max({dmb[p].lo : p \in ps}) \/ v.dmax > Max({dmb[p].hi : p \in ps})
                               \/ v.davg + 1 + (v.davg \div 500) < Ratio(SumOver(ps, LAMBDA p : dmb[p].lo), m) \/ v.davg > 1 + Ratio(SumOver(ps, LAMBDA p : dmb[p].hi), m) + (v.davg \div 500)) -> "diameters of the parts"
     [] v.raw = 0 /\ m = 0 /\ (v.dmin # 0 \/ v.dmax # 0 \/ v.davg # 0)      -> "diameters of the parts"
     [] old # <<>> /\ v.raw = 0 /\ (v.mnbr # k \/ ~Near(v.mpct, Ratio(100 * k, g.n))) -> "number of migrated vertices"
     [] old # <<>> /\ v.raw = 1 /\ ~Near(v.mpct, Ratio(k, g.n))             -> "number of migrated vertices"
     [] old # <<>> /\ ~Near(v.mdst, IF k = 0 THEN 0 ELSE Ratio(SumOver(moved, LAMBDA x : ADist(a, old[x], part[x])), k)) -> "migration distance"
     [] old # <<>> /\ ~Near(v.mlod, IF k = 0 THEN 0 ELSE Ratio(SumOver(moved, LAMBDA x : g.vw[x]), k)) -> "migration load"
     [] old # <<>> /\ ~Near(v.mcst, 10 * (emra * SumOver(moved, LAMBDA x : IF vml = <<>> THEN 1 ELSE vml[x]))) -> "migration cost"
     [] OTHER -> OK

\* Statistics of a partition with overlap
OvlViewFault(g, k, part, v) ==
   LET ld  == TLCEval([p \in 0 .. k - 1 |-> OvlLoad(g, part, p)])
       sep == SumOver({x \in 1 .. g.n : part[x] = -1}, LAMBDA x : g.vw[x])
       S   == SumOver(0 .. k - 1, LAMBDA p : ld[p])
       mn  == Min({ld[p] : p \in 0 .. k - 1})
       mx  == Max({ld[p] : p \in 0 .. k - 1})
   IN
   CASE v.sep # sep                         -> "load of the separator"
     [] v.lmin # mn \/ v.lmax # mx          -> "smallest or largest load"
     [] ~Near(v.lavg, Ratio(S, k))          -> "average load"
     [] S > 0 /\ (~Near(v.mxa, Ratio(mx * k, S)) \/ ~Near(v.mna, Ratio(mn * k, S))) -> "load ratios"
     [] OTHER -> OK

-----------------------------------------------------------------------------
ViewContractOn(ev, g, a) ==
   CASE ev.op = "TabSave" ->
          (CASE ev.ret # 0                       -> "call failed"
             [] ev.same # 1                      -> "input arrays modified"
             [] ev.tok # PairFile(g, ev.part)    -> "file contents"
             [] OTHER -> OK)
     [] ev.op = "TabLoad" -> IF ev.guard # 1 THEN "write out of array bounds" ELSE TabFault(g, ev.tok, ev.ret, ev.part)
     [] ev.op = "OrdFiles" -> OrdFilesFault(g, ev.r, ev)
     [] ev.op = "OrdLoad" ->
          (CASE ev.guard # 1                     -> "write out of array bounds"
             [] OrdLoadFault(g, ev.tok, ev.ret, ev.perm, ev.peri) # OK -> OrdLoadFault(g, ev.tok, ev.ret, ev.perm, ev.peri)
             [] ev.ret = 0 /\ ev.chk # 0         -> "ordering read refused by the ordering check"
             [] OTHER -> OK)
     [] ev.op = "MapView" ->
          (CASE ev.ret # 0                       -> "call failed"
             [] ev.same # 1                      -> "input arrays modified"
             [] ArcNbr(g) = 0                    -> IF ev.lines # 0 THEN "statistics of an arcless graph" ELSE OK
             [] OTHER -> MapViewFault(g, a, ev.part, ev.old, ev.emra, ev.vml, ev.v))
     [] ev.op = "OvlView" ->
          (CASE ev.ret # 0                       -> "call failed"
             [] ev.same # 1                      -> "input arrays modified"
             [] OTHER -> OvlViewFault(g, ev.k, ev.part, ev.v))
ViewOpNames == {"TabSave", "TabLoad", "OrdFiles", "OrdLoad", "MapView", "OvlView"}
=============================================================================
