-------------------------------- MODULE Dist --------------------------------
(* Distributed graphs.  The arrays of process p are a raw local record         *)
(* [b, n, mx, e, vt, ve, vw, lb, et, ew, hv, he, hl]; mx is the number of       *)
(* global indices reserved for the process (vertlocmax), so that the global    *)
(* numbering may have holes.  The abstract object is                           *)
(*    [b, cnt, mx, g]                                                          *)
(* with g the global graph over the compact numbering 1..n (vertices of        *)
(* process 1 first), cnt and mx per process, and g.lb[v] the label of v if      *)
(* there are labels, else its global index.                                    *)
EXTENDS Meshes

DCnt(ls)    == [p \in 1 .. Len(ls) |-> ls[p].n]
DMx(ls)     == [p \in 1 .. Len(ls) |-> ls[p].mx]
DShapeOk(ls) ==
   /\ Len(ls) >= 1
   /\ \A p \in 1 .. Len(ls) : RawShapeOk(ls[p]) /\ ls[p].mx >= ls[p].n
   /\ \A p \in 1 .. Len(ls) : ls[p].b = ls[1].b /\ ls[p].hv = ls[1].hv /\ ls[p].he = ls[1].he /\ ls[p].hl = ls[1].hl

\* Compact number of every global index (0 in the holes), and back
CmpOf(cnt, mx) == LET dsp == Prefix(cnt) IN
                  TLCEval(Flat([p \in 1 .. Len(cnt) |-> [i \in 1 .. mx[p] |-> IF i <= cnt[p] THEN dsp[p] + i ELSE 0]]))
GlbOf(b, cnt, mx) == LET vrt == Prefix(mx) IN
                     TLCEval(Flat([p \in 1 .. Len(cnt) |-> [i \in 1 .. cnt[p] |-> b + vrt[p] + i - 1]]))
OwnOf(cnt)  == TLCEval(Flat([p \in 1 .. Len(cnt) |-> [i \in 1 .. cnt[p] |-> <<p, i>>]]))

\* lab: arc ends are given as labels
DAbs(ls, lab) ==
   LET b   == ls[1].b
       cnt == DCnt(ls)
       mx  == DMx(ls)
       own == OwnOf(cnt)
       n   == Len(own)
       inv == CmpOf(cnt, mx)
       glb == GlbOf(b, cnt, mx)
       hl  == ls[1].hl = 1
       lb  == IF hl THEN TLCEval([v \in 1 .. n |-> ls[own[v][1]].lb[own[v][2]]]) ELSE glb
       lbs == {lb[v] : v \in 1 .. n}
       lv  == IF hl /\ lab THEN TLCEval([x \in lbs |-> CHOOSE v \in 1 .. n : lb[v] = x]) ELSE <<>>
       cv(x) == IF hl /\ lab THEN (IF x \in lbs THEN lv[x] ELSE 0)
                ELSE IF x >= b /\ x < b + Len(inv) THEN inv[x - b + 1] ELSE 0
       at(p, i, k) == ls[p].vt[i] - b + k
       dg(p, i) == RawVend(ls[p], i) - ls[p].vt[i]
       nb  == TLCEval([v \in 1 .. n |-> LET p == own[v][1] i == own[v][2] IN TLCEval([k \in 1 .. dg(p, i) |-> cv(ls[p].et[at(p, i, k)])])])
       ew  == TLCEval([v \in 1 .. n |-> LET p == own[v][1] i == own[v][2] IN
                          TLCEval([k \in 1 .. dg(p, i) |-> IF ls[p].he = 1 THEN ls[p].ew[at(p, i, k)] ELSE 1])])
       vw  == TLCEval([v \in 1 .. n |-> LET p == own[v][1] i == own[v][2] IN IF ls[p].hv = 1 THEN ls[p].vw[i] ELSE 1])
   IN [b |-> b, cnt |-> cnt, mx |-> mx,
       g |-> [b |-> b, n |-> n, nb |-> nb, ew |-> ew, vw |-> vw, lb |-> lb, hv |-> ls[1].hv = 1, he |-> ls[1].he = 1, hl |-> hl]]

\* What dgraphBuild followed by dgraphCheck must decide
DVerdict(ls) ==
   IF ~DShapeOk(ls) THEN "bad"
   ELSE LET d == TLCEval(DAbs(ls, TRUE))
            f == GraphFault(d.g)
        IN  CASE d.g.hl /\ Cardinality({d.g.lb[v] : v \in 1 .. d.g.n}) # d.g.n -> "unspecified"
              [] f = "non-positive edge load" ->
                   IF \E v \in 1 .. d.g.n : \E k \in 1 .. Len(d.g.ew[v]) : d.g.ew[v][k] < 0 THEN "bad" ELSE "unspecified"
              [] f # OK                       -> "bad"
              [] \E p \in 1 .. Len(ls) : ls[p].e # SumSeq([i \in 1 .. ls[p].n |-> RawVend(ls[p], i) - ls[p].vt[i]]) -> "bad"
              [] ~SumFits(d.g.vw)             -> "bad"
              [] ~SumFits2(d.g.ew)            -> "unspecified"
              [] OTHER                        -> "good"

AllRet(ev, x)  == \A p \in 1 .. Len(ev.locs) : ev.locs[p].ret = x
AllSame(ev)    == \A p \in 1 .. Len(ev.locs) : ev.locs[p].same = 1
AllGuard(ev)   == \A p \in 1 .. Len(ev.locs) : ev.locs[p].guard = 1
LocArcs(d, p)  == LET dsp == Prefix(d.cnt) IN SumSeq([i \in 1 .. d.cnt[p] |-> Deg(d.g, dsp[p] + i)])

\* Global data that every process must report for a graph of abstraction d
DGlobFault(d, ls) ==
   CASE \E p \in 1 .. Len(ls) : ls[p].nglb # d.g.n           -> "global vertex number"
     [] \E p \in 1 .. Len(ls) : ls[p].eglb # ArcNbr(d.g)     -> "global arc number"
     [] \E p \in 1 .. Len(ls) : ls[p].e # LocArcs(d, p)      -> "local arc number"
     [] \E p \in 1 .. Len(ls) : ls[p].n2 # ls[p].n \/ ls[p].e2 # ls[p].e \/ ls[p].nglb2 # ls[p].nglb \/ ls[p].eglb2 # ls[p].eglb -> "dgraphSize and dgraphData differ"
     [] OTHER -> OK

\* Observation of a distributed graph: exactly d
DObserveFault(d, ls) ==
   CASE Len(ls) # Len(d.cnt) \/ ~DShapeOk(ls)                -> "unreadable arrays"
     [] ls[1].b # d.b                                        -> "base value"
     [] DCnt(ls) # d.cnt                                     -> "local vertex numbers"
     [] DMx(ls) # d.mx                                       -> "numbers of reserved indices"
     [] OTHER ->
   LET h == TLCEval(DAbs(ls, FALSE)) IN
   CASE DGlobFault(d, ls) # OK -> DGlobFault(d, ls)
     [] h.g.vw # d.g.vw        -> "vertex loads"
     [] h.g.hl # d.g.hl \/ h.g.lb # d.g.lb -> "vertex labels"
     [] h.g.nb # d.g.nb        -> "adjacency"
     [] h.g.ew # d.g.ew        -> "edge loads"
     [] OTHER -> OK

\* Same, up to the order of the arcs of a vertex
DEquivFault(d, ls) ==
   CASE Len(ls) # Len(d.cnt) \/ ~DShapeOk(ls)                -> "unreadable arrays"
     [] ls[1].b # d.b                                        -> "base value"
     [] DCnt(ls) # d.cnt                                     -> "local vertex numbers"
     [] OTHER ->
   LET h == TLCEval(DAbs(ls, FALSE)) IN
   CASE DGlobFault(d, ls) # OK -> DGlobFault(d, ls)
     [] h.g.vw # d.g.vw        -> "vertex loads"
     [] h.g.hl # d.g.hl \/ (d.g.hl /\ h.g.lb # d.g.lb) -> "vertex labels"
     [] ArcSet(h.g) # ArcSet(d.g) -> "arcs or arc loads"
     [] \E v \in 1 .. d.g.n : Deg(h.g, v) # Deg(d.g, v) -> "duplicate arcs"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Ghost vertices: the remote neighbours of the vertices of a process, in      *)
(* increasing order of global index, are numbered after its local vertices.    *)
Ghosts(d, p) ==                                  \* compact numbers, increasing
   LET dsp == Prefix(d.cnt)
       lo  == dsp[p] + 1
       hi  == dsp[p] + d.cnt[p]
       rm  == {u \in UNION {{d.g.nb[v][k] : k \in 1 .. Deg(d.g, v)} : v \in lo .. hi} : u < lo \/ u > hi}
   IN  SetToSortSeq(rm, <)

GhostFault(d, ls) ==
   IF \E p \in 1 .. Len(ls) : ls[p].gst < 0 THEN "no ghost data"
   ELSE IF \E p \in 1 .. Len(ls) :
        LET gh  == TLCEval(Ghosts(d, p))
            dsp == Prefix(d.cnt)
            lo  == dsp[p]
            idx(x) == IF x > lo /\ x <= lo + d.cnt[p] THEN d.b + x - lo - 1
                      ELSE d.b + d.cnt[p] + (CHOOSE i \in 1 .. Len(gh) : gh[i] = x) - 1
        IN  \/ ls[p].gst # d.cnt[p] + Len(gh)
            \/ \E i \in 1 .. d.cnt[p] : \E k \in 1 .. Deg(d.g, lo + i) :
                  ls[p].eg[ls[p].vt[i] - d.b + k] # idx(d.g.nb[lo + i][k])
   THEN "ghost numbering" ELSE OK

HaloFault(d, ls) ==
   IF \E p \in 1 .. Len(ls) :
        LET gh  == TLCEval(Ghosts(d, p))
            own == OwnOf(d.cnt)
        IN  \/ Len(ls[p].out) # d.cnt[p] + Len(gh)
            \/ \E i \in 1 .. d.cnt[p] : ls[p].out[i] # ls[p].in[i]
            \/ \E j \in 1 .. Len(gh) : ls[p].out[d.cnt[p] + j] # ls[own[gh[j]][1]].in[own[gh[j]][2]]
   THEN "halo values" ELSE OK

-----------------------------------------------------------------------------
(* 3D grids: vertex z*ny*nx + y*nx + x; labels when the increment is not 1.    *)
GridArcs(nx, ny, nz, torus, diag) ==
   LET V == 0 .. nx * ny * nz - 1
       X(v) == v % nx
       Y(v) == (v \div nx) % ny
       Z(v) == v \div (nx * ny)
       ax(d, i, s) == IF torus THEN (i + s + d) % d ELSE i + s
       ok(d, i) == i >= 0 /\ i < d
       steps == {s \in (-1 .. 1) \X (-1 .. 1) \X (-1 .. 1) :
                   s # <<0, 0, 0>> /\ (diag \/ Cardinality({k \in 1 .. 3 : s[k] # 0}) = 1)}
   IN UNION {LET x == X(v) y == Y(v) z == Z(v) IN
             {<<v, (ax(nz, z, s[3]) * ny + ax(ny, y, s[2])) * nx + ax(nx, x, s[1])>> :
                s \in {s \in steps : ok(nx, ax(nx, x, s[1])) /\ ok(ny, ax(ny, y, s[2])) /\ ok(nz, ax(nz, z, s[3]))}} \ {<<v, v>>} : v \in V}

\* lb[v]: grid number of vertex v, zero based
Grid3Fault(ev, ls) ==
   IF ~DShapeOk(ls) THEN "unreadable arrays"
   ELSE LET d == TLCEval(DAbs(ls, FALSE))
            n == ev.nx * ev.ny * ev.nz
            np == Len(ls)
            t == TLCEval([v \in 1 .. d.g.n |-> IF ev.incr = 1 THEN v - 1 ELSE d.g.lb[v] - ev.b])
        IN  CASE d.b # ev.b \/ d.g.n # n                              -> "size of the grid"
              [] GraphFault(d.g) # OK                                 -> GraphFault(d.g)
              [] d.g.hl # (ev.incr # 1)                               -> "labels of the grid"
              [] d.g.hv # (ev.vl = 1) \/ d.g.he # (ev.el = 1)         -> "loads of the grid"
              [] {t[v] : v \in 1 .. n} # 0 .. (n - 1)                 -> "labels of the grid"
              [] {<<t[a[1]], t[a[2]]>> : a \in PairSet(d.g)} # GridArcs(ev.nx, ev.ny, ev.nz, ev.torus = 1, ev.diag = 1) -> "arcs of the grid"
              [] \E p \in 1 .. np : d.cnt[p] # (n + np - p) \div np   -> "distribution of the grid"
              [] OTHER -> DGlobFault(d, ls)

-----------------------------------------------------------------------------
DStatFault(g, s) ==
   LET dg == [v \in 1 .. g.n |-> Deg(g, v)]
       el == TLCEval(Flat(g.ew)) IN
   CASE g.n = 0 -> IF s.velosum # 0 \/ s.edlosum # 0 THEN "empty graph statistics" ELSE OK
     [] s.velomin # SeqMin(g.vw) \/ s.velomax # SeqMax(g.vw) \/ s.velosum # SumSeq(g.vw) -> "vertex load statistics"
     [] ~Near(s.veloavg, AvgOf(g.vw)) \/ ~Near(s.velodlt, DltOf(g.vw))                    -> "vertex load average or delta"
     [] s.degrmin # SeqMin(dg) \/ s.degrmax # SeqMax(dg)                                  -> "degree statistics"
     [] ~Near(s.degravg, AvgOf(dg)) \/ ~Near(s.degrdlt, DltOf(dg))                        -> "degree average or delta"
     [] el # <<>> /\ (s.edlomin # SeqMin(el) \/ s.edlomax # SeqMax(el) \/ 2 * s.edlosum # SumSeq(el)) -> "edge load statistics"
     [] el = <<>> /\ s.edlosum # 0                                                         -> "edge load sum of an arcless graph"
     [] el # <<>> /\ (~Near(s.edloavg, AvgOf(el)) \/ ~Near(s.edlodlt, DltOf(el)))         -> "edge load average or delta"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Movement of graphs between processes.                                       *)

\* The centralized graph that the fragments stand for
Central(d) == [d.g EXCEPT !.lb = IF d.g.hl THEN d.g.lb ELSE [v \in 1 .. d.g.n |-> d.b + v - 1]]

CentralFault(d, r) ==
   LET c == Central(d)
       f == EquivFault(c, r) IN
   CASE f # OK -> f
     [] (IF r.lb = <<>> THEN [v \in 1 .. r.n |-> r.b + v - 1] ELSE r.lb) # c.lb -> "vertex labels"
     [] OTHER -> OK

\* n vertices over np processes in blocks, lower ranks filled first
Blocks(n, np) == [p \in 1 .. np |-> (n + np - p) \div np]
Spread(g, np) == [b |-> g.b, cnt |-> Blocks(g.n, np), mx |-> Blocks(g.n, np), g |-> g]

\* Vertices of g in the order s; labels are those of the original vertices
PickDist(d, s, cnt) ==
   [b |-> d.b, cnt |-> cnt, mx |-> cnt,
    g |-> [Induce(d.g, s) EXCEPT !.lb = [i \in 1 .. Len(s) |-> d.g.lb[s[i]]], !.hl = TRUE]]

FlatPart(ls) == Flat([p \in 1 .. Len(ls) |-> ls[p].part])

\* part: destination of every vertex (from 0); key: rank of the vertex among those of its part
Redist(d, part, key, np) ==
   LET of(q) == SetToSortSeq({v \in 1 .. d.g.n : part[v] = q - 1}, LAMBDA u, v : key[u] < key[v])
       ss == TLCEval([q \in 1 .. np |-> of(q)])
   IN  PickDist(d, Flat(ss), [q \in 1 .. np |-> Len(ss[q])])

DInduce(d, part, val) ==
   LET dsp == Prefix(d.cnt)
       ss  == TLCEval([p \in 1 .. Len(d.cnt) |-> SelectSeq([i \in 1 .. d.cnt[p] |-> dsp[p] + i], LAMBDA v : part[v] = val)])
   IN  PickDist(d, Flat(ss), [p \in 1 .. Len(d.cnt) |-> Len(ss[p])])

\* Files: fragment p is 2 / np p-1 / n arcs / cnt[p] arcs of p / base flag / vertex lines
FragsOk(ts) ==
   LET np == Len(ts) IN
   /\ \A p \in 1 .. np : Len(ts[p]) >= 9
   /\ \A p \in 1 .. np : ts[p][1] = 2 /\ ts[p][2] = np /\ ts[p][3] = p - 1 /\ ts[p][6] >= 0 /\ ts[p][7] >= 0
   /\ \A p \in 1 .. np : ts[p][4] = ts[1][4] /\ ts[p][5] = ts[1][5] /\ ts[p][8] = ts[1][8] /\ ts[p][9] = ts[1][9]
   /\ SumSeq([p \in 1 .. np |-> ts[p][6]]) = ts[1][4]
   /\ SumSeq([p \in 1 .. np |-> ts[p][7]]) = ts[1][5]

Joined(ts) == <<0, ts[1][4], ts[1][5], ts[1][8], ts[1][9]>> \o Flat([p \in 1 .. Len(ts) |-> SubSeq(ts[p], 10, Len(ts[p]))])

DSaveFault(d, ts) ==
   IF ~FragsOk(ts) THEN "fragment headers"
   ELSE LET h == GraphOfFile(Joined(ts), -1, 0) IN
        CASE IsBad(h)                                             -> "malformed fragments"
          [] \E p \in 1 .. Len(ts) : ts[p][6] # d.cnt[p] \/ ts[p][7] # LocArcs(d, p) -> "local sizes"
          [] h.b # d.b \/ h.n # d.g.n \/ h.nb # d.g.nb            -> "adjacency in the files"
          [] h.vw # d.g.vw                                        -> "vertex loads in the files"
          [] h.ew # d.g.ew                                        -> "edge loads in the files"
          [] d.g.hl /\ d.g.n > 0 /\ h.lb # d.g.lb                 -> "labels in the files"
          [] OTHER -> OK

\* Verdict left open (header properties that differ between fragments)
AnyGraph == [any |-> TRUE]

\* exp: expected global graph; cnt: expected distribution (<<>>: not specified)
DLoadFault(exp, cnt, ev) ==
   LET ls == ev.locs IN
   CASE exp = AnyGraph -> IF ~AllRet(ev, 0) /\ (\E p \in 1 .. Len(ls) : ls[p].ret = 0) THEN "processes disagree on the return value" ELSE OK
     [] IsBad(exp) \/ GraphFault(exp) # OK ->
          (IF AllRet(ev, 0) /\ IsBad(exp) /\ ~("sem" \in DOMAIN exp) THEN "malformed file accepted"
           ELSE IF ~AllRet(ev, 0) /\ (\E p \in 1 .. Len(ls) : ls[p].ret = 0) THEN "processes disagree on the return value" ELSE OK)
     [] ~AllRet(ev, 0)                               -> "well-formed file refused"
     [] ~DShapeOk(ls)                                -> "unreadable arrays"
     [] cnt # <<>> /\ DCnt(ls) # cnt                 -> "distribution of the vertices"
     [] OTHER ->
   LET h == TLCEval(DAbs(ls, FALSE)) IN
   CASE h.b # exp.b                                  -> "base value"
     [] h.g.n # exp.n                                -> "vertex number"
     [] h.g.nb # exp.nb                              -> "adjacency"
     [] h.g.vw # exp.vw                              -> "vertex loads"
     [] h.g.ew # exp.ew                              -> "edge loads"
     [] exp.n > 0 /\ h.g.hl # exp.hl                 -> "presence of labels"
     [] exp.hl /\ h.g.lb # exp.lb                    -> "vertex labels"
     [] OTHER -> DGlobFault(h, ls)

-----------------------------------------------------------------------------
(* Breadth-first search from colored seeds: init[v] is the color of v or -1;   *)
(* colored vertices which are not seeds are obstacles.                         *)
NbSet(g, v) == {g.nb[v][k] : k \in 1 .. Deg(g, v)}

\* Levels <<seeds, ring 1, ring 2, ...>>, at most dist rings, stopping at an empty ring
RECURSIVE Rings(_, _, _, _)
Rings(g, free, front, dist) ==
   IF dist <= 0 THEN <<front>>
   ELSE LET nx == UNION {NbSet(g, v) : v \in front} \cap free IN
        IF nx = {} THEN <<front>> ELSE <<front>> \o Rings(g, free \ nx, nx, dist - 1)

LocSeeds(d, ls) == LET dsp == Prefix(d.cnt) IN UNION {{dsp[p] + ls[p].seed[i] - d.b + 1 : i \in 1 .. Len(ls[p].seed)} : p \in 1 .. Len(ls)}

GrowFault(d, ls, dist) ==
   LET init == TLCEval(Flat([p \in 1 .. Len(ls) |-> ls[p].part]))
       out  == TLCEval(Flat([p \in 1 .. Len(ls) |-> SubSeq(ls[p].out, 1, d.cnt[p])]))
       seed == LocSeeds(d, ls)
       free == {v \in 1 .. d.g.n : init[v] = -1} \ seed
       rg   == TLCEval(Rings(d.g, free, seed, dist))
       hit  == UNION {rg[k] : k \in 2 .. Len(rg)}
       gst(p) == LET gh == Ghosts(d, p) IN
                 \/ Len(ls[p].out) # d.cnt[p] + Len(gh)
                 \/ \E j \in 1 .. Len(gh) : ls[p].out[d.cnt[p] + j] # out[gh[j]]
   IN
   CASE \E v \in 1 .. d.g.n : v \notin hit /\ out[v] # init[v]                -> "vertex out of reach colored"
     [] \E k \in 2 .. Len(rg) : \E v \in rg[k] : out[v] \notin {out[u] : u \in NbSet(d.g, v) \cap rg[k - 1]} -> "color of a reached vertex"
     [] \E p \in 1 .. Len(ls) : gst(p)                                       -> "colors of ghost vertices"
     [] OTHER -> OK

\* Band graph: the vertices at distance at most dist from the seeds, in any local order, with their labels
BandFault(d, ls, dist) ==
   LET rg   == TLCEval(Rings(d.g, 1 .. d.g.n, LocSeeds(d, ls), dist))
       ball == UNION {rg[k] : k \in 1 .. Len(rg)}
       own  == OwnOf(d.cnt)
       byl  == TLCEval([x \in {d.g.lb[v] : v \in 1 .. d.g.n} |-> CHOOSE v \in 1 .. d.g.n : d.g.lb[v] = x])
   IN
   CASE ~DShapeOk(ls)                                                         -> "unreadable arrays"
     [] \E p \in 1 .. Len(ls) : ls[p].n > 0 /\ ls[p].hl # 1                   -> "no labels"
     [] \E p \in 1 .. Len(ls) : {ls[p].lb[i] : i \in 1 .. ls[p].n} # {d.g.lb[v] : v \in {v \in ball : own[v][1] = p}} -> "vertices of the band"
     [] OTHER ->
        LET s == TLCEval(Flat([p \in 1 .. Len(ls) |-> [i \in 1 .. ls[p].n |-> byl[ls[p].lb[i]]]])) IN
        IF Len(s) # Cardinality(ball) THEN "vertices of the band" ELSE DEquivFault(PickDist(d, s, DCnt(ls)), ls)

-----------------------------------------------------------------------------
(* Distributed coarsening.  ps: the processes (increasing) that hold one copy   *)
(* of the coarse graph; ls[p].mult: flat multinode array of global fine indices *)
CoarseCopyFault(d, ls, ps, nomerge) ==
   LET rs  == [i \in 1 .. Len(ps) |-> ls[ps[i]]] IN
   IF ~DShapeOk(rs) THEN "unreadable coarse arrays" ELSE
   LET g   == d.g
       c   == TLCEval(DAbs(rs, FALSE))
       cn  == c.g.n
       m   == TLCEval(Flat([i \in 1 .. Len(rs) |-> rs[i].mult]))
       inv == CmpOf(d.cnt, d.mx)
       cv(x) == IF x >= d.b /\ x < d.b + Len(inv) THEN inv[x - d.b + 1] ELSE 0
   IN
   CASE c.b # d.b                                                    -> "base value"
     [] \E i \in 1 .. Len(rs) : Len(rs[i].mult) # 2 * rs[i].n        -> "multinode array size"
     [] DGlobFault(c, rs) # OK                                       -> DGlobFault(c, rs)
     [] \E i \in 1 .. Len(m) : cv(m[i]) = 0                          -> "multinode out of range"
     [] OTHER ->
   LET mult == TLCEval([i \in 1 .. cn |-> <<cv(m[2 * i - 1]), cv(m[2 * i])>>])
       tot  == FoldLeft(LAMBDA a, p : a + (IF p[1] = p[2] THEN 1 ELSE 2), 0, mult)
   IN
   CASE {mult[i][1] : i \in 1 .. cn} \cup {mult[i][2] : i \in 1 .. cn} # 1 .. g.n -> "fine vertex in no multinode"
     [] tot # g.n                                                    -> "fine vertex in two multinodes"
     [] OTHER ->
   LET fc   == TLCEval([v \in 1 .. g.n |-> CHOOSE i \in 1 .. cn : mult[i][1] = v \/ mult[i][2] = v])
       mate == TLCEval([v \in 1 .. g.n |-> IF mult[fc[v]][1] = v THEN mult[fc[v]][2] ELSE mult[fc[v]][1]])
       mf   == MateFault(g, mate, nomerge)
   IN
   CASE mf # OK                                                      -> mf
     [] \E i \in 1 .. cn : c.g.vw[i] # (IF mult[i][1] = mult[i][2] THEN g.vw[mult[i][1]] ELSE g.vw[mult[i][1]] + g.vw[mult[i][2]]) -> "coarse vertex load"
     [] GraphFault(c.g) # OK                                         -> "ill-formed coarse graph"
     [] ArcSet(c.g) # CoarseArcs(g, fc, mult)                        -> "coarse arcs or arc loads"
     [] OTHER -> OK

\* fold: 0 none, 1 fold, 2 fold and duplicate.  Copies: sequences of processes.
Copies(ls, fold) ==
   LET np == Len(ls)
       S(a, b) == [i \in 1 .. (b - a + 1) |-> a + i - 1]
       mem == {p \in 1 .. np : ls[p].nglb > 0}
       h1  == np \div 2
       h2  == np - h1
   IN CASE fold = 0 \/ np = 1 -> { << S(1, np) >> }
        [] fold = 1 -> IF Cardinality(mem) \in {h1, h2} THEN {<< SetToSortSeq(mem, <) >>} ELSE {}
        [] OTHER    -> { << S(1, h2), S(h2 + 1, np) >>, << S(1, h1), S(h1 + 1, np) >> }

DCoarsenFault(d, ev) ==
   LET ls   == ev.locs
       vmax == (d.g.n * ev.permil) \div 1000
       nc   == SeqMax([p \in 1 .. Len(ls) |-> IF ls[p].ret = 0 THEN ls[p].nglb ELSE 0])
       okc(cs) == \A i \in 1 .. Len(cs) : CoarseCopyFault(d, ls, cs[i], ev.nomerge = 1) = OK
       cps  == Copies(ls, ev.fold)
   IN
   CASE \E p \in 1 .. Len(ls) : ls[p].ret \notin {0, 1}              -> "call failed"
     [] ~AllRet(ev, ls[1].ret)                                       -> "processes disagree on the return value"
     [] ~AllSame(ev)                                                 -> "input arrays modified"
     [] ~AllGuard(ev)                                                -> "write out of array bounds"
     [] ls[1].ret = 1                                                -> OK
     [] d.g.n = 0                                                    -> OK
     [] vmax < ev.min                                                -> "coarse graph below the minimum size"
     [] nc > vmax                                                    -> "coarsening ratio above the limit"
     [] cps = {}                                                     -> "number of processes of the folded graph"
     [] \E p \in 1 .. Len(ls) : ls[p].n > ls[p].max                  -> "bound on the number of local coarse vertices"
     [] \E p \in 1 .. Len(ls) : ls[p].chk # 0                        -> "coarse graph refused by dgraphCheck"
     [] \E cs \in cps : okc(cs)                                      -> OK
     [] OTHER -> LET cs == CHOOSE cs \in cps : TRUE
                     i  == CHOOSE i \in 1 .. Len(cs) : CoarseCopyFault(d, ls, cs[i], ev.nomerge = 1) # OK
                 IN CoarseCopyFault(d, ls, cs[i], ev.nomerge = 1)

-----------------------------------------------------------------------------
(* Mappings of distributed graphs *)
DPart(ls) == Flat([p \in 1 .. Len(ls) |-> ls[p].part])
DMapFault(d, ev) ==
   LET ls == ev.locs
       a  == ev.a IN
   CASE a.k \notin {"cmplt", "cmpltw", "var"}        -> OK      \* not handled by the parallel mapper
     [] ~AllRet(ev, 0)                               -> "call failed"
     [] ~AllSame(ev)                                 -> "input arrays modified"
     [] ~AllGuard(ev)                                -> "write out of array bounds"
     [] \E p \in 1 .. Len(ls) : Len(ls[p].part) # d.cnt[p] -> "length of the mapping"
     [] a.k = "var"                                  -> ClusterFault(d.g, DPart(ls), ev.pwgt)
     [] OTHER                                        -> MapFault(d.g, a, DPart(ls), <<>>, ev.bal)

\* The mapping file: the number of vertices, then (label, value) pairs in any order
DMapSaveFault(d, ev) ==
   LET tok == ev.locs[ev.root].tok
       g   == d.g
       prt == DPart(ev.locs) IN
   CASE ~AllRet(ev, 0)                               -> "call failed"
     [] ~AllSame(ev)                                 -> "input arrays modified"
     [] ev.locs[ev.root].num # 1                     -> "not a sequence of integers"
     [] Len(tok) # 1 + 2 * g.n \/ (Len(tok) > 0 /\ tok[1] # g.n) -> "number of vertices of the file"
     [] {<<tok[2 * i], tok[2 * i + 1]>> : i \in 1 .. g.n} # {<<g.lb[v], prt[v]>> : v \in 1 .. g.n} -> "contents of the file"
     [] OTHER -> OK

(* Statistics: v holds the values asked for by one process, SKIPPED for the
   others.  Averages over weighted targets, and numbers that depend on whether
   processors that only hold weightless vertices are used, are not specified. *)
SKIPPED == -77777
DMapStats(g, a, part) ==
   LET ps   == TLCEval({part[x] : x \in 1 .. g.n})
       ld   == TLCEval([p \in ps |-> LoadOf(g, part, p)])
       m    == Cardinality(ps)
       S    == SumOver(ps, LAMBDA p : ld[p])
       w(p) == WeightOf(a, p)
       rl   == TLCEval([p \in ps |-> (2 * ld[p] + w(p)) \div (2 * w(p))])
       nghb == TLCEval([p \in ps |-> Cardinality({q \in ps : q # p /\ \E x \in 1 .. g.n : part[x] = p /\ \E e \in 1 .. Len(g.nb[x]) : part[g.nb[x][e]] = q})])
       arcs == TLCEval(Flat([x \in 1 .. g.n |-> [e \in 1 .. Len(g.nb[x]) |-> <<IF part[x] = part[g.nb[x][e]] THEN 0 ELSE ADist(a, part[x], part[g.nb[x][e]]), g.ew[x][e]>>]]))
       dmax == FoldLeft(LAMBDA s, t : IF t[1] > s THEN Min2(t[1], 255) ELSE s, -1, arcs)
       at(x) == FoldLeft(LAMBDA s, t : IF Min2(t[1], 255) = x THEN s + t[2] ELSE s, 0, arcs)
   IN [pos |-> m > 0 /\ \A p \in ps : ld[p] > 0, unit |-> \A p \in ps : w(p) = 1,
       tgt |-> ASize(a), nbr |-> m, lmin |-> Min({rl[p] : p \in ps} \cup {IF m = 0 THEN 0 ELSE 1000000000}), lmax |-> Max({rl[p] : p \in ps} \cup {0}),
       S |-> S, lavg |-> IF m = 0 THEN 0 ELSE Ratio(S, m),
       ldlt |-> IF S = 0 THEN 0 ELSE Ratio(SumOver(ps, LAMBDA p : Abs(m * ld[p] - S)), m * S),
       nsum |-> SumOver(ps, LAMBDA p : nghb[p]), nmin |-> Min({nghb[p] : p \in ps} \cup {IF m = 0 THEN 0 ELSE 1000000000}), nmax |-> Max({nghb[p] : p \in ps} \cup {0}),
       dmax |-> dmax, hist |-> [x \in 1 .. dmax + 1 |-> at(x - 1) \div 2],
       total |-> FoldLeft(LAMBDA s, t : s + t[2], 0, arcs) \div 2, dil |-> FoldLeft(LAMBDA s, t : s + t[1], 0, arcs) \div 2,
       exp |-> FoldLeft(LAMBDA s, t : s + t[1] * t[2], 0, arcs) \div 2]
DMapStatFault(g, a, r, v) ==
   LET bad(x, y) == x # SKIPPED /\ x # y IN
   CASE bad(v.tgt, r.tgt)                                           -> "number of processors of the target"
     [] r.pos /\ bad(v.nbr, r.nbr)                                  -> "number of processors used"
     [] r.pos /\ (bad(v.lmin, r.lmin) \/ bad(v.lmax, r.lmax))       -> "smallest or largest load"
     [] r.pos /\ r.unit /\ v.lavg # SKIPPED /\ ~Near(v.lavg, r.lavg) -> "average load"
     [] r.pos /\ r.unit /\ v.ldlt # SKIPPED /\ ~Near(v.ldlt, r.ldlt) -> "load deviation"
     [] r.pos /\ (bad(v.nsum, r.nsum) \/ bad(v.nmin, r.nmin) \/ bad(v.nmax, r.nmax)) -> "numbers of neighbors"
     [] bad(v.dmax, r.dmax)                                         -> "largest distance"
     [] v.ask = 1 /\ v.hist # r.hist                                -> "loads by distance"
     [] bad(v.total, r.total)                                       -> "communication load"
     [] bad(v.dil, r.dil)                                           -> "dilation"
     [] bad(v.exp, r.exp)                                           -> "expansion"
     [] OTHER -> OK
\* The same, printed
DMapViewFault(g, r, v) ==
   LET enbr == ArcNbr(g) \div 2
       cut  == r.total - r.hist[1] IN
   CASE r.pos /\ (v.nbr # r.nbr \/ v.tgt # r.tgt)                   -> "number of processors"
     [] r.pos /\ (v.lmin # r.lmin \/ v.lmax # r.lmax)               -> "smallest or largest load"
     [] r.pos /\ r.unit /\ ~Near(v.lavg, r.lavg)                    -> "average load"
     [] r.pos /\ r.unit /\ ~Near(v.ldlt, r.ldlt)                    -> "load deviation"
     [] r.pos /\ r.unit /\ ~Near(v.lmxa, Ratio(r.lmax * r.nbr, r.S)) -> "largest to average load"
     [] r.pos /\ (v.nmin # r.nmin \/ v.nmax # r.nmax \/ v.nsum # r.nsum) -> "numbers of neighbors"
     [] ~Near(v.dil, Ratio(r.dil, enbr)) \/ v.dilsum # r.dil         -> "dilation"
     [] ~Near(v.exp, IF r.total = 0 THEN 0 ELSE Ratio(r.exp, r.total)) \/ v.expsum # r.exp -> "expansion"
     [] ~Near(v.cut, IF r.total = 0 THEN 0 ELSE Ratio(cut, r.total)) \/ v.cutsum # cut -> "cut"
     [] ~Near(v.dlt, IF r.total = 0 \/ r.dil = 0 THEN 0 ELSE Ratio(r.exp * enbr, r.total * r.dil)) -> "expansion to dilation"
     [] Len(v.hist) # r.dmax + 1 \/ \E x \in 1 .. r.dmax + 1 : ~Near(v.hist[x], Ratio(r.hist[x], r.total)) -> "loads by distance"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Distributed orderings.  Rows are numbered as if the global numbering had no
   hole.  An ordering object is [k, h, perm, mode]: its graph, its direct
   permutation, and how far its separator tree can be trusted. *)
DPerm(ls)     == Flat([p \in 1 .. Len(ls) |-> ls[p].perm])
DNames(g)     == IF g.hl THEN g ELSE [g EXCEPT !.lb = [v \in 1 .. g.n |-> g.b + v - 1]]
DFilePairs(g, f) == {<<DNames(g).lb[v], f[v]>> : v \in 1 .. g.n}

DOrderFault(g, ev) ==
   LET prm == TLCEval(DPerm(ev.locs)) IN
   CASE ~AllRet(ev, 0)  -> "call failed"
     [] ~AllSame(ev)    -> "input arrays modified"
     [] ~AllGuard(ev)   -> "write out of array bounds"
     [] ev.new = 1      -> IF prm # [v \in 1 .. g.n |-> g.b + v - 1] THEN "permutation of an ordering not computed yet" ELSE OK
     [] OTHER           -> PermFault(g.b, g.n, [perm |-> prm, peri |-> InvOf(g.b, g.n, prm)])

DOrderGatherFault(g, prm, mode, ev) ==
   LET l == ev.locs[ev.root]
       r == Complete(g.b, g.n, l.r) IN
   CASE ~AllRet(ev, 0)  -> "call failed"
     [] l.guard # 1     -> "write out of array bounds"
     [] l.hasperm = 1 /\ PermFault(g.b, g.n, r) # OK  -> PermFault(g.b, g.n, r)
     [] l.hasperm = 1 /\ r.perm # prm                 -> "centralized and distributed permutations differ"
     [] l.hasblk = 1 /\ BlockFault(g.b, g.n, r) # OK  -> BlockFault(g.b, g.n, r)
     [] l.hasblk = 1    -> SepFault(g, g.b, [r EXCEPT !.perm = prm], {}, mode)
     [] OTHER -> OK

\* Files: ordering, column blocks, separator tree; r is the centralized ordering gathered before
DOrderFilesFault(g, prm, ev) ==
   LET l   == ev.locs[ev.root]
       r   == l.r
       blk == TLCEval(VertBlock(g, r))
       f(t, x) == Len(t) # 1 + 2 * g.n \/ t[1] # g.n \/ {<<t[2 * i], t[2 * i + 1]>> : i \in 1 .. g.n} # DFilePairs(g, x) IN
   CASE ~AllRet(ev, 0)  -> "call failed"
     [] f(l.tok, prm)   -> "ordering file"
     [] f(l.tokmap, blk) -> "column block file"
     [] f(l.toktree, [v \in 1 .. g.n |-> r.tree[blk[v] + 1]]) -> "separator tree file"
     [] OTHER -> OK

(* The distributed part of the separator tree: [nbr, tree, size], the same on
   all processes.  Sons are numbered in the order of the rows of their subtrees. *)
DTreeSons(t, b, i) == SelectSeq([k \in 1 .. Len(t) |-> k], LAMBDA k : t[k] = i + b - 1)
RECURSIVE DTreeRoot(_, _, _, _)
DTreeRoot(t, b, i, fuel) == IF fuel = 0 THEN FALSE ELSE IF t[i] = -1 THEN TRUE ELSE DTreeRoot(t, b, t[i] - b + 1, fuel - 1)
RECURSIVE DTreeCut(_, _, _, _, _, _, _)
\* first row of the subtree of node i: s; q: row of every vertex, from 0
DTreeCut(g, q, t, sz, sons, i, s) ==
   IF sons[i] = <<>> THEN OK
   ELSE LET k  == sons[i]
            a  == s + sz[k[1]]
            c  == a + sz[k[2]]
        IN  CASE \E v \in 1 .. g.n : q[v] >= s /\ q[v] < a /\ \E e \in 1 .. Len(g.nb[v]) : q[g.nb[v][e]] >= a /\ q[g.nb[v][e]] < c
                   -> "edge between two sons of a distributed separator tree node"
              [] OTHER -> FirstOf(DTreeCut(g, q, t, sz, sons, k[1], s),
                          FirstOf(DTreeCut(g, q, t, sz, sons, k[2], a),
                                  IF Len(k) = 3 THEN DTreeCut(g, q, t, sz, sons, k[3], c) ELSE OK))
DTreeFault(g, prm, ev) ==
   LET ls == ev.locs
       b  == g.b
       t  == ls[1].tree
       sz == ls[1].size
       k  == Len(t)
       sons == TLCEval([i \in 1 .. k |-> DTreeSons(t, b, i)])
       q  == TLCEval([v \in 1 .. g.n |-> prm[v] - b])
   IN
   CASE ~AllRet(ev, 0)   -> "call failed"
     [] ~AllGuard(ev)    -> "write out of array bounds"
     [] \E p \in 1 .. Len(ls) : ls[p].nbr # ls[1].nbr \/ ls[p].tree # t \/ ls[p].size # sz -> "processes disagree on the distributed tree"
     [] ls[1].nbr < 1 \/ k # ls[1].nbr -> "number of distributed nodes"
     [] \E i \in 1 .. k : t[i] # -1 /\ (t[i] < b \/ t[i] >= b + k) -> "father of a distributed node"
     [] Cardinality({i \in 1 .. k : t[i] = -1}) # 1              -> "number of roots of the distributed tree"
     [] \E i \in 1 .. k : ~DTreeRoot(t, b, i, k)                 -> "cycle in the distributed tree"
     [] \E i \in 1 .. k : Len(sons[i]) \notin {0, 2, 3}          -> "number of sons of a distributed node"
     [] \E i \in 1 .. k : t[i] = -1 /\ sz[i] # g.n               -> "size of the root of the distributed tree"
     [] \E i \in 1 .. k : sons[i] # <<>> /\ sz[i] # SumSeq([x \in 1 .. Len(sons[i]) |-> sz[sons[i][x]]]) -> "size of a distributed node"
     [] OTHER -> DTreeCut(g, q, t, sz, sons, CHOOSE i \in 1 .. k : t[i] = -1, 0)

-----------------------------------------------------------------------------
D(o, h) == o[h].d
DObj(d) == [k |-> "dgraph", d |-> d]

DistContract(ev, o) ==
   LET ls == ev.locs
       np == Len(ls) IN
   CASE ev.op = "DBuild" -> IF ~AllRet(ev, 0) THEN "dgraphBuild failed" ELSE OK
     [] ev.op = "DRefuse" ->                     \* dgraphBuild refused the data on some process
          (IF \E p \in 1 .. np : ls[p].ret = 0 THEN "processes disagree on the return value"
           ELSE IF DVerdict(ls) = "good" THEN "consistent graph refused" ELSE OK)
     [] ev.op = "DCheck" ->
          LET v == o[ev.h].verdict IN
          (CASE v = "good" /\ ~AllRet(ev, 0)                       -> "consistent graph refused"
             [] v = "bad" /\ \E p \in 1 .. np : ls[p].ret = 0      -> "inconsistent graph accepted"
             [] ~AllRet(ev, ls[1].ret)                             -> "processes disagree on the return value"
             [] ~AllSame(ev)                                       -> "input arrays modified"
             [] OTHER -> OK)
     [] ev.op = "DCheckMade" -> IF ~AllRet(ev, 0) THEN "consistent graph refused" ELSE OK
     [] ev.op = "DObserve" -> FirstOf(DObserveFault(D(o, ev.h), ls), IF ev.gst = 1 THEN GhostFault(D(o, ev.h), ls) ELSE OK)
     [] ev.op = "DGhst" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] OTHER -> OK)
     [] ev.op = "DHalo" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllGuard(ev)       -> "write out of array bounds"
             [] OTHER -> HaloFault(D(o, ev.h), ls))
     [] ev.op = "DStat" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] \E p \in 1 .. np : DStatFault(D(o, ev.h).g, ls[p]) # OK ->
                  DStatFault(D(o, ev.h).g, ls[CHOOSE p \in 1 .. np : DStatFault(D(o, ev.h).g, ls[p]) # OK])
             [] OTHER -> OK)
     [] ev.op = "DGrid" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] OTHER -> Grid3Fault(ev, ls))
     [] ev.op = "DGather" ->                     \* raw is <<>> on the processes that are not roots
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] OTHER ->
                LET bad == {p \in 1 .. np : ls[p].root = 1 /\ CentralFault(D(o, ev.h), ls[p].raw) # OK} IN
                CASE bad # {} -> CentralFault(D(o, ev.h), ls[CHOOSE p \in bad : TRUE].raw)
                  [] (\E p \in 1 .. np : ls[p].chk # 0) /\ GraphFault(Central(D(o, ev.h))) \in {OK, "non-positive edge load"} -> "consistent graph refused"
                  [] OTHER -> OK)
     [] ev.op = "DScatter" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] OTHER -> DEquivFault(Spread(AbsGraph(ev.raw), np), ls))
     [] ev.op = "DInduce" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] OTHER -> DEquivFault(DInduce(D(o, ev.h), FlatPart(ls), ev.val), ls))
     [] ev.op = "DRedist" ->
          LET d == D(o, ev.h) IN
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] \E p \in 1 .. np : ls[p].mx # ls[p].n + ev.vdlt -> "room for extra vertices"
             [] OTHER -> DEquivFault(Redist(d, FlatPart(ls), IF ev.perm = 1 THEN Flat([p \in 1 .. np |-> ls[p].key]) ELSE [v \in 1 .. d.g.n |-> v], np), ls))
     [] ev.op = "DSave" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] \E p \in 1 .. np : ls[p].num # 1 -> "not a sequence of integers"
             [] OTHER -> DSaveFault(D(o, ev.h), [p \in 1 .. np |-> ls[p].tok]))
     [] ev.op = "DLoadFrag" ->
          LET ts == [p \in 1 .. np |-> ls[p].tok]
              ok == FragsOk(ts) IN
          DLoadFault(IF (\A p \in 1 .. np : Len(ts[p]) >= 9) /\ (\E p \in 1 .. np : ts[p][9] # ts[1][9]) THEN AnyGraph
                     ELSE IF ok THEN GraphOfFile(Joined(ts), ev.b, ev.fl) ELSE BadGraph, IF ok THEN [p \in 1 .. np |-> ts[p][6]] ELSE <<>>, ev)
     [] ev.op = "DGrow" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] ~AllGuard(ev)       -> "write out of array bounds"
             [] OTHER -> GrowFault(D(o, ev.h), ls, ev.dist))
     [] ev.op = "DBand" ->
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] ~AllGuard(ev)       -> "write out of array bounds"
             [] OTHER -> BandFault(D(o, ev.h), ls, ev.dist))
     [] ev.op = "DCoarsen" -> DCoarsenFault(D(o, ev.h), ev)
     [] ev.op = "DCoarsenN" ->                   \* no multinode array asked for
          (CASE \E p \in 1 .. np : ls[p].ret \notin {0, 1}            -> "call failed"
             [] ~AllRet(ev, ls[1].ret)                               -> "processes disagree on the return value"
             [] ~AllSame(ev)                                         -> "input arrays modified"
             [] \E p \in 1 .. np : ls[p].chk # 0                    -> "coarse graph refused by dgraphCheck"
             [] OTHER -> OK)
     [] ev.op = "DLoadCent" -> DLoadFault(GraphOfFile(ev.tok, ev.b, ev.fl), <<>>, ev)
     [] ev.op = "DMap"     -> DMapFault(D(o, ev.h), ev)
     [] ev.op = "DMapGrid" -> IF ~AllRet(ev, 0) THEN "call failed" ELSE GridFault(D(o, ev.h).g, ev.rc, ev.k, DPart(ls))
     [] ev.op = "DMapSave" -> DMapSaveFault(D(o, ev.h), ev)
     [] ev.op = "DMapStat" ->
          LET g == D(o, ev.h).g IN
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] \E p \in 1 .. np : ls[p].v.guard # 1 -> "write out of array bounds"
             [] ArcNbr(g) = 0       -> OK
             [] OTHER -> LET r == TLCEval(DMapStats(g, ev.a, DPart(ls)))
                             f == TLCEval([p \in 1 .. np |-> DMapStatFault(g, ev.a, r, ls[p].v)]) IN
                         (IF \E p \in 1 .. np : f[p] # OK THEN f[CHOOSE p \in 1 .. np : f[p] # OK] ELSE OK))
     [] ev.op = "DMapView" ->
          LET g == D(o, ev.h).g IN
          (CASE ~AllRet(ev, 0)      -> "call failed"
             [] ~AllSame(ev)        -> "input arrays modified"
             [] ArcNbr(g) = 0       -> OK
             [] OTHER -> DMapViewFault(g, TLCEval(DMapStats(g, ev.a, DPart(ls))), ls[ev.root].v))
     [] ev.op = "DOrder"       -> DOrderFault(D(o, ev.h).g, ev)
     [] ev.op = "DOrderGather" -> DOrderGatherFault(D(o, o[ev.c].h).g, o[ev.c].perm, o[ev.c].mode, ev)
     [] ev.op = "DOrderFiles"  -> DOrderFilesFault(D(o, o[ev.c].h).g, o[ev.c].perm, ev)
     [] ev.op = "DOrderTree"   -> DTreeFault(D(o, o[ev.c].h).g, o[ev.c].perm, ev)

DistEffect(ev, o) ==
   CASE ev.op = "DBuild" -> LET v == DVerdict(ev.locs) IN
                            Put(o, ev.h, [k |-> "dgraph", verdict |-> v, d |-> IF v # "bad" THEN DAbs(ev.locs, TRUE) ELSE <<>>])
     [] ev.op = "DGrid"  -> Put(o, ev.h, DObj(DAbs(ev.locs, FALSE)))
     [] ev.op \in {"DScatter", "DInduce", "DRedist", "DBand"} -> Put(o, ev.c, DObj(DAbs(ev.locs, FALSE)))
     [] ev.op \in {"DCoarsen", "DCoarsenN"} -> IF AllRet(ev, 0) /\ ev.fold = 0 THEN Put(o, ev.c, DObj(DAbs(ev.locs, FALSE))) ELSE o
     [] ev.op \in {"DLoadFrag", "DLoadCent"} -> IF AllRet(ev, 0) /\ DShapeOk(ev.locs) THEN Put(o, ev.c, DObj(DAbs(ev.locs, FALSE))) ELSE o
     [] ev.op = "DOrder" -> IF AllRet(ev, 0) THEN Put(o, ev.c, [k |-> "dorder", h |-> ev.h, perm |-> DPerm(ev.locs), mode |-> ev.sep]) ELSE o
     [] OTHER -> o

DistOpNames == {"DBuild", "DRefuse", "DCheck", "DCheckMade", "DObserve", "DGhst", "DHalo", "DStat", "DGrid",
                "DGather", "DScatter", "DInduce", "DRedist", "DSave", "DLoadFrag", "DLoadCent", "DGrow", "DBand", "DCoarsen", "DCoarsenN",
                "DMap", "DMapGrid", "DMapSave", "DMapStat", "DMapView",
                "DOrder", "DOrderGather", "DOrderFiles", "DOrderTree"}
=============================================================================
