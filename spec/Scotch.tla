------------------------------- MODULE Scotch -------------------------------
(* The state machine.  The state is a set of named abstract objects; each API *)
(* call is an action.  Contract(ev, o) is the guard of the action: the first  *)
(* clause of the call's contract violated by the recorded arguments/results,  *)
(* and Effect(ev, o) its effect on the objects.                               *)
EXTENDS Random

G(o, h) == o[h].g
Del(o, h) == [x \in DOMAIN o \ {h} |-> o[x]]
GObj(g) == [k |-> "graph", g |-> g]

UnBase(s, b) == [i \in 1 .. Len(s) |-> s[i] - b + 1]
ArcVals(g) == Flat(g.ew)

----------------------------------------------------------------------------
GraphContract(ev, o) ==
   CASE ev.op = "GraphBuild"   -> IF ev.ret # 0 THEN "graphBuild failed" ELSE OK
     [] ev.op = "GraphCheck"   -> IF ev.same # 1 THEN "input arrays modified" ELSE GraphCheckFault(o[ev.h].raw, ev.ret)
     [] ev.op = "GraphRefuse"    -> IF RawVerdict(ev.raw) = "good" THEN "consistent graph refused" ELSE OK
     [] ev.op = "GraphCheckMade" -> IF GraphFault(G(o, ev.h)) \in {OK, "non-positive edge load"} /\ ev.ret # 0 THEN "consistent graph refused" ELSE OK
     [] ev.op = "GraphObserve" -> ObserveFault(G(o, ev.h), ev.raw)
     [] ev.op = "GraphBase"    -> GraphBaseFault(G(o, ev.h), ev.ret)
     [] ev.op = "GraphInduce"  ->
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.same # 1                       -> "input arrays modified"
             [] OTHER -> EquivFault(Induce(G(o, ev.h), UnBase(ev.list, G(o, ev.h).b)), ev.raw))
     [] ev.op = "GraphCoarsen" ->
          LET g == G(o, ev.h) IN
          (CASE ev.same # 1                       -> "input arrays modified"
             [] ev.guard # 1                      -> "write out of array bounds"
             [] CoarRetFault(g.n, ArcNbr(g), IF ev.ret = 0 THEN ev.raw.n ELSE 0, ev.min, ev.permil, ev.ret) # OK
                   -> CoarRetFault(g.n, ArcNbr(g), IF ev.ret = 0 THEN ev.raw.n ELSE 0, ev.min, ev.permil, ev.ret)
             [] ev.ret = 0 -> CoarsenFault(g, ev.mult, ev.raw, ev.wfc, ev.nomerge = 1)
             [] OTHER -> OK)
     [] ev.op = "GraphMatch" ->
          LET g == G(o, ev.h) IN
          (CASE ev.same # 1                       -> "input arrays modified"
             [] ev.guard # 1                      -> "write out of array bounds"
             [] CoarRetFault(g.n, ArcNbr(g), ev.cn, ev.min, ev.permil, ev.ret) # OK -> CoarRetFault(g.n, ArcNbr(g), ev.cn, ev.min, ev.permil, ev.ret)
             [] ev.ret = 0 ->
                  LET m == UnBase(ev.mate, g.b)
                      f == MateFault(g, m, ev.nomerge = 1)
                  IN  IF f # OK THEN f
                      ELSE IF ev.cn # MateCount(m) THEN "coarse vertex number" ELSE OK
             [] OTHER -> OK)
     [] ev.op = "GraphCoarsenBuild" ->
          LET g == G(o, ev.h)
              m == UnBase(ev.mate, g.b) IN
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.same # 1                       -> "input arrays modified"
             [] ev.guard # 1                      -> "write out of array bounds"
             [] CoarsenFault(g, ev.mult, ev.raw, ev.wfc, FALSE) # OK -> CoarsenFault(g, ev.mult, ev.raw, ev.wfc, FALSE)
             [] \E c \in 1 .. ev.raw.n : m[ev.mult[2 * c - 1] - g.b + 1] # ev.mult[2 * c] - g.b + 1 -> "multinodes do not follow the mating"
             [] \E c \in 1 .. ev.raw.n : ev.fc[ev.mult[2 * c - 1] - g.b + 1] # c + g.b - 1
                                       \/ ev.fc[ev.mult[2 * c] - g.b + 1] # c + g.b - 1             -> "fine to coarse array"
             [] OTHER -> OK)
     [] ev.op = "GraphColor" ->
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.same # 1                       -> "input arrays modified"
             [] ev.guard # 1                      -> "write out of array bounds"
             [] OTHER -> ColorFault(G(o, ev.h), ev.col, ev.nbr))
     [] ev.op = "GraphStat" ->
          LET g == G(o, ev.h)
              dg == [v \in 1 .. g.n |-> Deg(g, v)]
              el == ArcVals(g) IN
          (CASE g.n = 0 -> IF ev.velosum # 0 \/ ev.edlosum # 0 THEN "empty graph statistics" ELSE OK
             [] ev.velomin # SeqMin(g.vw) \/ ev.velomax # SeqMax(g.vw) \/ ev.velosum # SumSeq(g.vw) -> "vertex load statistics"
             [] ~Near(ev.veloavg, AvgOf(g.vw)) \/ ~Near(ev.velodlt, DltOf(g.vw))                    -> "vertex load average or delta"
             [] ev.degrmin # SeqMin(dg) \/ ev.degrmax # SeqMax(dg)                                  -> "degree statistics"
             [] ~Near(ev.degravg, AvgOf(dg)) \/ ~Near(ev.degrdlt, DltOf(dg))                        -> "degree average or delta"
             [] el # <<>> /\ (ev.edlomin # SeqMin(el) \/ ev.edlomax # SeqMax(el) \/ 2 * ev.edlosum # SumSeq(el)) -> "edge load statistics"
             [] el = <<>> /\ ev.edlosum # 0                                                         -> "edge load sum of an arcless graph"
             [] el # <<>> /\ (~Near(ev.edloavg, AvgOf(el)) \/ ~Near(ev.edlodlt, DltOf(el)))         -> "edge load average or delta"
             [] OTHER -> OK)
     [] ev.op = "GraphDiam" ->
          LET g == G(o, ev.h) IN
          (CASE g.n = 0                              -> IF ev.ret # 0 THEN "diameter of the empty graph" ELSE OK
             [] Cardinality(Component(g, 1)) # g.n  -> IF ev.ret # NUMMAX THEN "disconnected graph not told" ELSE OK
             [] ev.ret = NUMMAX                      -> "connected graph said disconnected"
             [] OTHER ->
                LET lv  == LeaveCost(g)
                    ecc == TLCEval([v \in 1 .. g.n |-> Ecc(g, lv, v)]) IN
                CASE ~\E v \in 1 .. g.n : ecc[v] = ev.ret -> "not the eccentricity of a vertex"
                  [] 2 * ev.ret + MaxSeq(lv, 0) < MaxSeq(ecc, 0)          -> "below half the diameter"
                  [] OTHER -> OK)

GraphEffect(ev, o) ==
   CASE ev.op = "GraphBuild"   -> Put(o, ev.h, [k |-> "graph", raw |-> ev.raw,
                                                g |-> IF RawShapeOk(ev.raw) THEN AbsGraph(ev.raw) ELSE <<>>])
     [] ev.op = "GraphBase"    -> Put(o, ev.h, GObj(Rebase(G(o, ev.h), ev.b)))
     [] ev.op = "GraphInduce"  -> Put(o, ev.c, GObj(AbsGraph(ev.raw)))
     [] ev.op \in {"GraphCoarsen", "GraphCoarsenBuild"} -> IF ev.ret = 0 THEN Put(o, ev.c, GObj(AbsGraph(ev.raw))) ELSE o
     [] OTHER -> o

GraphOpNames == {"GraphBuild", "GraphCheck", "GraphObserve", "GraphBase", "GraphInduce", "GraphCoarsen",
                 "GraphRefuse", "GraphCheckMade", "GraphMatch", "GraphCoarsenBuild", "GraphColor", "GraphStat", "GraphDiam"}

----------------------------------------------------------------------------
(* Files *)
IoContract(ev, o) ==
   CASE ev.op = "GraphSave" ->
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.same # 1                       -> "input arrays modified"
             [] ev.num # 1                        -> "not a sequence of integers"
             [] ~IsFileOf(G(o, ev.h), ev.tok)     -> "file contents"
             [] OTHER -> OK)
     [] ev.op = "GraphLoad"  -> LoadFault(GraphOfFile(ev.tok, ev.b, ev.fl), ev.ret, ev.raw)
     [] ev.op = "ChacoSave"  ->
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.num # 1                        -> "not lines of integers"
             [] ~IsChacoOf(G(o, ev.h), ev.lines)  -> "file contents"
             [] OTHER -> OK)
     [] ev.op = "ChacoLoad"  -> LoadFault(GraphOfChaco(ev.lines), ev.ret, ev.raw)
     [] ev.op = "MmktSave"   ->
          (CASE ev.ret # 0                        -> "call failed"
             [] ev.num # 1                        -> "not a Matrix Market file"
             [] OTHER -> MmktOfFault(G(o, ev.h), ev.n, ev.cols, ev.ents))
     [] ev.op = "MmktLoad"   -> MmktFault(ev.n, ev.cols, ev.ents, ev.b, ev.ret, ev.raw)
     [] ev.op = "MmktTrunc"  -> IF ev.ret = 0 THEN "truncated file accepted" ELSE OK
     [] ev.op = "GeomSave"   ->
          LET g == G(o, ev.h) IN
          (CASE ev.ret # 0                        -> "call failed"
             [] ~IsFileOf(g, ev.tok)              -> "graph file contents"
             [] ev.dim # o[ev.h].dim \/ ev.cnt # g.n -> "geometry header"
             [] ev.lines # GeomOf(g, o[ev.h].crd) -> "geometry contents"
             [] OTHER -> OK)
     [] ev.op = "GeomLoad"   ->
          LET g == GraphOfFile(ev.tok, -1, 0)
              f == LoadFault(g, ev.ret, ev.raw) IN
          (CASE g.n > 0 /\ GeomBad(g, ev.lines) -> IF ev.ret = 0 THEN "incomplete or ambiguous geometry accepted" ELSE OK
             [] f # OK                            -> f
             [] ev.dimgot # ev.dim                -> "dimension"
             [] g.n > 0 /\ ev.crd # GeomFor(g, ev.lines) -> "coordinates"
             [] OTHER -> OK)

IoEffect(ev, o) ==
   CASE ev.op \in {"GraphLoad", "ChacoLoad", "MmktLoad"} ->
          IF ev.ret = 0 /\ RawShapeOk(ev.raw) THEN Put(o, ev.h, GObj(AbsGraph(ev.raw))) ELSE o
     [] ev.op = "GeomLoad" -> IF ev.ret = 0 /\ RawShapeOk(ev.raw) THEN Put(o, ev.h, [k |-> "graph", g |-> AbsGraph(ev.raw), dim |-> ev.dim, crd |-> ev.crd]) ELSE o
     [] OTHER -> o

IoOpNames == {"GraphSave", "GraphLoad", "ChacoSave", "ChacoLoad", "MmktSave", "MmktLoad", "MmktTrunc", "GeomSave", "GeomLoad"}

----------------------------------------------------------------------------
(* Target architectures *)
A(o, h) == o[h].a
ArchContract(ev, o) ==
   CASE ev.op = "ArchMake" -> IF ev.ret # 0 THEN "call failed" ELSE OK
     [] ev.op = "ArchInfo" ->
          (CASE ev.size # ASize(A(o, ev.h)) -> "architecture size"
             [] ev.var # 0                  -> "said to be variable-sized"
             [] ev.name # ArchName(A(o, ev.h)) -> "architecture name"
             [] OTHER -> OK)
     [] ev.op = "ArchTree" ->
          LET a  == A(o, ev.h)
              f1 == TreeFault(a, ev.T)
              f2 == TermFault(a, ev.tm, ev.dm, ev.dl, ev.ov)
          IN  IF f1 # OK THEN f1 ELSE IF f2 # OK THEN f2 ELSE EstFault(a, ev.pr)
     [] ev.op = "ArchSave" ->
          (CASE ev.ret # 0 -> "call failed"
             [] A(o, ev.h).k # "deco" /\ ev.words # AFile(A(o, ev.h)) -> "file contents"
             [] OTHER -> OK)
     [] ev.op = "ArchGraph" -> IF ev.ret # 0 THEN "call failed" ELSE IF ev.same # 1 THEN "input arrays modified" ELSE OK
     [] ev.op = "ArchReload" -> IF ev.ret # 0 THEN "saved architecture refused" ELSE OK
     [] ev.op = "ArchResave" -> IF ev.ret # 0 THEN "call failed" ELSE IF ev.same # 1 THEN "saved twice, different contents" ELSE OK
     [] ev.op = "ArchRefuse" -> IF ev.ret = 0 THEN "malformed file accepted" ELSE OK

\* Decomposition-defined architecture of (a subset lst of the vertices of) a graph
GraphArch(g, lst, ver) ==
   LET n == Len(lst) IN
   [k |-> "deco",
    lb |-> [i \in 1 .. n |-> IF ver = 0 THEN lst[i] + g.b - 1 ELSE i - 1],
    w  |-> [i \in 1 .. n |-> g.vw[lst[i]]],
    dm |-> IF ver = 0 /\ ~g.he
           THEN TLCEval([i \in 1 .. n |-> LET d == TLCEval(DistFrom(g, [v \in 1 .. g.n |-> 0], lst[i])) IN TLCEval([j \in 1 .. n |-> d[lst[j]]])])
           ELSE <<>>]
ArchEffect(ev, o) ==
   CASE ev.op = "ArchMake"  -> Put(o, ev.h, [k |-> "arch", a |-> ev.a])
     [] ev.op = "ArchGraph" -> Put(o, ev.h, [k |-> "arch", a |-> GraphArch(G(o, ev.g), ev.lst, ev.ver)])
     [] OTHER -> o
ArchOpNames == {"ArchMake", "ArchGraph", "ArchReload", "ArchResave", "ArchInfo", "ArchTree", "ArchSave", "ArchRefuse"}

----------------------------------------------------------------------------
(* Mappings *)
MapContract(ev, o) ==
   CASE ev.op = "Map" ->
          (CASE ev.ret # 0   -> "call failed"
             [] ev.same # 1  -> "input arrays modified"
             [] ev.guard # 1 -> "write out of array bounds"
             [] OTHER -> MapFault(G(o, ev.h), A(o, ev.a), ev.part, ev.fix, ev.bal))
     [] ev.op = "MapGrid" ->
          (CASE ev.ret # 0   -> "call failed"
             [] OTHER -> FirstOf(MapFault(G(o, ev.h), [k |-> "cmplt", n |-> ev.k], ev.part, <<>>, ev.bal), GridFault(G(o, ev.h), ev.rc, ev.k, ev.part)))
     [] ev.op = "Cluster" ->
          (CASE ev.ret # 0   -> "call failed"
             [] ev.same # 1  -> "input arrays modified"
             [] ev.guard # 1 -> "write out of array bounds"
             [] OTHER -> ClusterFault(G(o, ev.h), ev.part, ev.pwgt))
     [] ev.op = "Ovl" ->
          (CASE ev.ret # 0   -> "call failed"
             [] ev.same # 1  -> "input arrays modified"
             [] ev.guard # 1 -> "write out of array bounds"
             [] OTHER -> OvlFault(G(o, ev.h), ev.k, ev.part))
MapOpNames == {"Map", "MapGrid", "Cluster", "Ovl"}

-----------------------------------------------------------------------------
(* Orderings.  has: which of the results were asked for (p: direct and i:
   inverse permutation, b: column blocks); all: whether all vertices were
   ordered, else only those of lst. *)
OrdContract(ev, o) ==
   CASE ev.op = "Order" ->
          (LET g == G(o, ev.h)
               r == Complete(g.b, g.n, ev.r)
           IN
           CASE ev.ret # 0   -> "call failed"
             [] ev.same # 1  -> "input arrays modified"
             [] ev.guard # 1 -> "write out of array bounds"
             [] ev.chk # 0   -> "computed ordering refused by the ordering check"
             [] ev.hasperm = 1 /\ PermFault(g.b, g.n, r) # OK -> PermFault(g.b, g.n, r)
             [] ev.hasblk = 1 /\ BlockFault(g.b, g.n, r) # OK    -> BlockFault(g.b, g.n, r)
             [] ev.hasperm = 1 /\ ev.all = 0 /\ ListFault(g, g.b, r, ev.lst) # OK -> ListFault(g, g.b, r, ev.lst)
             [] ev.hasperm = 1 /\ ev.hasblk = 1 /\ SepFault(g, g.b, r, IF ev.all = 1 THEN {} ELSE (1 .. g.n) \ {ev.lst[i] : i \in 1 .. Len(ev.lst)}, ev.sep) # OK
                  -> SepFault(g, g.b, r, IF ev.all = 1 THEN {} ELSE (1 .. g.n) \ {ev.lst[i] : i \in 1 .. Len(ev.lst)}, ev.sep)
             [] ev.fill # 0 /\ FillExcess(g, g.b, r, ev.fill) -> "fill-in of a grid far from the best one"
             [] OTHER -> OK)
OrdOpNames == {"Order"}

----------------------------------------------------------------------------
Contract(ev, o) ==
   CASE ev.op \in GraphOpNames -> GraphContract(ev, o)
     [] ev.op \in IoOpNames    -> IoContract(ev, o)
     [] ev.op \in ArchOpNames  -> ArchContract(ev, o)
     [] ev.op \in MapOpNames   -> MapContract(ev, o)
     [] ev.op \in OrdOpNames   -> OrdContract(ev, o)
     [] ev.op \in ViewOpNames  -> ViewContractOn(ev, G(o, ev.h), IF ev.a = "" THEN <<>> ELSE A(o, ev.a))
     [] ev.op \in MeshOpNames  -> MeshContract(ev, o)
     [] ev.op \in DistOpNames  -> DistContract(ev, o)
     [] ev.op \in StratOpNames -> StratContract(ev, o)
     [] ev.op \in ThreadOpNames -> ThreadContract(ev, o)
     [] ev.op \in RndOpNames -> RndContract(ev, o)
     [] ev.op = "Crash"        -> "crash or hang: " \o ev.why \o " in " \o ev.during
     [] OTHER                  -> "unknown operation"

Effect(ev, o) ==
   CASE ev.op \in GraphOpNames -> GraphEffect(ev, o)
     [] ev.op \in IoOpNames    -> IoEffect(ev, o)
     [] ev.op \in ArchOpNames  -> ArchEffect(ev, o)
     [] ev.op \in MeshOpNames  -> MeshEffect(ev, o)
     [] ev.op \in DistOpNames  -> DistEffect(ev, o)
     [] ev.op \in StratOpNames -> StratEffect(ev, o)
     [] ev.op \in ThreadOpNames -> ThreadEffect(ev, o)
     [] ev.op \in RndOpNames -> RndEffect(ev, o)
     [] OTHER                  -> o
=============================================================================
