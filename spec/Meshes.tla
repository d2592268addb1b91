------------------------------- MODULE Meshes -------------------------------
(* Meshes: bipartite graphs of elements and nodes, numbered in two contiguous *)
(* ranges.  A raw mesh is a raw graph r (without vertex and edge loads) with    *)
(* [eb, nb, en, nn]: first indices and numbers of elements and nodes, and       *)
(* [vel, vnl]: element and node loads (or <<>>).                                *)
EXTENDS GraphIO, Ordering, Views

Put(o, h, v) == (h :> v) @@ o

IsEl(r, v) == v > r.eb - r.b /\ v <= r.eb - r.b + r.en
MVerts(r)  == 1 .. r.en + r.nn
MRange(r)  == /\ r.en >= 0 /\ r.nn >= 0 /\ r.eb >= 0 /\ r.nb >= 0
              /\ r.eb + r.en = r.nb \/ r.nb + r.nn = r.eb
              /\ r.b = Min2(r.eb, r.nb)

\* First violated clause of well-formedness
MeshFault(r) ==
   IF ~MRange(r) THEN "ranges of elements and nodes" ELSE
   IF ~RawShapeOk(r) THEN "vertex arrays" ELSE
   LET g == TLCEval(AbsGraph(r)) IN
   CASE \E v \in MVerts(r) : \E k \in 1 .. Len(g.nb[v]) : g.nb[v][k] < 1 \/ g.nb[v][k] > g.n -> "arc end out of range"
     [] \E v \in MVerts(r) : \E k \in 1 .. Len(g.nb[v]) : IsEl(r, v) = IsEl(r, g.nb[v][k])   -> "arc between vertices of the same kind"
     [] \E v \in MVerts(r) : Cardinality({g.nb[v][k] : k \in 1 .. Len(g.nb[v])}) # Len(g.nb[v]) -> "duplicate arc"
     [] LET as == PairSet(g) IN as # {<<a[2], a[1]>> : a \in as}                               -> "asymmetric arcs"
     [] \E i \in 1 .. Len(r.vel) : r.vel[i] < 1                                                -> "element load"
     [] \E i \in 1 .. Len(r.vnl) : r.vnl[i] < 1                                                -> "node load"
     [] r.e # ArcNbr(g)                                                                        -> "number of arcs"
     [] OTHER -> OK

\* Abstract mesh: e[i] is the list of nodes (1-based) of element i, and n[j] the one of elements of node j
AbsMesh(r) ==
   LET g == AbsGraph(r)
       es == r.eb - r.b
       ns == r.nb - r.b
   IN [b |-> r.b, eb |-> r.eb, nb |-> r.nb, en |-> r.en, nn |-> r.nn,
       el |-> TLCEval([i \in 1 .. r.en |-> TLCEval([k \in 1 .. Len(g.nb[i + es]) |-> g.nb[i + es][k] - ns])]),
       nd |-> TLCEval([i \in 1 .. r.nn |-> TLCEval([k \in 1 .. Len(g.nb[i + ns]) |-> g.nb[i + ns][k] - es])]),
       ew |-> IF r.vel = <<>> THEN [i \in 1 .. r.en |-> 1] ELSE r.vel,
       nw |-> IF r.vnl = <<>> THEN [i \in 1 .. r.nn |-> 1] ELSE r.vnl,
       hv |-> r.vel # <<>> \/ r.vnl # <<>>, hl |-> r.lb # <<>>,
       elb |-> IF r.lb = <<>> THEN [i \in 1 .. r.en |-> r.b + i - 1] ELSE [i \in 1 .. r.en |-> r.lb[i + es]],
       nlb |-> IF r.lb = <<>> THEN [i \in 1 .. r.nn |-> r.b + i - 1] ELSE [i \in 1 .. r.nn |-> r.lb[i + ns]]]

MArcs(m) == FoldLeft(LAMBDA a, s : a + Len(s), 0, m.el) + FoldLeft(LAMBDA a, s : a + Len(s), 0, m.nd)
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
SameMesh(m, x) ==
   /\ m.b = x.b /\ m.eb = x.eb /\ m.nb = x.nb /\ m.en = x.en /\ m.nn = x.nn
   /\ \A i \in 1 .. m.en : Len(m.el[i]) = Len(x.el[i]) /\ SetOf(m.el[i]) = SetOf(x.el[i])
   /\ \A i \in 1 .. m.nn : Len(m.nd[i]) = Len(x.nd[i]) /\ SetOf(m.nd[i]) = SetOf(x.nd[i])
   /\ m.ew = x.ew /\ m.nw = x.nw /\ m.elb = x.elb /\ m.nlb = x.nlb

-----------------------------------------------------------------------------
(* Files: 1 / elements nodes arcs / first element, first node, flag / vertices  *)
(* in the order of their indices, ends being labels, or ranks in their kind.     *)
MLine(m, lb, w, ends) == (IF m.hl THEN <<lb>> ELSE <<>>) \o (IF m.hv THEN <<w>> ELSE <<>>) \o <<Len(ends)>> \o ends
MElLines(m) == Flat([i \in 1 .. m.en |-> MLine(m, m.elb[i], m.ew[i], [k \in 1 .. Len(m.el[i]) |-> m.nlb[m.el[i][k]]])])
MNdLines(m) == Flat([i \in 1 .. m.nn |-> MLine(m, m.nlb[i], m.nw[i], [k \in 1 .. Len(m.nd[i]) |-> m.elb[m.nd[i][k]]])])
MeshFile(m) == <<1, m.en, m.nn, MArcs(m), m.eb, m.nb, (IF m.hl THEN 100 ELSE 0) + (IF m.hv THEN 1 ELSE 0)>>
               \o (IF m.eb <= m.nb THEN MElLines(m) \o MNdLines(m) ELSE MNdLines(m) \o MElLines(m))
\* The presence of arrays without elements cannot be observed
IsMeshFile(m, t) == IF m.en + m.nn = 0 THEN Len(t) = 7 /\ SubSeq(t, 1, 6) = SubSeq(MeshFile(m), 1, 6) ELSE t = MeshFile(m)

MeshOfFile(t, b) ==
   IF Len(t) < 7 \/ t[1] # 1 \/ t[2] < 0 \/ t[3] < 0 \/ t[4] < 0 \/ t[5] < 0 \/ t[6] < 0 \/ t[7] < 0 \/ t[7] > 111 THEN BadGraph ELSE
   IF t[2] > Len(t) \/ t[3] > Len(t) THEN BadGraph ELSE
   IF ~(t[5] + t[2] = t[6] \/ t[6] + t[3] = t[5]) THEN BadGraph ELSE
   LET en == t[2]
       nn == t[3]
       fb == Min2(t[5], t[6])
       rb == IF b = -1 THEN fb ELSE b
       hl == (t[7] \div 100) % 10 # 0
       he == (t[7] \div 10) % 10 # 0
       hv == t[7] % 10 # 0
       ef == t[5] + t[2] = t[6]
       pv == TLCEval(ParseVerts(<<0, 0, 0, 0, 0>> \o SubSeq(t, 8, Len(t)), en + nn, hl, hv, he))
   IN
   IF ~pv.ok THEN BadGraph ELSE
   IF FoldLeft(LAMBDA x, s : x + Len(s), 0, pv.nb) # t[4] THEN BadGraph ELSE
   IF hv /\ (\E i \in 1 .. en + nn : pv.vw[i] < 1) THEN BadGraph ELSE
   LET es  == IF ef THEN 0 ELSE nn
       ns  == IF ef THEN en ELSE 0
       elb == [i \in 1 .. en |-> IF hl THEN pv.lb[i + es] ELSE fb + i - 1]
       nlb == [i \in 1 .. nn |-> IF hl THEN pv.lb[i + ns] ELSE fb + i - 1]
       eset == SetOf(elb)
       nset == SetOf(nlb)
   IN
   IF hl /\ (\E i \in 1 .. en + nn : pv.lb[i] < 0) THEN BadGraph ELSE
   IF Cardinality(eset) # en \/ Cardinality(nset) # nn THEN BadGraph ELSE
   IF \E i \in 1 .. en : ~(SetOf(pv.nb[i + es]) \subseteq nset) THEN BadGraph ELSE
   IF \E i \in 1 .. nn : ~(SetOf(pv.nb[i + ns]) \subseteq eset) THEN BadGraph ELSE
   LET ei == TLCEval([x \in eset |-> CHOOSE i \in 1 .. en : elb[i] = x])
       ni == TLCEval([x \in nset |-> CHOOSE i \in 1 .. nn : nlb[i] = x])
       el == TLCEval([i \in 1 .. en |-> [k \in 1 .. Len(pv.nb[i + es]) |-> ni[pv.nb[i + es][k]]]])
       nd == TLCEval([i \in 1 .. nn |-> [k \in 1 .. Len(pv.nb[i + ns]) |-> ei[pv.nb[i + ns][k]]]])
   IN
   IF \/ \E i \in 1 .. en : Cardinality(SetOf(el[i])) # Len(el[i])
      \/ \E i \in 1 .. nn : Cardinality(SetOf(nd[i])) # Len(nd[i])
      \/ UNION {{<<i, x>> : x \in SetOf(el[i])} : i \in 1 .. en} # UNION {{<<x, i>> : x \in SetOf(nd[i])} : i \in 1 .. nn}
   THEN [bad |-> FALSE]                            \* readable but inconsistent: may be refused or not
   ELSE [b |-> rb, eb |-> rb + es, nb |-> rb + ns, en |-> en, nn |-> nn, el |-> el, nd |-> nd,
         ew |-> [i \in 1 .. en |-> IF hv THEN pv.vw[i + es] ELSE 1],
         nw |-> [i \in 1 .. nn |-> IF hv THEN pv.vw[i + ns] ELSE 1],
         hv |-> hv, hl |-> hl,
         elb |-> IF hl THEN elb ELSE [i \in 1 .. en |-> rb + i - 1], nlb |-> IF hl THEN nlb ELSE [i \in 1 .. nn |-> rb + i - 1]]

MeshLoadFault(t, b, ret, raw) ==
   LET x == MeshOfFile(t, b) IN
   CASE "bad" \in DOMAIN x /\ x.bad       -> IF ret = 0 THEN "malformed file accepted" ELSE OK
     [] "bad" \in DOMAIN x                -> OK
     [] ret # 0                           -> "well-formed file refused"
     [] MeshFault(raw) # OK               -> "loaded mesh is not well-formed"
     [] ~SameMesh(AbsMesh(raw), x)        -> "loaded mesh differs from the file"
     [] OTHER -> OK

-----------------------------------------------------------------------------
(* Graphs of a mesh: nodes that share an element; elements that share enough nodes *)
NodalOk(m, g) ==
   /\ g.n = m.nn /\ g.b = m.b /\ g.vw = m.nw
   /\ PairSet(g) = UNION {{<<p[1], p[2]>> : p \in {q \in SetOf(m.el[i]) \X SetOf(m.el[i]) : q[1] # q[2]}} : i \in 1 .. m.en}
   /\ \A v \in 1 .. g.n : \A k \in 1 .. Len(g.ew[v]) : g.ew[v][k] = 1
DualOk(m, g, c) ==
   /\ g.n = m.en /\ g.b = m.b /\ g.vw = m.ew
   /\ PairSet(g) = {p \in (1 .. m.en) \X (1 .. m.en) :
                      /\ p[1] # p[2]
                      /\ Cardinality(SetOf(m.el[p[1]]) \cap SetOf(m.el[p[2]])) >=
                         Max2(1, Min2(c, Min2(Len(m.el[p[1]]) - 1, Len(m.el[p[2]]) - 1)))}
   /\ \A v \in 1 .. g.n : \A k \in 1 .. Len(g.ew[v]) : g.ew[v][k] = 1
NodalGraph(m) ==
   LET nb == TLCEval([v \in 1 .. m.nn |-> SetToSeq(UNION {SetOf(m.el[i]) : i \in SetOf(m.nd[v])} \ {v})])
   IN [b |-> m.b, n |-> m.nn, nb |-> nb, ew |-> [v \in 1 .. m.nn |-> [k \in 1 .. Len(nb[v]) |-> 1]], vw |-> m.nw, lb |-> m.nlb,
       hv |-> FALSE, he |-> FALSE, hl |-> m.hl]

MeshStatFault(m, ev) ==
   LET ed == [i \in 1 .. m.en |-> Len(m.el[i])]
       nd == [i \in 1 .. m.nn |-> Len(m.nd[i])] IN
   CASE ev.vnlosum # SumSeq(m.nw) -> "node load sum"
     [] m.nn > 0 /\ (ev.vnlomin # SeqMin(m.nw) \/ ev.vnlomax # SeqMax(m.nw) \/ ~Near(ev.vnloavg, AvgOf(m.nw)) \/ ~Near(ev.vnlodlt, DltOf(m.nw))) -> "node loads"
     [] m.en > 0 /\ (ev.edegmin # SeqMin(ed) \/ ev.edegmax # SeqMax(ed) \/ ~Near(ev.edegavg, AvgOf(ed)) \/ ~Near(ev.edegdlt, DltOf(ed))) -> "element degrees"
     [] m.nn > 0 /\ (ev.ndegmin # SeqMin(nd) \/ ev.ndegmax # SeqMax(nd) \/ ~Near(ev.ndegavg, AvgOf(nd)) \/ ~Near(ev.ndegdlt, DltOf(nd))) -> "node degrees"
     [] OTHER -> OK

\* Coordinates: a line per node, in any order, with its label or index
MeshGeomFault(m, ev) ==
   LET lbl == [j \in 1 .. m.nn |-> IF m.hl THEN m.nlb[j] ELSE m.nb + j - 1]
       of(x) == {k \in 1 .. Len(ev.lines) : ev.lines[k][1] = x} IN
   CASE m.nn = 0 /\ ev.what = "load" -> OK
     [] ev.what = "save" -> IF ev.dimgot # ev.dim \/ ev.cnt # m.nn \/ ev.lines # [j \in 1 .. m.nn |-> <<lbl[j]>> \o ev.got[j]] THEN "saved coordinates" ELSE OK
     [] ev.dimgot # ev.dim -> "dimension"
     [] \E j \in 1 .. m.nn : ev.lines[CHOOSE k \in of(lbl[j]) : TRUE] # <<lbl[j]>> \o ev.got[j] -> "coordinates"
     [] OTHER -> OK

MeshOpNames == {"MeshBuild", "MeshObserve", "MeshSave", "MeshLoad", "MeshGraph", "MeshDual", "MeshStat", "MeshOrder", "MeshGeom"}
MeshContract(ev, o) ==
   CASE ev.op = "MeshBuild" ->
          (CASE ev.guard # 1 -> "input arrays modified"
             [] LET f == MeshFault(ev.raw) IN f # OK -> IF ev.ret = 0 THEN "inconsistent mesh accepted: " \o MeshFault(ev.raw) ELSE OK
             [] ev.ret # 0 -> "well-formed mesh refused"
             [] OTHER -> OK)
     [] ev.op = "MeshLoad" -> MeshLoadFault(ev.tok, ev.b, ev.ret, ev.raw)
     [] OTHER ->
          LET m == o[ev.h].m IN
          (CASE ev.op = "MeshObserve" -> IF MeshFault(ev.raw) # OK \/ ~SameMesh(AbsMesh(ev.raw), m) THEN "mesh data"
                                        ELSE IF ev.size # <<m.en, m.nn, MArcs(m)>> THEN "mesh sizes"
                                        ELSE IF ev.deg # FoldLeft(LAMBDA a, s : Max2(a, Len(s)), 0, m.el \o m.nd) THEN "maximum degree" ELSE OK
             [] ev.ret # 0 /\ ev.op # "MeshStat"    -> "failed"
             [] ev.op = "MeshSave"    -> IF ~IsMeshFile(m, ev.tok) THEN "contents of the file" ELSE OK
             [] ev.op = "MeshGraph"   -> IF ev.chk # 0 THEN "graph refused by the check" ELSE IF ~RawShapeOk(ev.raw) THEN "arrays" ELSE IF ~NodalOk(m, AbsGraph(ev.raw)) THEN "not the nodal graph" ELSE OK
             [] ev.op = "MeshDual"    -> IF ev.chk # 0 THEN "graph refused by the check" ELSE IF ~RawShapeOk(ev.raw) THEN "arrays" ELSE IF ~DualOk(m, AbsGraph(ev.raw), ev.ncom) THEN "not the dual graph" ELSE OK
             [] ev.op = "MeshStat"    -> MeshStatFault(m, ev)
             [] ev.op = "MeshGeom"    -> MeshGeomFault(m, ev)
             [] ev.op = "MeshOrder"   ->
                  (LET r == Complete(m.b, m.nn, ev.r) IN
                   CASE ev.guard # 1                               -> "write out of array bounds"
                     [] ev.chk # 0                                 -> "ordering check refuses the ordering"
                     [] ev.same # 1                                -> "input arrays modified"
                     [] ev.hasperm = 1 /\ PermFault(m.b, m.nn, r) # OK -> PermFault(m.b, m.nn, r)
                     [] ev.hasblk = 1 /\ BlockFault(m.b, m.nn, r) # OK -> BlockFault(m.b, m.nn, r)
                     [] ev.hasperm = 1 /\ ev.hasblk = 1 /\ ev.sep # 2 -> SepFault(NodalGraph(m), m.b, r, {}, ev.sep)
                     [] OTHER -> OK)
             [] OTHER -> OK)
MeshEffect(ev, o) ==
   CASE ev.op \in {"MeshBuild", "MeshLoad"} /\ ev.ret = 0 /\ MeshFault(ev.raw) = OK -> Put(o, ev.h, [k |-> "mesh", m |-> AbsMesh(ev.raw)])
     [] OTHER -> o
=============================================================================
