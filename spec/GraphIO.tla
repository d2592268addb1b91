------------------------------- MODULE GraphIO -------------------------------
(* File formats of graphs.  A file is abstracted to its integer tokens (native *)
(* format) or to its non-comment lines of integer tokens (Chaco), or to its    *)
(* entries (Matrix Market).                                                    *)
EXTENDS GraphOps

----------------------------------------------------------------------------
(* Native format: 0 / n m / base flag / [label] [load] degree ([load] end)*    *)
PropVal(g) == (IF g.hl THEN 100 ELSE 0) + (IF g.he THEN 10 ELSE 0) + (IF g.hv THEN 1 ELSE 0)

VertTokens(g, v) ==
   (IF g.hl THEN <<g.lb[v]>> ELSE <<>>) \o (IF g.hv THEN <<g.vw[v]>> ELSE <<>>) \o <<Deg(g, v)>>
   \o Flat([k \in 1 .. Deg(g, v) |-> (IF g.he THEN <<g.ew[v][k]>> ELSE <<>>) \o <<g.lb[g.nb[v][k]]>>])

FileOf(g) == <<0, g.n, ArcNbr(g), g.b, PropVal(g)>> \o Flat([v \in 1 .. g.n |-> VertTokens(g, v)])

\* Presence of an array without elements cannot be observed
Variants(g) == IF g.n = 0 THEN {[g EXCEPT !.hv = a, !.he = b, !.hl = c] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
               ELSE IF ArcNbr(g) = 0 THEN {[g EXCEPT !.he = b] : b \in BOOLEAN} ELSE {g}
IsFileOf(g, t) == \E x \in Variants(g) : t = FileOf(x)

\* Parse the vertex lines: result [ok, p, nb, ew, vw, lb]; arc ends kept raw
ParseVerts(t, n, hl, hv, he) ==
   FoldLeft(LAMBDA a, i :
      IF ~a.ok THEN a ELSE
      LET p0 == a.p
          pl == IF hl THEN p0 + 1 ELSE p0
          pv == IF hv THEN pl + 1 ELSE pl IN
      IF pv > Len(t) THEN [a EXCEPT !.ok = FALSE] ELSE
      LET d  == t[pv]
          w  == IF he THEN 2 ELSE 1 IN
      IF d < 0 \/ d > Len(t) \/ pv + w * d > Len(t) THEN [a EXCEPT !.ok = FALSE] ELSE
      [ok |-> TRUE, p |-> pv + w * d + 1,
       lb |-> IF hl THEN Append(a.lb, t[p0]) ELSE a.lb,
       vw |-> IF hv THEN Append(a.vw, t[pl]) ELSE a.vw,
       nb |-> Append(a.nb, [k \in 1 .. d |-> t[pv + w * k]]),
       ew |-> Append(a.ew, [k \in 1 .. d |-> IF he THEN t[pv + w * k - 1] ELSE 1])],
     [ok |-> TRUE, p |-> 6, lb |-> <<>>, vw |-> <<>>, nb |-> <<>>, ew |-> <<>>],
     [i \in 1 .. n |-> i])

BadGraph == [bad |-> TRUE]
BadData  == [bad |-> TRUE, sem |-> TRUE]         \* well-formed sequence of numbers, meaningless labels or arc ends
IsBad(x) == "bad" \in DOMAIN x

\* t: tokens, b: wanted base (-1 keeps the file's), fl: 1 drops vertex loads, 2 edge loads
GraphOfFile(t, b, fl) ==
   IF Len(t) < 5 \/ t[1] # 0 \/ t[2] < 0 \/ t[3] < 0 \/ t[3] % 2 # 0 \/ t[5] < 0 \/ t[5] > 111 THEN BadGraph ELSE
   LET n  == t[2]
       fb == t[4]
       rb == IF b = -1 THEN fb ELSE b
       hl == (t[5] \div 100) % 10 # 0
       he == (t[5] \div 10) % 10 # 0
       hv == t[5] % 10 # 0
       a  == TLCEval(ParseVerts(t, n, hl, hv, he)) IN
   IF ~a.ok THEN BadGraph ELSE
   LET arcs == FoldLeft(LAMBDA x, s : x + Len(s), 0, a.nb) IN
   IF arcs # t[3] THEN BadGraph ELSE
   IF hl /\ (\E i \in 1 .. n : a.lb[i] < 0) THEN BadData ELSE
   IF hl /\ Cardinality({a.lb[i] : i \in 1 .. n}) # n THEN BadData ELSE
   LET ends == UNION {{a.nb[i][k] : k \in 1 .. Len(a.nb[i])} : i \in 1 .. n}
       lset == IF hl THEN {a.lb[i] : i \in 1 .. n} ELSE fb .. (fb + n - 1) IN
   IF ~(ends \subseteq lset) THEN BadData ELSE
   LET idx == TLCEval([x \in lset |-> IF hl THEN CHOOSE i \in 1 .. n : a.lb[i] = x ELSE x - fb + 1]) IN
   [b |-> rb, n |-> n,
    nb |-> TLCEval([i \in 1 .. n |-> [k \in 1 .. Len(a.nb[i]) |-> idx[a.nb[i][k]]]]),
    ew |-> IF he /\ fl \notin {2, 3} THEN a.ew ELSE TLCEval([i \in 1 .. n |-> [k \in 1 .. Len(a.nb[i]) |-> 1]]),
    vw |-> IF hv /\ fl \notin {1, 3} THEN a.vw ELSE [i \in 1 .. n |-> 1],
    lb |-> IF hl THEN a.lb ELSE [i \in 1 .. n |-> rb + i - 1],
    hv |-> hv /\ fl \notin {1, 3}, he |-> he /\ fl \notin {2, 3}, hl |-> hl]

\* A file that parses but describes an inconsistent graph (asymmetric, loops...)
\* may be refused or not: the manual leaves it to SCOTCH_graphCheck.
LoadFault(exp, ret, raw) ==
   CASE IsBad(exp) -> IF ret = 0 THEN "malformed file accepted" ELSE OK
     [] GraphFault(exp) # OK -> OK
     [] ret # 0    -> "well-formed file refused"
     [] OTHER      -> ObserveFault(exp, raw)

----------------------------------------------------------------------------
(* Chaco: header <<n, m, flag>>, then one line per vertex:                     *)
(*   [label] [load] (end [load])*          base 1, flag = label,load,edge load *)
ChacoLine(g, v, adj) ==
   (IF g.hl THEN <<g.lb[v] + adj>> ELSE <<>>) \o (IF g.hv THEN <<g.vw[v]>> ELSE <<>>)
   \o Flat([k \in 1 .. Deg(g, v) |-> <<g.lb[g.nb[v][k]] + adj>> \o (IF g.he THEN <<g.ew[v][k]>> ELSE <<>>)])
ChacoOf(g) ==
   LET adj == 1 - g.b IN
   << <<g.n, ArcNbr(g) \div 2, (IF g.hl THEN 100 ELSE 0) + (IF g.hv THEN 10 ELSE 0) + (IF g.he THEN 1 ELSE 0)>> >>
   \o [v \in 1 .. g.n |-> ChacoLine(g, v, adj)]

IsChacoOf(g, ls) == \E x \in Variants(g) : ls = ChacoOf(x)

GraphOfChaco(ls) ==
   IF Len(ls) < 1 \/ Len(ls[1]) < 2 THEN BadGraph ELSE
   LET n  == ls[1][1]
       m  == ls[1][2]
       f  == IF Len(ls[1]) > 2 THEN ls[1][3] ELSE 0
       hl == (f \div 100) % 10 # 0
       hv == (f \div 10) % 10 # 0
       he == f % 10 # 0
       o  == (IF hl THEN 1 ELSE 0) + (IF hv THEN 1 ELSE 0)
       w  == IF he THEN 2 ELSE 1
       L(i) == IF i + 1 <= Len(ls) THEN ls[i + 1] ELSE <<>> IN
   IF n < 0 \/ m < 0 THEN BadGraph ELSE
   IF \E i \in 1 .. n : Len(L(i)) < o \/ (Len(L(i)) - o) % w # 0 THEN BadGraph ELSE
   LET deg(i) == (Len(L(i)) - o) \div w
       lb == TLCEval([i \in 1 .. n |-> IF hl THEN L(i)[1] ELSE i])
       vw == TLCEval([i \in 1 .. n |-> IF hv THEN L(i)[o] ELSE 1])
       en == TLCEval([i \in 1 .. n |-> [k \in 1 .. deg(i) |-> L(i)[o + w * (k - 1) + 1]]])
       ew == TLCEval([i \in 1 .. n |-> [k \in 1 .. deg(i) |-> IF he THEN L(i)[o + w * k] ELSE 1]])
       arcs == FoldLeft(LAMBDA x, s : x + Len(s), 0, en) IN
   IF arcs # 2 * m THEN BadGraph ELSE
   IF Cardinality({lb[i] : i \in 1 .. n}) # n \/ (\E i \in 1 .. n : lb[i] < 1 \/ lb[i] > n) THEN BadGraph ELSE
   IF \E i \in 1 .. n : \E k \in 1 .. Len(en[i]) : en[i][k] < 1 \/ en[i][k] > n THEN BadGraph ELSE
   IF \E i \in 1 .. n : vw[i] < 1 \/ (\E k \in 1 .. Len(ew[i]) : ew[i][k] < 1) THEN BadGraph ELSE
   LET idx == TLCEval([x \in 1 .. n |-> CHOOSE i \in 1 .. n : lb[i] = x]) IN
   [b |-> 1, n |-> n, nb |-> TLCEval([i \in 1 .. n |-> [k \in 1 .. Len(en[i]) |-> idx[en[i][k]]]]), ew |-> ew, vw |-> vw,
    lb |-> lb, hv |-> hv, he |-> he, hl |-> hl]

----------------------------------------------------------------------------
(* Matrix Market pattern: n rows, n columns, entries <<row, col>> in base b.   *)
(* The graph is the adjacency structure: diagonal dropped, symmetrised.        *)
MmktFault(n, cols, ents, b, ret, raw) ==
   LET bad == n # cols \/ n < 0 \/ \E i \in 1 .. Len(ents) : \/ ents[i][1] < b \/ ents[i][1] >= b + n
                                                             \/ ents[i][2] < b \/ ents[i][2] >= b + n IN
   CASE bad -> IF ret = 0 THEN "malformed file accepted" ELSE OK
     [] ret # 0 -> "well-formed file refused"
     [] ~RawShapeOk(raw) -> "unreadable arrays"
     [] raw.b # b        -> "base value"
     [] raw.n # n        -> "vertex number"
     [] OTHER ->
        LET h  == AbsGraph(raw)
            es == {<<ents[i][1] - b + 1, ents[i][2] - b + 1, 1>> : i \in {j \in 1 .. Len(ents) : ents[j][1] # ents[j][2]}}
        IN CASE GraphFault(h) # OK -> "ill-formed result"
             [] ArcSet(h) # es \cup {<<a[2], a[1], 1>> : a \in es} -> "adjacency"
             [] raw.e # ArcNbr(h) -> "arc number"
             [] \E i \in 1 .. h.n : h.vw[i] # 1 -> "vertex loads"
             [] OTHER -> OK

\* Entries written for g: the diagonal and one triangle, base 1
MmktOfFault(g, n, cols, ents) ==
   LET adj == 1 - g.b IN
   CASE n # g.n \/ cols # g.n                 -> "matrix size"
     [] Len(ents) # g.n + (ArcNbr(g) \div 2)  -> "number of entries"
     [] {ents[i] : i \in 1 .. Len(ents)} #
           {<<g.lb[v] + adj, g.lb[v] + adj>> : v \in 1 .. g.n}
           \cup {<<Max2(g.lb[p[1]], g.lb[p[2]]) + adj, Min2(g.lb[p[1]], g.lb[p[2]]) + adj>> : p \in PairSet(g)} -> "entries"
     [] OTHER -> OK

----------------------------------------------------------------------------
(* Geometry files: d / n / (label, coordinates)                               *)
GeomOf(g, crd) == [v \in 1 .. g.n |-> <<g.lb[v]>> \o crd[v]]
\* coordinates of the vertices of g in a file with lines ls (label first)
GeomBad(g, ls) == \/ Cardinality({ls[i][1] : i \in 1 .. Len(ls)}) # Len(ls)
                  \/ \E v \in 1 .. g.n : ~\E i \in 1 .. Len(ls) : ls[i][1] = g.lb[v]
GeomFor(g, ls) == [v \in 1 .. g.n |-> LET i == CHOOSE j \in 1 .. Len(ls) : ls[j][1] = g.lb[v] IN Tail(ls[i])]
=============================================================================
