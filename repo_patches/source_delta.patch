From 46f45b8d04e33da08f283f2e8250ce0ae92c02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 01/55] fix: SCOTCH_graphColor could give the same color to
 neighboring vertices

A vertex skipped every neighbor that already had a color, including those
colored during the current pass, and could thus take the very color which
such a neighbor had just received.
---
 src/libscotch/library_graph_color.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..0061f24 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,8 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) &&            /* Skip neighbors colored in previous passes only:   */
+            (colotax[vertend] != colonum))        /* those colored in this pass forbid current color */
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From 0b521676cf2bf275cf4f47ea028e08c45ff743d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 02/55] fix: graphCheck missed vertex load sum overflows

The test relied on signed overflow, which is undefined behavior and which
compilers optimize away.
---
 src/libscotch/graph_check.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/graph_check.c b/src/libscotch/graph_check.c
index e631391..1e29421 100644
--- a/src/libscotch/graph_check.c
+++ b/src/libscotch/graph_check.c
@@ -137,14 +137,12 @@ const Graph * const         grafptr)
 
       vertend = edgetax[edgenum];
       if (edlotax != NULL) {
-        Gnum                edlotmp;
-
-        edlotmp = edlosum + edlotax[edgenum];
-        if (edlotmp < edlosum) {                  /* If overflow */
+        if ((edlotax[edgenum] < 0) ||             /* If overflow (signed sums must not be used for detecting it) */
+            (edlotax[edgenum] > (GNUMMAX - edlosum))) {
           errorPrint ("graphCheck: edge load sum overflow");
           return (1);
         }
-        edlosum = edlotmp;
+        edlosum += edlotax[edgenum];
       }
 
       if ((vertend < baseval) || (vertend >= grafptr->vertnnd)) { /* If invalid edge end */
@@ -172,18 +170,15 @@ const Graph * const         grafptr)
       }
     }
     if (velotax != NULL) {
-      Gnum                velotmp;
-
       if (velotax[vertnum] < 0) {                 /* If non positive loads */
         errorPrint ("graphCheck: invalid vertex load array");
         return (1);
       }
-      velotmp = velosum + velotax[vertnum];
-      if (velotmp < velosum) {                    /* If overflow */
+      if (velotax[vertnum] > (GNUMMAX - velosum)) { /* If overflow (signed sums must not be used for detecting it) */
         errorPrint ("graphCheck: vertex load sum overflow");
         return (1);
       }
-      velosum = velotmp;
+      velosum += velotax[vertnum];
     }
   }
   if (grafptr->edgenbr != edgenbr) {
-- 
2.43.0


From 2ca505a0b82d57e3684edfe80b47b9818ac51f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 03/55] fix: graphLoad accepted negative degrees and indexed
 memory with negative labels

Negative vertex degrees were silently taken as null, and negative vertex
labels or arc ends were used as indices out of the label array.
---
 src/libscotch/graph_io.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..042348a 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -212,7 +212,8 @@ const GraphFlag             flagval)              /* Graph loading flags
         velosum                  +=
         grafptr->velotax[vertnum] = veloval;
     }
-    if (intLoad (stream, &degrval) != 1) {        /* Read vertex degree */
+    if ((intLoad (stream, &degrval) != 1) ||      /* Read vertex degree */
+        (degrval < 0)) {
       errorPrint ("graphLoad: bad input (5)");
       graphFree  (grafptr);
       return (1);
@@ -220,13 +221,13 @@ const GraphFlag             flagval)              /* Graph loading flags
     if (degrmax < degrval)                        /* Set maximum degree */
       degrmax = degrval;
 
-    grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
-    degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
+    grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array        */
+    if (degrval > (edgennd - edgenum)) {          /* Check if edge array overflows */
       errorPrint ("graphLoad: invalid arc count (1)");
       graphFree  (grafptr);
       return (1);
     }
+    degrval += edgenum;
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
@@ -299,6 +300,11 @@ const Gnum * const          vlbltax)
 
   memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
+    if (vlbltax[vertnum] < 0) {                   /* If label cannot be indexed */
+      errorPrint  ("graphLoad2: invalid vertex label");
+      memFree     (indxtab);
+      return (1);
+    }
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
       memFree     (indxtab);
@@ -310,7 +316,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||               /* If invalid edge end number */
+          (edgetax[edgenum] > vlblmax)) {
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
-- 
2.43.0


From 02a9af2392650e4cb0ceeeceef3a88bb21a5e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 04/55] fix: geometry loaded with a graph lost its dimension
 and could not be read back

graphGeomLoadScot did not record the dimension of the geometry, expected
implicit labels to start from 0 whatever the base value of the graph, and
refused geometry files with more coordinates than graph vertices.
---
 src/libscotch/graph_io_scot.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..60b559d 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -105,11 +105,13 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (grafptr->vertnbr != coornbr)) {
+  if ((filesrcptr != NULL) && (grafptr->vertnbr > coornbr)) { /* There can be more geometry data than graph vertices */
     errorPrint ("graphGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
 
+  geomptr->dimnnbr = dimnnbr;                     /* Record dimension of loaded geometry */
+
   if (grafptr->vertnbr == 0)
     return (0);
 
@@ -180,9 +182,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
+      vertsorttab[vertnum].labl = vertnum + grafptr->baseval; /* Implicit labels are based vertex numbers */
       vertsorttab[vertnum].num  = vertnum;
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 90096872f82f4054fbf3aad871e66d92d0501611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 05/55] fix: Matrix Market loader overflowed its vertex array
 for base values below 1

The last loop compared based vertex numbers with the number of vertices.
---
 src/libscotch/graph_io_mmkt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..bd182cb 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -224,9 +224,8 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < grafptr->vertnnd)              /* Fill gaps with isolated vertices and mark end of array */
     grafptr->verttax[++ vertnum] = edgenum;
-  grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
 #ifdef SCOTCH_DEBUG_GRAPH2
   if (vertnum != grafptr->vertnnd) {
-- 
2.43.0


From 9fa854468c0ab982b156dcfcbdeb3d2c8f6d37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 06/55] fix: Chaco loader wrote past its edge arrays and
 accepted missing arcs

The overflow test came after the edge load had been written, was off by one,
and files with less arcs than announced were accepted.
---
 src/libscotch/graph_io_chac.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..c49f8bf 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -212,6 +212,11 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow before writing to arrays */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
@@ -222,11 +227,6 @@ const char * const          dataptr)              /* No use           */
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
@@ -234,6 +234,11 @@ const char * const          dataptr)              /* No use           */
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
   grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* If file does not contain as many arcs as announced */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From 4d17902f799d4d846da2feca4bdf0888db63a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 07/55] fix: SCOTCH_graphInducePart read the base value of a
 context-bound graph in its container

---
 src/libscotch/library_graph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..61fd358 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -109,7 +109,7 @@ const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
   return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
+                           ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
                            (const Gnum) vnumnbr,
                            (const GraphPart) partval,
                            (Graph * restrict const) indgrafptr));
-- 
2.43.0


From e340458b20bdb2d44d38236bf6a1c0ff0c8695ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 08/55] fix: SCOTCH_graphCoarsenMatch did not tell when the
 coarsening ratio could not be met

---
 src/libscotch/graph_coarsen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..b87905d 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -185,8 +185,7 @@ GraphCoarsenData * restrict const coarptr)
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If matching data not provided */
     graphMatch (descptr, coarptr);                /* Perform threaded matching          */
 
-    if ((coarptr->retuval != 0) ||                /* If matching failed                    */
-        (coargrafptr == NULL))                    /* Or if only matching wanted, stop here */
+    if (coarptr->retuval != 0)                    /* If matching failed */
       return;
 
     coarvertnbr = coarptr->coarvertnbr;           /* Get number of vertices actually created    */
@@ -197,6 +196,8 @@ GraphCoarsenData * restrict const coarptr)
 	coarptr->retuval = 1;
       return;
     }
+    if (coargrafptr == NULL)                      /* If only matching wanted, stop here */
+      return;
   }
   else
     coarvertnbr = coarptr->coarvertnbr;           /* Get provided number of vertices */
-- 
2.43.0


From 11d336d0bff31dda60327c379e2c1565e984352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:54 +0000
Subject: [PATCH 09/55] fix: Harwell-Boeing loader looped on truncated files,
 overflowed on bad indices and refused X formats

---
 src/libscotch/graph_io_habo.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index b961f0e..b1dc982 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -219,7 +219,7 @@ const char * const          dataptr)              /* Tag value        */
     if (habvalnum ++ >= habcolfmt.datanbr) {      /* If all useful data read from line */
       habvalnum = 1;                              /* Start at beginning of new line    */
 
-      while ((c != '\n') && (c != '\r'))          /* Eat up all remaining spaces */
+      while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
         c = getc (filesrcptr);
       while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -237,6 +237,12 @@ const char * const          dataptr)              /* Tag value        */
       graphFree  (grafptr);
       return (1);
     }
+    if ((habcolval < ((habcolnum > 0) ? habcoltab[habcolnum - 1] : 1)) || /* If column indices not increasing or out of bounds */
+        (habcolval > (habnzrnbr + 1))) {
+      errorPrint ("graphGeomLoadHabo: bad input (9)");
+      graphFree  (grafptr);
+      return (1);
+    }
     habcoltab[habcolnum] = habcolval;
   }
   if (habcoltab[habcolnbr] != (Gnum) habnzrnbr + 1) {
@@ -257,7 +263,7 @@ const char * const          dataptr)              /* Tag value        */
       if (habvalnum ++ >= habnzrfmt.datanbr) {    /* If all useful data read from line */
         habvalnum = 1;                            /* Start at beginning of new line    */
 
-        while ((c != '\n') && (c != '\r'))        /* Eat up all remaining spaces */
+        while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
           c = getc (filesrcptr);
         while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -274,6 +280,11 @@ const char * const          dataptr)              /* Tag value        */
         graphFree  (grafptr);
         return (1);
       }
+      if ((habnzrval < 1) || (habnzrval > habcolnbr)) { /* If row index out of bounds */
+        errorPrint ("graphGeomLoadHabo: bad input (10)");
+        graphFree  (grafptr);
+        return (1);
+      }
       habnzrtab[habnzrnum] = habnzrval;
       if (habnzrval != vertnum) {                 /* If not loop edge      */
         grafptr->verttax[vertnum] ++;             /* Account for arc       */
@@ -404,7 +415,7 @@ const char * const                  dataptr)      /* Format string       */
     for (charptr ++; *charptr != '\0'; charptr ++) {
       if (*charptr == '\0')                       /* Error if end of string */
         return (1);
-      if (! isdigit (*charptr < '0'))
+      if (! isdigit ((int) (unsigned char) *charptr))
         break;
       number = number * 10 + *charptr - '0';
     }
-- 
2.43.0


From 108970c9982445eb4e88bc69d0e171d5a7778b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 10/55] fix: mapping files were misread for labelled graphs of
 base 1, and refused when empty

---
 src/libscotch/library_graph_map_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..85a4096 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -97,7 +97,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
   memSet (parttab, ~0, vertnbr * sizeof (Anum));  /* Pre-initialize the partition array */
 
   if ((fscanf (stream, GNUMSTRING, &mappfileval) != 1) || /* Read number of mapping pairs */
-      (mappfileval < 1)) {
+      (mappfileval < 0)) {
     errorPrint (STRINGIFY (SCOTCH_graphTabLoad) ": bad input (1)");
     return     (1);
   }
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
@@ -160,7 +160,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     if (vertsortflag != 1)                        /* If graph label data not sorted     */
       intSort2asc1 (vertsorttab, vertnbr);        /* Sort sort area by ascending labels */
 
-    for (vertsortnum = 0, mappfilenum = 0; vertsortnum < vertnbr; vertsortnum ++) { /* For all vertices in graph */
+    for (vertsortnum = 0, mappfilenum = 0; (vertsortnum < vertnbr) && (mappfilenum < mappfilenbr); vertsortnum ++) { /* For all vertices in graph */
       while (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl) {
         mappfilenum ++;                           /* Search mapping vertex with same label */
         if (mappfilenum >= mappfilenbr)           /* If all mapping data processed         */
-- 
2.43.0


From 9f1562fd531e088c7f1b6cd053692510ffb70b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 11/55] fix: mapping statistics overwrote the part array and
 were wrong for unused processors, base 1 and migration

---
 src/libscotch/library_graph_map_view.c | 34 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..3367796 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -126,11 +126,11 @@ const Anum                  partval)              /*+ Part value +*/
   for (passnum = 1, rootnum = grafptr->baseval; ; passnum ++) { /* For all connected components */
     Gnum                diamnum;                  /* Vertex which achieves diameter             */
 
-    while ((rootnum < grafptr->vertnbr) &&
+    while ((rootnum < grafptr->vertnnd) &&
            ((vexxtax[rootnum].passnum != 0) ||    /* Find first unallocated vertex */
             (parttax[rootnum] != partval)))
       rootnum ++;
-    if (rootnum >= grafptr->vertnbr)              /* Exit if all of graph processed */
+    if (rootnum >= grafptr->vertnnd)              /* Exit if all of graph processed */
       break;
 
     diambase = ++ diamdist;                       /* Start from previous distance */
@@ -200,8 +200,9 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
-  Anum * restrict           parotax;              /* Old part array                               */
+  const Anum * restrict     parttax;              /* Part array                                   */
+  Anum * restrict           pmaptax;              /* Array of part indices, starting from 0       */
+  const Anum * restrict     parotax;              /* Old part array                               */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
   ArchDom                   domnorg;              /* Vertex domain                                */
@@ -222,6 +223,7 @@ FILE * const                  stream)             /*+ Output stream
   Anum                      nghbsum;
   Gnum                      vertnum;
   Gnum                      vertidx;
+  Gnum                      vertmin;              /* Index of first mapped vertex in sorted array */
   Gnum                      veloval;
   Gnum                      edloval;
   Gnum                      commdist[256];        /* Array of load distribution */
@@ -268,7 +270,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (libmapoptr != NULL) {
     lmaoptr = (LibMapping *) libmapoptr;
-    parotax = lmaoptr->parttab;
+    parotax = lmaoptr->parttab - grafptr->baseval;
   }
   else {
     lmaoptr = NULL;
@@ -291,6 +293,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
+                     &pmaptax, (size_t) ( grafptr->vertnbr      * sizeof (Anum)),
                      &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
@@ -301,10 +304,13 @@ FILE * const                  stream)             /*+ Output stream
     domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
   }
   parttax -= grafptr->baseval;
+  memSet (pmaptax, ~0, grafptr->vertnbr * sizeof (Anum)); /* Assume vertices are not mapped */
+  pmaptax -= grafptr->baseval;
   domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
   domntab[grafptr->vertnbr].peri = ~0;            /* Prevent Valgrind from yelling */
 
   intSort2asc2 (domntab, grafptr->vertnbr);       /* Sort domain label array by increasing target labels */
+  for (vertmin = 0; (vertmin < grafptr->vertnbr) && (domntab[vertmin].labl == ARCHDOMNOTTERM); vertmin ++) ; /* Skip unmapped vertices */
 
   archDomFrst (archptr, &domnfrst);               /* Get architecture domain */
   tgtnbr = archDomSize (archptr, &domnfrst);      /* Get architecture size   */
@@ -312,8 +318,8 @@ FILE * const                  stream)             /*+ Output stream
   mapnbr  = 0;
   mapsum  = 0;
   veloval = 1;                                    /* Assume unweighted vertices */
-  for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
-    parttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
+  for (vertidx = vertmin; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    pmaptax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
     if (domntab[vertidx].labl != domntab[vertidx + 1].labl) /* TRICK: if new (or end) domain label */
       mapnbr ++;
     if (velotax != NULL)
@@ -328,7 +334,7 @@ FILE * const                  stream)             /*+ Output stream
   if (mapnbr > 0) {
     mapmin = GNUMMAX;
 
-    for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    for (vertidx = vertmin; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
       if (velotax != NULL)
         veloval = velotax[domntab[vertidx].peri];
       mapsum += veloval;
@@ -382,18 +388,20 @@ FILE * const                  stream)             /*+ Output stream
   if (mapnbr > 0) {
     nghbmin = ANUMMAX;
 
-    for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    for (vertidx = vertmin; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
       Gnum                edgenum;
       Gnum                edgennd;
       Anum                partnum;
 
-      partnum = parttax[domntab[vertidx].peri];
+      partnum = pmaptax[domntab[vertidx].peri];
       for (edgenum = verttax[domntab[vertidx].peri],
            edgennd = vendtax[domntab[vertidx].peri];
            edgenum < edgennd; edgenum ++) {
         Anum                partend;
 
-        partend = parttax[edgetax[edgenum]];
+        partend = pmaptax[edgetax[edgenum]];
+        if (partend == ~0)                        /* Skip unmapped vertices */
+          continue;
         if ((partend != partnum) &&               /* If edge is not internal                                      */
             (partend != nghbtab[nghbnbr])) {      /* And neighbor is not sole neighbor or has not just been found */
           Anum                partmin;
@@ -484,7 +492,7 @@ FILE * const                  stream)             /*+ Output stream
         continue;
       if (parotax[vertnum] != parttax[vertnum]) {
         migrnbr ++;
-        archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
+        archDomTerm (archptr, &domnorg, parttax[vertnum]); /* Get terminal domains */
         archDomTerm (archptr, &domnold, parotax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
@@ -535,7 +543,7 @@ FILE * const                  stream)             /*+ Output stream
     do {
       Gnum                diamval;
 
-      diamval  = graphMapView3 (grafptr, parttax, mapnum);
+      diamval  = graphMapView3 (grafptr, pmaptax, mapnum);
       diamsum += diamval;
       if (diamval < diammin)
         diammin = diamval;
-- 
2.43.0


From 08f1371522bee15d855e9247fbd1b2494bfacaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 12/55] fix: distances in X-dimensional meshes were those of a
 torus

---
 src/libscotch/arch_mesh.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..caed55f 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -908,15 +908,12 @@ const ArchMeshXDom * const  dom1ptr)
 {
   Anum                dimnnum;
   Anum                distval;
-  Anum                disttmp;
 
-  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
-    disttmp = abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
-                   dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
-    distval += (disttmp > archptr->c[dimnnum]) ? (2 * archptr->c[dimnnum] - disttmp) : disttmp;
-  }
+  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++)
+    distval += (abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
+                     dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]) + 1) / 2;
 
-  return (distval >> 1);
+  return (distval);
 }
 
 /* This function sets the biggest
-- 
2.43.0


From 0d436d6a9bf60f2165c26e537a1fa58fe050d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 13/55] fix: domain numbers of weighted complete and labeled
 tree-leaf architectures were not the smallest ones

---
 src/libscotch/arch_cmpltw.c | 11 ++++++++++-
 src/libscotch/arch_tleaf.c  | 12 +++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..1f68c90 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -358,7 +358,16 @@ archCmpltwDomNum (
 const ArchCmpltw * const    archptr,
 const ArchCmpltwDom * const domnptr)
 {
-  return (archptr->velotab[domnptr->vertmin].vertnum); /* Return vertex number */
+  Anum                vertnum;
+  ArchDomNum          domnnum;
+
+  for (vertnum = domnptr->vertmin + 1, domnnum = archptr->velotab[domnptr->vertmin].vertnum; /* Vertices are not sorted by number */
+       vertnum < (domnptr->vertmin + domnptr->vertnbr); vertnum ++) {
+    if (archptr->velotab[vertnum].vertnum < domnnum)
+      domnnum = archptr->velotab[vertnum].vertnum;
+  }
+
+  return (domnnum);                               /* Return smallest vertex number */
 }
 
 /* This function returns the terminal domain associated
diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..194efb8 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -790,6 +790,8 @@ const ArchTleafDom * const  domnptr)
   Anum                sizeval;
   Anum                domnnum;
   Anum                permnum;
+  Anum                permnnd;
+  Anum                permmin;
 
   sizeval = 1;                                    /* Compute size of blocks below */
   for (levlnum = domnptr->levlnum; levlnum < archptr->levlnbr; levlnum ++)
@@ -797,8 +799,16 @@ const ArchTleafDom * const  domnptr)
 
   domnnum = domnptr->indxmin * sizeval;
   permnum = domnnum % archptr->permnbr;           /* Get non permuted index as terminal domain */
+  domnnum -= permnum;                             /* Get start of permutation block            */
+  permnnd = permnum + domnptr->indxnbr * sizeval;
+  if (permnnd > archptr->permnbr)                 /* Smallest index is in first permutation block */
+    permnnd = archptr->permnbr;
+  for (permmin = archptr->permtab[permnum ++]; permnum < permnnd; permnum ++) {
+    if (archptr->permtab[permnum] < permmin)
+      permmin = archptr->permtab[permnum];
+  }
 
-  return (domnnum - permnum + archptr->permtab[permnum]); /* Return permuted index */
+  return (domnnum + permmin);                     /* Return smallest permuted index */
 }
 
 /* This function returns the terminal domain associated
-- 
2.43.0


From 9e676b69f32342a5ac032edeaf6d94483fabc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 14/55] fix: sub-architectures of a single processor could not
 be built unless it was the first one

---
 src/libscotch/arch_sub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d0e2b4b..40e5ab9 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -475,7 +475,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     treetab[orgtermnum].vertnum = orgtermnum;     /* Vertex number in original architecture                    */
   }
 
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, orgtermnbr);
 
   orgarchptr->clasptr->matchExit (&matcdat);      /* Free matching structure */
 
-- 
2.43.0


From 253fc5cbcbd28ce11564ad2792bf9af45ef4a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 15/55] fix: decomposition architectures: wrong terminal
 domains, base 1 graphs, single vertices and reloaded type 2

---
 src/libscotch/arch_build.c  | 7 ++++---
 src/libscotch/arch_build2.c | 2 +-
 src/libscotch/arch_deco.c   | 2 +-
 src/libscotch/arch_deco2.c  | 1 +
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index d5ce943..2c3c80a 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -149,6 +149,7 @@ Context * const             contptr)              /*+ Execution context
   GraphPart                         actpartval;   /* Part value to put to subjob                    */
   Gnum                              actpartnbr;   /* Size of part value to put to subjob            */
   Gnum                              termdomnum;
+  int                               o;
 
   const Gnum * restrict const tgtverttax = tgtgrafptr->verttax;
   const Gnum * restrict const tgtvendtax = tgtgrafptr->vendtax;
@@ -306,7 +307,7 @@ Context * const             contptr)              /*+ Execution context
     tgtvertnum = (tgtlistptr != NULL) ? tgtlistptr->vnumtab[termdomnum] : (termdomnum + tgtgrafptr->baseval);
     termverttab[termdomnum].labl = tgtvertnum;
     termverttab[termdomnum].wght = (tgtgrafptr->velotax != NULL) ? tgtgrafptr->velotax[tgtvertnum] : 1;
-    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum - tgtgrafptr->baseval));
+    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum));
     if (termverttab[termdomnum].num > termdommax) /* Find maximum terminal number */
       termdommax = termverttab[termdomnum].num;
   }
@@ -356,11 +357,11 @@ Context * const             contptr)              /*+ Execution context
         disttax[termverttab[termdomend].labl].distval;
   }
 
-  archDecoArchBuild2 ((ArchDeco *) (void *) &tgtarchptr->data, termdomnbr, termdommax, termverttab, termdisttab);
+  o = archDecoArchBuild2 ((ArchDeco *) (void *) &tgtarchptr->data, termdomnbr, termdommax, termverttab, termdisttab);
 
   memFree  (termverttab);                         /* Free group leader */
   mapExit  (&mappdat);
   archExit (&archdat);
 
-  return (0);
+  return (o);
 }
diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3037afe..2698245 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -649,7 +649,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   matcdat.vertsum = vnumnbr;                      /* Account for kept vertices of original graph */
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vertnbr);
 
   if (velotmp != NULL)                            /* Temporary vertex load array will no longer be necessary */
     memFree (velotmp);
diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index e5d88b9..94a3a3d 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -464,7 +464,7 @@ const ArchDomNum            domnnum)
     if (archptr->domverttab[domvertnum].size == 1) { /* If terminal vertex                      */
       domtermnum --;                              /* One more terminal scanned                  */
       if (archptr->domverttab[domvertnum].labl == domnnum) { /* If terminal domain number found */
-        domnptr->num = domvertnum;                /* Set domain number                          */
+        domnptr->num = domvertnum + 1;            /* Set domain number                          */
         return (0);
       }
     }
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 24e021d..4e8ad76 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -148,6 +148,7 @@ FILE * restrict const       stream)
 
   termnbr = archptr->termnbr;
   domnnbr = 2 * termnbr - 1;
+  archptr->domnnbr = domnnbr;
   levlnbr = archptr->levlmax --;                  /* Get levlmax */
   if (memAllocGroup ((void **) (void *)
                      &archptr->termtab, (size_t) (termnbr * sizeof (ArchSubTerm)),
-- 
2.43.0


From 3cf7c7f6d0ebc72721622f6075d3153f21c15e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 16/55] fix: loading malformed architecture files crashed, and
 non-compact target graphs were misread

---
 src/libscotch/arch.c        |  3 ++-
 src/libscotch/arch_build.c  | 11 ++++++++++-
 src/libscotch/arch_build2.c | 25 +++++++++++++++++++++++--
 src/libscotch/arch_cmpltw.c |  1 +
 src/libscotch/arch_deco.c   |  5 ++++-
 src/libscotch/arch_mesh.c   |  1 +
 src/libscotch/arch_sub.c    | 12 +++++++++---
 src/libscotch/arch_tleaf.c  | 10 ++++++----
 8 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..d570bd8 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -211,7 +211,8 @@ FILE * const                stream)
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (clasptr->archFree != NULL)
+        clasptr->archFree (&archptr->data);       /* Perform clean-up             */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index 2c3c80a..a5bdee1 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -163,7 +163,16 @@ Context * const             contptr)              /*+ Execution context
   if (termdomnbr == 0)                            /* If nothing to do */
     return (0);
 
-  invedlosiz = (tgtedlotax != NULL) ? tgtgrafptr->edgenbr : 0;
+  invedlosiz = 0;
+  if (tgtedlotax != NULL) {
+    Gnum                tgtvertnum;
+
+    invedlosiz = tgtgrafptr->edgenbr;
+    for (tgtvertnum = tgtgrafptr->baseval; tgtvertnum < tgtgrafptr->vertnnd; tgtvertnum ++) { /* Handle non-compact graphs */
+      if ((tgtvendtax[tgtvertnum] - tgtgrafptr->baseval) > invedlosiz)
+        invedlosiz = tgtvendtax[tgtvertnum] - tgtgrafptr->baseval;
+    }
+  }
   if ((memAllocGroup ((void **) (void *)
                       &jobtab,     (size_t) (termdomnbr * sizeof (ArchDecoBuildJob)),
                       &actfrontab, (size_t) (termdomnbr * sizeof (Gnum)),
diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 2698245..54d177c 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -110,6 +110,27 @@ ArchDeco2BuildMatch * restrict const  matcptr)
   memFree (matcptr->hashtab);
 }
 
+/* This routine computes the size of the edge
+** arrays of the given graph, which may not be
+** compact.
+** It returns:
+** - >=0  : the size of the edge arrays.
+*/
+
+static
+Gnum
+archDeco2BuildEdgeSize (
+const Graph * restrict const          grafptr)
+{
+  Gnum                edgesiz;
+  Gnum                vertnum;
+
+  for (vertnum = grafptr->baseval, edgesiz = 0; vertnum < grafptr->vertnnd; vertnum ++)
+    edgesiz = MAX (edgesiz, grafptr->vendtax[vertnum] - grafptr->baseval);
+
+  return (edgesiz);
+}
+
 /* This routine initializes the matching
 ** data structure according to the original
 ** graph to be coarsened.
@@ -194,7 +215,7 @@ Context * const                       contptr)
   if (matcptr->levltab[0].grafdat.edlotax != NULL) { /* If original graph has edge loads */
     Gnum                edgenbr;
 
-    edgenbr = matcptr->levltab[0].grafdat.edgenbr;
+    edgenbr = archDeco2BuildEdgeSize (&matcptr->levltab[0].grafdat); /* Graph may not be compact */
     if ((matcptr->lewgtab[0].edwgtab = memAlloc (edgenbr * sizeof (Gnum))) == NULL) {
       errorPrint ("archDeco2BuildMatchInit: out of memory (5)");
       archDeco2BuildMatchExit (matcptr);
@@ -681,7 +702,7 @@ Context * const             contptr)              /*+ Execution context
       levlptr->grafdat.velosum = levlptr->grafdat.vertnbr;
     }
     if (lewgptr->edwgtab != NULL) {
-      memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.baseval, lewgptr->edwgtab, levlptr->grafdat.edgenbr * sizeof (Gnum));
+      memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.baseval, lewgptr->edwgtab, archDeco2BuildEdgeSize (&levlptr->grafdat) * sizeof (Gnum));
       levlptr->grafdat.edlosum = lewgptr->edwgsum;
       memFree (lewgptr->edwgtab);
       lewgptr->edwgtab = NULL;
diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 1f68c90..0cf3702 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -247,6 +247,7 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index 94a3a3d..60337a0 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -226,6 +226,7 @@ FILE * restrict const       stream)
   ArchDecoTermVert * restrict termverttab;        /* Table of terminal vertex data                    */
   Anum * restrict             termdisttab;        /* Table of terminal-to-terminal distances          */
   INT                         i, j;
+  int                         o;
 
 #ifdef SCOTCH_DEBUG_ARCH1
   if ((sizeof (ArchDeco)    > sizeof (ArchDummy)) ||
@@ -294,9 +295,11 @@ FILE * restrict const       stream)
       termdisttab[i] = (Anum) termdistval;
     }
 
-    archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
+    o = archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
 
     memFree (termverttab);                        /* Free group leader */
+    if (o != 0)
+      return (1);
   }
   else {                                          /* If it is a compiled decomposition */
     if (memAllocGroup ((void **) (void *)
diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index caed55f..b6e8b8a 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -632,6 +632,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1) ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 40e5ab9..7af4d77 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -88,7 +88,8 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &termnbr) != 1) {
+  if ((intLoad (stream, &termnbr) != 1) ||
+      (termnbr < 1)) {
     errorPrint ("archSubArchLoad: bad input (1)");
     return (1);
   }
@@ -112,12 +113,15 @@ FILE * restrict const       stream)
     return (1);
   }
 
+  archInit (orgarchptr);
   o = archLoad (orgarchptr, stream);
   if (o == 0)
     o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
   if (o != 0) {
     archExit (orgarchptr);
     memFree  (orgarchptr);
+    subarchptr->archptr = NULL;                   /* Prevent cleaning routine from freeing data twice */
+    subarchptr->termtab = NULL;
   }
 
   memFree (termtab);
@@ -190,12 +194,14 @@ ArchSub * const             archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if ((archArch (archptr)->flagval & ARCHFREE) != 0) { /* If sub-architecture needs to be freed too */
+  if (((archArch (archptr)->flagval & ARCHFREE) != 0) &&
+      (archptr->archptr != NULL)) {               /* If sub-architecture needs to be freed too */
     archFree (archptr->archptr);
     memFree  (archptr->archptr);
   }
 
-  memFree (archptr->termtab);                     /* Free group leader */
+  if (archptr->termtab != NULL)
+    memFree (archptr->termtab);                   /* Free group leader */
 
   return (0);
 }
diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 194efb8..bfc48cb 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -112,7 +112,8 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &archptr->levlnbr) != 1) {
+  if ((intLoad (stream, &archptr->levlnbr) != 1) ||
+      (archptr->levlnbr < 0)) {
     errorPrint ("archTleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -159,7 +160,8 @@ ArchTleaf * const           archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  memFree (archptr->sizetab);                     /* Free group leader */
+  if (archptr->sizetab != NULL)
+    memFree (archptr->sizetab);                   /* Free group leader */
   if (archptr->permtab != NULL)
     memFree (archptr->permtab);                   /* Free group leader */
 
@@ -694,12 +696,12 @@ FILE * restrict const       stream)
     Anum                levlnum;
     Anum                sizeval;
 
-    for (levlnum = archptr->levlnbr - 1, sizeval = archptr->sizetab[levlnum];
-         sizeval != archptr->permnbr; levlnum --, sizeval *= archptr->sizetab[levlnum]) {
+    for (levlnum = archptr->levlnbr - 1, sizeval = 1; sizeval != archptr->permnbr; levlnum --) {
       if (levlnum < 0) {
         errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
         return     (1);
       }
+      sizeval *= archptr->sizetab[levlnum];
     }
   }
 #endif /* SCOTCH_DEBUG_ARCH2 */
-- 
2.43.0


From c86a4495ad611f41f071a0f7f9044855aecca9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 17/55] fix: recursive bipartitioning with untied mappings,
 fixed vertices or empty graphs

---
 src/libscotch/bgraph_bipart_gg.c  |  3 ++
 src/libscotch/kgraph_map_rb.c     | 67 ++++++++++---------------------
 src/libscotch/kgraph_map_rb_map.c |  5 +++
 src/libscotch/library_graph_map.c |  3 +-
 4 files changed, 31 insertions(+), 47 deletions(-)

diff --git a/src/libscotch/bgraph_bipart_gg.c b/src/libscotch/bgraph_bipart_gg.c
index f15e9ae..e51b5d8 100644
--- a/src/libscotch/bgraph_bipart_gg.c
+++ b/src/libscotch/bgraph_bipart_gg.c
@@ -151,6 +151,9 @@ const BgraphBipartGgParam * const paraptr)        /*+ Method parameters +*/
   const Gnum * const          edlotax = grafptr->s.edlotax; /* [norestrict] */
   const Gnum * restrict const veextax = grafptr->veextax;
 
+  if (grafptr->s.vertnbr <= 0)                    /* If nothing to bipartition */
+    return (0);
+
   if ((bgraphBipartGgTablInit (&tabldat) != 0) ||
       ((vexxtax = (BgraphBipartGgVertex *) memAlloc (grafptr->s.vertnbr * sizeof (BgraphBipartGgVertex))) == NULL)) {
     errorPrint ("bgraphBipartGg: out of memory (1)");
diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..e0d5775 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -165,6 +165,8 @@ const KgraphMapRbParam * restrict const paraptr)
       return (1);
     }
   }
+  if (o != 0)                                     /* If no valid mapping could be computed */
+    return (o);
 
   if (memReallocGroup (grafptr->comploadavg,      /* Reallocate cost array according to potential new size                                        */
                        &grafptr->comploadavg, (size_t) (grafptr->m.domnmax * sizeof (Gnum)), /* TRICK: can send both compload arrays in one piece */
@@ -337,60 +339,34 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
 
   vflomax = vflonbr;
   if (archVar (archptr) == 0) {
-    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum < vflonnd; ) {
-      while (1) {
+    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-        int                 o;
+      int                 o;
 
-        o =
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-        archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
-#ifdef SCOTCH_DEBUG_KGRAPH2
-        if (o != 0) {
-          errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
-          return;
-        }
+      o =
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
-          compload0 += vflotab[vflonum].veloval;  /* Fixed vertex belongs to first subdomain                                    */
-          if (++ vflonum > vflonnd)               /* If passed beyond the limit of the second subdomain                         */
-            goto quit;
-        }
-        else {
+      archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
-            return;
-          }
+      if (o != 0) {
+        errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
+        return;
+      }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
+        compload0 += vflotab[vflonum ++].veloval; /* Fixed vertex belongs to first subdomain; keep it in place                */
+        continue;
       }
-      while (1) {
-        archDomTerm (archptr, &domndat, vflotab[vflonnd].termnum);
-        if (archDomIncl (archptr, &domnsubtab[1], &domndat) == 1) { /* If terminal vertex subdomain included in second subdomain */
-          compload1 += vflotab[vflonnd].veloval;  /* Fixed vertex belongs to second subdomain                                    */
-          if (-- vflonnd <= vflonum) {            /* If matched the location of a slot that also belongs to second subdomain     */
-            compload1 += vflotab[vflonnd].veloval; /* Add load of reached slot to second subdomain                               */
-            goto quit;
-          }
-        }
-        else {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[0], &domndat) != 1) { /* If terminal vertex subdomain not included in first subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (3)");
-            return;
-          }
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
+        errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
+        return;
       }
+#endif /* SCOTCH_DEBUG_KGRAPH2 */
+      compload1 += vflotab[vflonum].veloval;      /* Fixed vertex belongs to second subdomain */
 
-      vflodat          = vflotab[vflonum];        /* Swap slots */
-      vflotab[vflonum] = vflotab[vflonnd];
-      vflotab[vflonnd] = vflodat;
-      compload0 += vflotab[vflonum ++].veloval;
-      compload1 += vflotab[vflonnd --].veloval;
+      vflodat             = vflotab[vflonum];     /* Swap slots */
+      vflotab[vflonum]    = vflotab[vflonnd];
+      vflotab[vflonnd --] = vflodat;
     }
   }
   else {                                          /* If variable-sized architecture, pseudo-terminals may not always be included */
@@ -430,7 +406,6 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
     }
   }
 
-quit:
   vflonbrtab[0] = vflonum;
   vflonbrtab[1] = vflomax - vflonum;
   vflowgttab[0] = compload0;
diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index c59f952..7ce8ae7 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -166,6 +166,7 @@ Context * const                         contptr)
       memFree    (poolptr->jobtab);
       return (1);
     }
+    memCpy (poolptr->domntab[1], mappptr->domntab, mappptr->domnnbr * sizeof (ArchDom)); /* Both arrays start from the same state */
   }
 
   poolptr->flagval = flagval;
@@ -207,6 +208,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
     mappptr->flagval |= MAPPINGFREEDOMN;          /* Keep current domain array as private mapping domain array */
     mappptr->domntab  = poolptr->domntab[1];
   }
+  else if (poolptr->domntab[0] != poolptr->domntab[1]) /* Else if second domain array was allocated, free it */
+    memFree (poolptr->domntab[0]);
 
   memFree (poolptr->jobtab);
 }
@@ -232,6 +235,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
   domntmp             = poolptr->domntab[0];
   poolptr->domntab[0] = poolptr->domntab[1];
   poolptr->domntab[1] = domntmp;
+  if (poolptr->domntab[0] != poolptr->domntab[1]) /* If mappings are not tied, propagate domains which will no longer be processed */
+    memCpy (poolptr->domntab[0], poolptr->domntab[1], poolptr->mappptr->domnnbr * sizeof (ArchDom));
 }
 
 /* This routine doubles the size all of the arrays
diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b8191d7..6af84dc 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -292,7 +292,8 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
   mapgrafdat.contptr = CONTEXTGETDATA (actgrafptr);
 
   o = kgraphMapSt (&mapgrafdat, mapstraptr);
-  mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
+  if (o == 0)
+    mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
 
   kgraphExit (&mapgrafdat);
 
-- 
2.43.0


From 8f1d499411ae34a346f75c1af03f03b0b457e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:47 +0000
Subject: [PATCH 18/55] fix: mapping with fixed vertices or random strategies:
 stale domains, wrong part loads, out-of-bounds accesses

kgraphMapFm kept stale domain data when it had to recompute the mapping;
bgraphZero and bgraphSwal miscounted fixed loads; bgraphBipartGp ran past
the vertex array; kgraphBand scanned edge 0 of based graphs and mis-sized
the old parts of anchors.
---
 src/libscotch/bgraph.c           |  4 ++--
 src/libscotch/bgraph_bipart_gp.c |  4 ++--
 src/libscotch/kgraph_band.c      |  4 ++--
 src/libscotch/kgraph_map_fm.c    | 29 +++++++++++++++++++----------
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/libscotch/bgraph.c b/src/libscotch/bgraph.c
index 120b9d2..5abda8c 100644
--- a/src/libscotch/bgraph.c
+++ b/src/libscotch/bgraph.c
@@ -222,7 +222,7 @@ Bgraph * restrict const     grafptr)
   for (vertnum = grafptr->s.baseval, vertnnd = grafptr->s.vertnnd; vertnum < vertnnd; vertnum ++)
     parttax[vertnum] ^= 1;
 
-  comploadsum = grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]; /* Overall load sum, including fixed vertex loads */
+  comploadsum = grafptr->s.velosum;               /* Fixed vertex loads are accounted for in compload0avg only */
   grafptr->compload0    =   comploadsum - grafptr->compload0;
   grafptr->compload0dlt =   comploadsum - grafptr->compload0dlt - 2 * grafptr->compload0avg;
   grafptr->compsize0    =   grafptr->s.vertnbr - grafptr->compsize0; /* Size does not account for fixed vertices */
@@ -243,7 +243,7 @@ Bgraph * restrict const     grafptr)
 {
   Gnum                compload0;
 
-  compload0 = grafptr->s.velosum + grafptr->vfixload[0];
+  compload0 = grafptr->s.velosum;                 /* Fixed vertex loads are accounted for in compload0avg only */
   grafptr->fronnbr      = 0;                      /* No frontier vertices */
   grafptr->compload0dlt = compload0 - grafptr->compload0avg;
   grafptr->compload0    = compload0;
diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..b45a845 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,8 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
-      rootnum ++;
+    if (vexxtax[rootnum].passnum != 0)            /* Skip vertices already allocated */
+      continue;
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..149fcfa 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -264,7 +264,7 @@ abort:
       errorPrint ("kgraphBand: out of memory (5)");
       goto abort;
     }
-    memSet (bandparotax + bandvertnbr - bandgrafptr->r.m.domnnbr, ~0, bandgrafptr->r.m.domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
+    memSet (bandparotax + bandvertnbr - domnnbr, ~0, domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
     bandparotax -= bandgrafptr->s.baseval;
     bandgrafptr->r.m.flagval |= MAPPINGINCOMPLETE | MAPPINGFREEPART; /* Remapping may be incomplete */
     bandgrafptr->r.m.parttax  = bandparotax;
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..f95c7d9 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,18 +994,12 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr; /* May change if mapping is recomputed */
+  const ArchDom * restrict        domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
 
-#ifdef SCOTCH_DEBUG_KGRAPH3                       /* Allocation of extra memory needed for the check routine */
-  if ((chektab = memAlloc (domnnbr * 3 * sizeof(Gnum))) == NULL) {
-    errorPrint ("kgraphMapFm: out of memory (1)");
-    return     (1);
-  }
-#endif /* SCOTCH_DEBUG_KGRAPH3 */
   tablptr = &tabldat;
 
   grafptr->kbalval = paraptr->deltval;            /* Store last k-way imbalance ratio */
@@ -1034,10 +1028,18 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
+      int                   o;
 
       strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      o = kgraphMapSt (grafptr, strat);           /* Perform mapping */
+      stratExit (strat);
+      if (o != 0) {
+        memFree (comploadmax);
+        return  (1);
+      }
+      domnnbr = grafptr->m.domnnbr;               /* Domain array may have changed after mapping */
+      domntab = grafptr->m.domntab;
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
@@ -1058,6 +1060,13 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
     }
   }
 
+#ifdef SCOTCH_DEBUG_KGRAPH3                       /* Allocation of extra memory needed for the check routine */
+  if ((chektab = memAlloc (domnnbr * 3 * sizeof(Gnum))) == NULL) {
+    errorPrint ("kgraphMapFm: out of memory (1)");
+    memFree    (comploadmax);
+    return     (1);
+  }
+#endif /* SCOTCH_DEBUG_KGRAPH3 */
 #ifdef SCOTCH_DEBUG_KGRAPH2                       /* Allocation of extended vertex hash table and extended edge array */
   hashnbr = 2 * grafptr->fronnbr + 1;             /* Ensure resizing will be performed, for maximum code coverage     */
   savesiz = 2 * grafptr->fronnbr + 1;             /* Ensure resizing will be performed, for maximum code coverage     */
-- 
2.43.0


From 00be720815aee59822402725bf3a712e3e17faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 19/55] fix: partitioning with overlap crashed or looped on
 empty parts, edge separators and unlimited refinement

wgraphPartRb called itself with the wrong part when a part was empty;
wgraphPartEs and vgraphSeparateEs used undefined domains, contexts and
unweighted balances; graphPartOvl started from an undefined state;
vgraphSeparateGg and Fm divided by zero on empty graphs, and Fm could
cycle forever with an unlimited number of passes.
---
 src/libscotch/library_graph_part_ovl.c |  1 +
 src/libscotch/vgraph_separate_es.c     |  4 +++-
 src/libscotch/vgraph_separate_fm.c     | 18 ++++++++++++++++--
 src/libscotch/vgraph_separate_gg.c     |  5 +++++
 src/libscotch/wgraph_part_es.c         |  5 ++++-
 src/libscotch/wgraph_part_rb.c         |  9 +++++++--
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..a095154 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -114,6 +114,7 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     errorPrint (STRINGIFY (SCOTCH_graphPartOvl) ": out of memory");
     goto abort;
   }
+  wgraphZero (&grafdat);                          /* Set initial state for all strategies */
 
   o = wgraphPartSt (&grafdat, partstraptr);
 
diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..4555fd7 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -491,6 +491,8 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
+  actgrafdat.levlnum   = grafptr->levlnum;
+  actgrafdat.contptr   = grafptr->contptr;
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
     errorPrint ("vgraphSeparateEs: cannot bipartition active graph");
@@ -756,7 +758,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
     }
   }
 
-  grafptr->comploaddlt = grafptr->compload[0] - grafptr->compload[1];
+  grafptr->comploaddlt = grafptr->compload[0] * grafptr->dwgttab[1] - grafptr->compload[1] * grafptr->dwgttab[0];
   grafptr->compload[2] = grafptr->s.velosum - grafptr->compload[0] - grafptr->compload[1];
   grafptr->fronnbr     = grafptr->s.vertnbr - grafptr->compsize[0] - grafptr->compsize[1];
 
diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index 07f6fad..0bf1260 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -158,6 +158,9 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
   INT                             passnbr;        /* Maximum number of passes to go          */
   Gnum                            movenbr;        /* Number of uneffective moves done        */
   int                             moveflag;       /* Flag set if useful moves made           */
+  Gnum                            passdlt;        /* Excess imbalance at start of pass       */
+  Gnum                            passload2;      /* Separator load at start of pass         */
+  Gnum                            passabsdlt;     /* Imbalance at start of pass              */
   Gnum                            savenbr;        /* Position of current move                */
   VgraphSeparateFmSave * restrict savetab;        /* Pointer to move array                   */
   Gnum                            hashmax;        /* Maximum number of elements in table     */
@@ -187,6 +190,9 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
   const Gnum                  dwg0val = grafptr->dwgttab[0]; /* Part weights */
   const Gnum                  dwg1val = grafptr->dwgttab[1];
 
+  if (grafptr->s.vertnbr <= 0)                    /* If empty graph, nothing to do */
+    return (0);
+
   comploaddltmat = (paraptr->deltrat > 0.0L)
                    ? MAX ((Gnum) ((grafptr->compload[0] + grafptr->compload[1]) * paraptr->deltrat),
                           ((2 * grafptr->s.velosum) / grafptr->s.vertnbr)) * MIN (dwg0val, dwg1val) /* Always measure wrt. smallest domain weight */
@@ -367,7 +373,10 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
     }
     lockdat.prev = &lockdat;                      /* Restore backward chaining */
 
-    moveflag = 0;                                 /* No moves to date                          */
+    moveflag   = 0;                               /* No moves to date                          */
+    passload2  = compload2bst;                    /* Record state of best solution before pass */
+    passabsdlt = abs (comploaddltbst);
+    passdlt    = MAX (passabsdlt - comploaddltmat, 0);
     movenbr  =                                    /* No uneffective moves yet                  */
     savenbr  = 0;                                 /* No recorded moves yet                     */
     while ((movenbr < paraptr->movenbr) &&        /* As long as we can find effective vertices */
@@ -637,7 +646,12 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
       }
     }
   } while ((moveflag != 0) &&                     /* As long as vertices are moved                          */
-           (-- passnbr != 0));                    /* And we are allowed to loop (TRICK for negative values) */
+           (-- passnbr != 0)   &&                 /* And we are allowed to loop (TRICK for negative values) */
+           ((passnbr >= 0) ||                     /* And, when not bounded, solution really improved        */
+            (MAX (abs (comploaddltbst) - comploaddltmat, 0) < passdlt) ||
+            ((MAX (abs (comploaddltbst) - comploaddltmat, 0) == passdlt) &&
+             ((compload2bst < passload2) ||
+              ((compload2bst == passload2) && (abs (comploaddltbst) < passabsdlt))))));
 
   while (savenbr -- > 0) {                        /* Delete exceeding moves */
     Gnum                hashnum;
diff --git a/src/libscotch/vgraph_separate_gg.c b/src/libscotch/vgraph_separate_gg.c
index 007f439..e6b1ccb 100644
--- a/src/libscotch/vgraph_separate_gg.c
+++ b/src/libscotch/vgraph_separate_gg.c
@@ -114,6 +114,11 @@ const VgraphSeparateGgParam * const paraptr)      /*+ Method parameters +*/
   const Gnum                  dwg0val = grafptr->dwgttab[0]; /* Part weights */
   const Gnum                  dwg1val = grafptr->dwgttab[1];
 
+  if (grafptr->s.vertnbr <= 0) {                  /* If empty graph, nothing to grow */
+    vgraphZero (grafptr);
+    return (0);
+  }
+
   if (((tablptr = gainTablInit (GAIN_LINMAX, VGRAPHSEPAGGSUBBITS)) == NULL) || /* Use logarithmic array only */
       ((vexxtax = (VgraphSeparateGgVertex *) memAlloc (grafptr->s.vertnbr * sizeof (VgraphSeparateGgVertex))) == NULL)) {
     errorPrint ("vgraphSeparateGg: out of memory (1)");
diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..6219296 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -105,13 +105,16 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
 
   if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum)); /* Some parts may have no domain */
+  for (partnum = 0; partnum < actgrafdat.m.domnnbr; partnum ++)
     comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
 
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..f243c1e 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -360,8 +360,13 @@ const WgraphPartRbSplit * const spltptr)
     spltdat.frontab = NULL;                       /* No separator vertices, even if they were some */
     spltdat.fronnbr = 0;
     spltdat.parttax = NULL;
-    wgraphPartRb2 (contptr, partval, &spltdat);
-    vgraphExit    (&actgrafdat);
+    if (spltdat.splttab[1].domnsiz <= 1) {        /* If target domain is terminal, map all vertices to it */
+      memSet (actgrafdat.parttax + actgrafdat.s.baseval, 0, actgrafdat.s.vertnbr * sizeof (GraphPart));
+      wgraphPartRb3Both (dataptr, &actgrafdat.s, actgrafdat.parttax, spltdat.splttab[1].domnnum);
+    }
+    else
+      wgraphPartRb2 (contptr, 1, &spltdat);
+    vgraphExit (&actgrafdat);
     if (o != 0)
       goto abort;
     return;
-- 
2.43.0


From df5aaaebc526e16ad33f12a748770a7272a16f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 20/55] fix: minimum degree orderings crashed or failed on
 graphs with isolated weighted vertices or null vertex weights

---
 src/libscotch/hall_order_hd.c   |  2 +-
 src/libscotch/hgraph_order_hd.c | 13 ++++++++++++-
 src/libscotch/hgraph_order_hf.c | 13 ++++++++++++-
 src/libscotch/hgraph_order_hx.c | 15 ++++++++++++---
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..232f29b 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel += nv[i];
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
diff --git a/src/libscotch/hgraph_order_hd.c b/src/libscotch/hgraph_order_hd.c
index fe5a39e..66f14d9 100644
--- a/src/libscotch/hgraph_order_hd.c
+++ b/src/libscotch/hgraph_order_hd.c
@@ -117,6 +117,14 @@ const HgraphOrderHdParam * restrict const paraptr)
 
   n     = grafptr->s.vertnbr;
   norig = grafptr->s.velosum;
+  if (grafptr->s.velotax != NULL) {               /* Vertices of null weight will be ordered as vertices of weight 1 */
+    Gnum                vertnum;
+
+    for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
+      if (grafptr->s.velotax[vertnum] == 0)
+        norig ++;
+    }
+  }
   iwlen = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHDCOMPRAT) + 32;
   if (iwlen < n)                                  /* Prepare to re-use array */
     iwlen = n;
@@ -150,7 +158,10 @@ const HgraphOrderHdParam * restrict const paraptr)
   }
 
   if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
+    Gnum                vertnum;
+
+    for (vertnum = 0; vertnum < n; vertnum ++)
+      cwgttax[vertnum] = MAX (grafptr->s.velotax[vertnum + grafptr->s.baseval], 1);
     cwgttax -= grafptr->s.baseval;
   }
   else
diff --git a/src/libscotch/hgraph_order_hf.c b/src/libscotch/hgraph_order_hf.c
index 4dd30de..9395e2f 100644
--- a/src/libscotch/hgraph_order_hf.c
+++ b/src/libscotch/hgraph_order_hf.c
@@ -117,6 +117,14 @@ const HgraphOrderHfParam * restrict const paraptr)
 
   n      = grafptr->s.vertnbr;
   norig  = grafptr->s.velosum;
+  if (grafptr->s.velotax != NULL) {               /* Vertices of null weight will be ordered as vertices of weight 1 */
+    Gnum                vertnum;
+
+    for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
+      if (grafptr->s.velotax[vertnum] == 0)
+        norig ++;
+    }
+  }
   nbbuck = norig * 2;
   iwlen  = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHFCOMPRAT) + 32;
   if (iwlen < n)                                  /* TRICK: make sure to be able to re-use array */
@@ -152,7 +160,10 @@ const HgraphOrderHfParam * restrict const paraptr)
   }
 
   if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
+    Gnum                vertnum;
+
+    for (vertnum = 0; vertnum < n; vertnum ++)
+      cwgttax[vertnum] = MAX (grafptr->s.velotax[vertnum + grafptr->s.baseval], 1);
     cwgttax -= grafptr->s.baseval;
   }
   else
diff --git a/src/libscotch/hgraph_order_hx.c b/src/libscotch/hgraph_order_hx.c
index 06d424b..03ac4e5 100644
--- a/src/libscotch/hgraph_order_hx.c
+++ b/src/libscotch/hgraph_order_hx.c
@@ -82,6 +82,7 @@ Gnum * restrict const         nvtab,
 Gnum * restrict const         elentab,
 Gnum * restrict const         pfreptr)
 {
+  Gnum                norig;                      /* Number of nodes in uncompressed graph */
   Gnum                vertadj;                    /* Index adjustment for vertices */
   Gnum                vertnum;
   Gnum                vertnew;
@@ -97,6 +98,14 @@ Gnum * restrict const         pfreptr)
   const Gnum * restrict const velotax = grafptr->s.velotax;
   const Gnum * restrict const edgetax = grafptr->s.edgetax;
 
+  norig = grafptr->s.velosum;                     /* Compute size of uncompressed graph, where null weights count for 1 */
+  if (velotax != NULL) {
+    for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
+      if (velotax[vertnum] == 0)
+        norig ++;
+    }
+  }
+
   vertadj = 1 - grafptr->s.baseval;
   for (vertnum = grafptr->s.baseval, vertnew = edgenew = 1; /* Process non-halo vertices */
        vertnum < grafptr->vnohnnd; vertnum ++, vertnew ++) {
@@ -107,7 +116,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnew]   = edgenew;
     lentax[vertnew]  = degrval;
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (velotax[vertnum], 1) : 1; /* Null weights would denote absorbed vertices */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++, edgenew ++)
       iwtax[edgenew] = edgetax[edgenum] + vertadj;
@@ -118,9 +127,9 @@ Gnum * restrict const         pfreptr)
 
     degrval = verttax[vertnum] - vendtax[vertnum]; /* Negative degree */
     petax[vertnew]   = edgenew;
-    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - grafptr->s.velosum);
+    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (velotax[vertnum], 1) : 1;
 
     for (edgenum = grafptr->s.verttax[vertnum];
          edgenum < grafptr->s.vendtax[vertnum]; edgenum ++, edgenew ++)
-- 
2.43.0


From af92a211fc03c0556e3036cff8dc659228e2d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 21/55] fix: nested ordering methods wrote at wrong indices
 (components, compression, block splitting) or without context (k-way)

---
 src/libscotch/hgraph_order_bl.c | 229 +++++++++++++++++++-------------
 src/libscotch/hgraph_order_cc.c |   2 +-
 src/libscotch/hgraph_order_cp.c |   2 +-
 src/libscotch/hgraph_order_kp.c |   1 +
 4 files changed, 138 insertions(+), 96 deletions(-)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 1bb4daa..60d2ea8 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -65,6 +65,125 @@
 #include "hgraph_order_bl.h"
 #include "hgraph_order_st.h"
 
+/*************************************/
+/*                                   */
+/* This routine splits column blocks */
+/* into smaller ones.                */
+/*                                   */
+/*************************************/
+
+/* This routine recursively splits the leaves
+** of the given column block tree.
+** It returns:
+** - 0   : if the splitting could be performed.
+** - !0  : on error.
+*/
+
+static
+int
+hgraphOrderBl2 (
+Order * restrict const        ordeptr,
+const Gnum                    ordenum,            /*+ Zero-based ordering number                        +*/
+OrderCblk * restrict const    cblkptr,            /*+ Column block to split                             +*/
+const Gnum * restrict const   velotax,            /*+ Vertex loads, by vertex number in ordering, or NULL +*/
+const Gnum                    cblkmin)
+{
+  Gnum                cblknbr;                    /* Number of column blocks for splitting */
+  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum                vnlosum;                    /* Load of block                         */
+
+  if (cblkptr->cblktab != NULL) {                 /* If block already partitioned */
+    Gnum                cblknum;
+    Gnum                ordetmp;
+
+    for (cblknum = 0, ordetmp = ordenum; cblknum < cblkptr->cblknbr; cblknum ++) {
+      if (hgraphOrderBl2 (ordeptr, ordetmp, cblkptr->cblktab + cblknum, velotax, cblkmin) != 0)
+        return (1);
+      ordetmp += cblkptr->cblktab[cblknum].vnodnbr;
+    }
+    return (0);
+  }
+
+  vnlosum = cblkptr->vnodnbr;                     /* Compute load of single column block */
+  if (velotax != NULL) {
+    Gnum                vnodnum;
+
+    for (vnodnum = 0, vnlosum = 0; vnodnum < cblkptr->vnodnbr; vnodnum ++)
+      vnlosum += velotax[ordeptr->peritab[ordenum + vnodnum]];
+  }
+
+  if ((cblkptr->vnodnbr <= 1) ||                  /* If block has only one column  */
+      (vnlosum < (2 * cblkmin)))                  /* Or does not need to be split  */
+    return (0);
+
+  cblknbr = vnlosum / cblkmin;                    /* Get new (maximum) number of blocks      */
+  cblksiz = MIN (cblknbr, cblkptr->vnodnbr);      /* No more column blocks than columns      */
+
+  if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+    errorPrint ("hgraphOrderBl: out of memory");
+    return (1);
+  }
+
+  if (velotax == NULL) {                          /* For unweighted graphs, split blocks evenly */
+    Gnum                cblknum;
+
+    for (cblknum = 0; cblknum < cblksiz; cblknum ++) { /* No more column blocks than those allocated */
+      cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
+      cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (vnlosum, cblknbr, cblknum);
+      cblkptr->cblktab[cblknum].cblknbr = 0;
+      cblkptr->cblktab[cblknum].cblktab = NULL;
+    }
+  }
+  else {
+    Gnum                blloval;                  /* Current accumulated weight                     */
+    Gnum                vnodnum;                  /* Current permuted node index                    */
+    Gnum                vnodbas;                  /* Starting permuted node index for current block */
+    Gnum                cblknum;                  /* Current number of column subblocks             */
+    Gnum                cblkidx;                  /* Ghost column block index for even splitting    */
+
+    blloval =
+    vnodbas =
+    vnodnum = 0;
+    cblknum =
+    cblkidx = 0;
+    while (vnodnum < cblkptr->vnodnbr) {          /* As long as columns remain */
+      Gnum                blloend;                /* Weight to reach for this subblock */
+
+      do                                          /* Compute bound of next subblock */
+        blloend = DATASCAN (vnlosum, cblknbr, ++ cblkidx);
+      while ((blloend <= blloval) && (cblkidx < cblknbr)); /* Next bound must be higher than current state */
+
+      do {                                        /* Accumulate weights until bound is reached */
+        blloval += velotax[ordeptr->peritab[ordenum + vnodnum]];
+        vnodnum ++;
+      } while ((vnodnum < cblkptr->vnodnbr) &&
+               ((blloval < blloend) || (cblkidx >= cblknbr))); /* Last block takes all remaining columns */
+
+      cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
+      cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
+      cblkptr->cblktab[cblknum].cblknbr = 0;
+      cblkptr->cblktab[cblknum].cblktab = NULL;
+      cblknum ++;                                 /* One more effective column block */
+      vnodbas = vnodnum;                          /* Reset base for next block       */
+    }
+
+    cblknbr = cblknum;                            /* Use effective number of blocks */
+  }
+
+  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+  cblkptr->cblknbr = cblknbr;
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_lock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+  ordeptr->treenbr += cblknbr;                    /* That many more tree nodes    */
+  ordeptr->cblknbr += cblknbr - 1;                /* That many more column blocks */
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_unlock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+
+  return (0);
+}
+
 /*****************************/
 /*                           */
 /* This is the main routine. */
@@ -85,8 +204,9 @@ const Gnum                                ordenum, /*+ Zero-based ordering numbe
 OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
 const HgraphOrderBlParam * restrict const paraptr)
 {
-  Gnum                cblknbr;                    /* Number of column blocks for splitting */
-  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  const Gnum * restrict velotax;                  /* Vertex loads, by vertex number in ordering */
+  Gnum * restrict       velotab;
+  int                   o;
 
   if (paraptr->cblkmin <= 0) {
     errorPrint ("hgraphOrderBl: invalid minimum block size");
@@ -96,103 +216,24 @@ const HgraphOrderBlParam * restrict const paraptr)
   if (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
     return (1);
 
-  if (cblkptr->cblktab == NULL) {                 /* If single column block */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-    if (cblkptr->vnodnbr != grafptr->vnohnbr) {
-      errorPrint ("hgraphOrderBl: invalid column block");
-      return (1);
-    }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-
-    if ((cblkptr->vnodnbr <= 1) ||                /* Il block has only one column    */
-        (grafptr->vnlosum < (2 * paraptr->cblkmin))) /* Or does not need to be split */
-      return (0);
-
-    cblknbr = grafptr->vnlosum / paraptr->cblkmin; /* Get new (maximum) number of blocks */
-    cblksiz = MIN (cblknbr, grafptr->vnohnbr);    /* No more column blocks than columns  */
+  velotax = grafptr->s.velotax;
+  velotab = NULL;
+  if ((velotax != NULL) && (grafptr->s.vnumtax != NULL)) { /* If graph is a weighted induced subgraph */
+    Gnum                vertnum;
 
-    if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+    if ((velotab = (Gnum *) memAlloc (ordeptr->vnodnbr * sizeof (Gnum))) == NULL) {
       errorPrint ("hgraphOrderBl: out of memory");
       return (1);
     }
-
-    if (grafptr->s.velotax == NULL) {             /* For unweighted graphs, split blocks evenly */
-      Gnum                cblknum;
-
-      for (cblknum = 0; cblknum < cblksiz; cblknum ++) { /* No more column blocks than those allocated */
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
-        cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (grafptr->vnlosum, cblknbr, cblknum);
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-      }
-    }
-    else {
-      Gnum                vnlomax;                /* Maxumum weight to reach for this subblock      */
-      Gnum                vnlosum;                /* Current accumulated weight                     */
-      Gnum                vnodnum;                /* Current permuted node index                    */
-      Gnum                vnodbas;                /* Starting permuted node index for current block */
-      Gnum                cblknum;                /* Current number of column subblocks             */
-      Gnum                cblkidx;                /* Ghost column block index for even splitting    */
-
-      vnlomax =
-      vnlosum = 0;
-      vnodbas =
-      vnodnum = 0;
-      cblknum =
-      cblkidx = 0;
-      do {                                        /* Go on filling column blocks    */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-        if (cblknum >= cblksiz) {                 /* No more column blocks than those allocated */
-          errorPrint ("hgraphOrderBl: internal error (1)");
-          return (1);
-        }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-        do {                                      /* Compute bound of next subblock */
-          cblkidx ++;
-#ifdef SCOTCH_DEBUG_HGRAPH2
-          if (cblkidx > cblknbr) {                /* No more ghost indices than ghost column blocks */
-            errorPrint ("hgraphOrderBl: internal error (2)");
-            return (1);
-          }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-          vnlomax = DATASCAN (grafptr->vnlosum, cblknbr, cblkidx); /* Bound of next subblock      */
-        } while (vnlomax <= vnlosum);             /* Next bound must be higher than current state */
-
-        do {                                      /* Accumulate weights until bound is reached */
-          vnlosum += grafptr->s.velotax[ordeptr->peritab[vnodnum]];
-          vnodnum ++;
-        } while (vnlosum < vnlomax);
-
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
-        cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-        cblknum ++;                               /* One more effective column block */
-        vnodbas = vnodnum;                        /* Reset base for next block       */
-      } while (vnlosum < grafptr->vnlosum);       /* As long as columns remain       */
-
-      cblknbr = cblknum;                          /* Use effective number of blocks */
-    }
-
-    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
-    cblkptr->cblknbr = cblknbr;
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_lock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-    ordeptr->treenbr += cblknbr;                  /* That many more tree nodes    */
-    ordeptr->cblknbr += cblknbr - 1;              /* That many more column blocks */
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_unlock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
+    for (vertnum = grafptr->s.baseval; vertnum < grafptr->vnohnnd; vertnum ++)
+      velotab[grafptr->s.vnumtax[vertnum] - ordeptr->baseval] = velotax[vertnum];
+    velotax = velotab - ordeptr->baseval;
   }
-  else {                                          /* Block already partitioned */
-    Gnum                cblknum;
 
-    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hgraphOrderBl (grafptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
-        return (1);
-    }
-  }
+  o = hgraphOrderBl2 (ordeptr, ordenum, cblkptr, velotax, paraptr->cblkmin); /* Split all leaves of the column block tree */
 
-  return (0);
+  if (velotab != NULL)
+    memFree (velotab);
+
+  return (o);
 }
diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..a3a5473 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -475,7 +475,7 @@ loop_failed: ;
   coarvpostax = coargrafdat.s.verttax;            /* Re-cycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coargrafdat.s.baseval;
 
-  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvertnum < coargrafdat.vnohnnd; coarvertnum ++) {
     coarvpostax[coarperitax[coarvertnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvertnum]];
diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..51f9217 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -108,6 +108,7 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   hgraphUnhalo (grafptr, &actgrafdat.s);          /* Extract non-halo part of given graph       */
   actgrafdat.s.vnumtax = NULL;                    /* Do not keep numbers from nested dissection */
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context                 */
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
-- 
2.43.0


From 8811ab9f756d216d7a62b628e18a31648fc425b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 22/55] fix: ordering of empty graphs and lists failed, errors
 on leaves were ignored, edge load sum was inconsistent

---
 src/libscotch/hgraph_order_nd.c     | 5 ++---
 src/libscotch/library_graph_order.c | 9 ++++++---
 src/libscotch/order.c               | 6 +++++-
 src/libscotch/order_check.c         | 3 +++
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/hgraph_order_nd.c b/src/libscotch/hgraph_order_nd.c
index 8982714..6a8b2f5 100644
--- a/src/libscotch/hgraph_order_nd.c
+++ b/src/libscotch/hgraph_order_nd.c
@@ -174,9 +174,8 @@ const HgraphOrderNdParam * restrict const paraptr)
 
   if ((vspgrafdat.compsize[0] == 0) ||            /* If could not separate more */
       (vspgrafdat.compsize[1] == 0)) {
-    vgraphExit    (&vspgrafdat);                  /* Free useless space */
-    hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    return (0);                                   /* Leaf has been processed */
+    vgraphExit (&vspgrafdat);                     /* Free useless space */
+    return (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea)); /* Order this leaf */
   }
 
   vsplisttab[0].vnumnbr = vspgrafdat.compsize[0]; /* Build vertex lists within frontier array */
diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..b613451 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -276,7 +276,8 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
 
   if (listnbr == 0) {                             /* If empty list, return identity permutation */
     intAscn (libordeptr->o.peritab, srcgrafptr->vertnbr, srcgrafptr->baseval);
-    goto abort;
+    o = 0;                                        /* All vertices are in the single column block */
+    goto done;
   }
 
   if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
@@ -291,12 +292,13 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   memCpy (&halgrafdat.s, srcgrafptr, sizeof (Graph)); /* Copy non-halo graph data */
   halgrafdat.s.flagval &= ~GRAPHFREETABS;         /* Do not allow to free arrays  */
   halgrafdat.s.edlotax  = NULL;                   /* Don't mind about edge loads  */
+  halgrafdat.s.edlosum  = halgrafdat.s.edgenbr;
   halgrafdat.vnohnbr    = halgrafdat.s.vertnbr;   /* All vertices are non-halo    */
   halgrafdat.vnohnnd    = halgrafdat.s.vertnnd;   /* No halo present              */
   halgrafdat.vnhdtax    = halgrafdat.s.vendtax;   /* End of non-halo vertices     */
   halgrafdat.vnlosum    = halgrafdat.s.velosum;   /* Sum of node vertex weights   */
   halgrafdat.enohnbr    = halgrafdat.s.edgenbr;   /* No halo present              */
-  halgrafdat.enlosum    = halgrafdat.s.edlosum;
+  halgrafdat.enlosum    = halgrafdat.s.edgenbr;
   halgrafdat.levlnum    = 0;                      /* No nested dissection yet */
   halgrafdat.contptr    = CONTEXTGETDATA (libgrafptr);
 
@@ -373,6 +375,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
+done:
   if (libordeptr->permtab != NULL)                /* Build direct permutation if wanted */
     orderPeri (libordeptr->o.peritab, srcgrafptr->baseval, libordeptr->o.vnodnbr, libordeptr->permtab, srcgrafptr->baseval);
   if (libordeptr->rangtab != NULL)                /* Build range array if column block data wanted */
@@ -380,7 +383,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   if (libordeptr->treetab != NULL)                /* Build separator tree array if wanted */
       orderTree (&libordeptr->o, libordeptr->treetab);
   if (libordeptr->cblkptr != NULL)                /* Set number of column blocks if wanted */
-    *(libordeptr->cblkptr) = libordeptr->o.cblknbr;
+    *(libordeptr->cblkptr) = (srcgrafptr->vertnbr > 0) ? libordeptr->o.cblknbr : 0;
 
 abort:
   CONTEXTEXIT (libgrafptr);
diff --git a/src/libscotch/order.c b/src/libscotch/order.c
index a850923..b428640 100644
--- a/src/libscotch/order.c
+++ b/src/libscotch/order.c
@@ -186,7 +186,8 @@ Gnum * restrict const         rangtab)            /* Column block range array [+
 
   rangptr = rangtab;                              /* Set beginning of range array */
   ordenum = ordeptr->baseval;                     /* Set initial number           */
-  orderRang2 (&rangptr, &ordenum, &ordeptr->cblktre);
+  if (ordeptr->vnodnbr > 0)                       /* Empty orderings have no column blocks */
+    orderRang2 (&rangptr, &ordenum, &ordeptr->cblktre);
   *rangptr = ordenum;                             /* Set end of range array */
 }
 
@@ -235,6 +236,9 @@ Gnum * restrict const         treetab)            /* Column block separator tree
 {
   Gnum                cblanum;
 
+  if (ordeptr->vnodnbr <= 0)                      /* Empty orderings have no column blocks */
+    return;
+
   cblanum = ordeptr->cblknbr + ordeptr->baseval - 1; /* Set number of last column block */
   orderTree2 (treetab - ordeptr->baseval, &cblanum, &ordeptr->cblktre, -1);
 
diff --git a/src/libscotch/order_check.c b/src/libscotch/order_check.c
index c8b25d0..01e1522 100644
--- a/src/libscotch/order_check.c
+++ b/src/libscotch/order_check.c
@@ -176,6 +176,9 @@ const Order * restrict const  ordeptr)
 
   memFree (permtab);
 
+  if (ordeptr->vnodnbr == 0)                      /* Empty orderings have no column blocks */
+    return (0);
+
   treenbr =                                       /* Assume there is just a root node */
   cblknbr = 1;
   if (orderCheck2 (&ordeptr->cblktre, &cblknbr, &treenbr) != 0)
-- 
2.43.0


From dcbc3e79c222212078fb71dbcdaa9cf66eddb7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:44 +0000
Subject: [PATCH 23/55] fix: load orderings whatever the order of their lines,
 check them, and save labeled ones as ranks

---
 src/libscotch/dorder_io.c |  2 +-
 src/libscotch/order_io.c  | 84 ++++++++++++++++++++++++++++-----------
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index bc23b26..dc17c8d 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -205,7 +205,7 @@ FILE * restrict const         stream)
       for (vertnum = 0; vertnum < ordeptr->vnodglbnbr; vertnum ++) {
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
                      (Gnum) vlbltax[vertnum + ordeptr->baseval],
-                     (Gnum) vlbltax[permtab[vertnum]]) == EOF) {
+                     (Gnum) permtab[vertnum]) == EOF) {
           errorPrint ("dorderSave: bad output (2)");
           memFree    (permtab);
           return (1);
diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..babe065 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -80,46 +80,84 @@ Order * restrict const      ordeptr,
 const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
-  Gnum * restrict     permtab;
+  Gnum * restrict     permtab;                    /* Direct permutation read from file        */
+  Gnum * restrict     peritab;                    /* Inverse permutation to be built          */
+  Gnum * restrict     sorttab;                    /* Array of (label, index) pairs, if labels */
   Gnum                vertnum;
+  Gnum                filenbr;
+  Gnum                filenum;
 
-  if (vlbltax != NULL) {
-    errorPrint ("orderLoad: vertex labels not yet supported");
+  const Gnum                vnodnbr = ordeptr->vnodnbr;
+  const Gnum                baseval = ordeptr->baseval;
+
+  if ((intLoad (stream, &filenbr) != 1) ||
+      (filenbr != vnodnbr)) {                     /* All vertices must be ordered */
+    errorPrint ("orderLoad: bad input (1)");
     return     (1);
   }
 
-  if ((permtab = memAlloc (ordeptr->vnodnbr * sizeof (Gnum))) == NULL) {
+  if (memAllocGroup ((void **) (void *)
+                     &permtab, (size_t) (vnodnbr * sizeof (Gnum)),
+                     &peritab, (size_t) (vnodnbr * sizeof (Gnum)),
+                     &sorttab, (size_t) (((vlbltax != NULL) ? vnodnbr : 0) * 2 * sizeof (Gnum)), NULL) == NULL) {
     errorPrint ("orderLoad: out of memory");
     return     (1);
   }
+  memSet (permtab, ~0, vnodnbr * sizeof (Gnum));  /* No ranks and no vertices known yet */
+  memSet (peritab, ~0, vnodnbr * sizeof (Gnum));
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
-    errorPrint ("orderLoad: bad input (1)");
-    memFree    (permtab);
-    return     (1);
+  if (vlbltax != NULL) {                          /* If graph has vertex labels, sort them */
+    for (vertnum = 0; vertnum < vnodnbr; vertnum ++) {
+      sorttab[2 * vertnum]     = vlbltax[vertnum + baseval];
+      sorttab[2 * vertnum + 1] = vertnum;
+    }
+    intSort2asc1 (sorttab, vnodnbr);
   }
 
-  if (vlbltax == NULL) {                          /* If ordering does not have label array */
-    for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) {
-      Gnum                vertval;
+  for (filenum = 0; filenum < vnodnbr; filenum ++) {
+    Gnum                vlblval;
+    Gnum                rankval;
 
-      if ((intLoad (stream, &vertval)          != 1) || /* Read item data */
-          (intLoad (stream, &permtab[vertnum]) != 1)) {
-        errorPrint ("orderLoad: bad input (2)");
-        memFree    (permtab);
-        return     (1);
-      }
-      if (vertval != (vertnum + ordeptr->baseval)) { /* Read item data */
-        errorPrint ("orderLoad: bad input (3)");
-        memFree    (permtab);
-        return     (1);
+    if ((intLoad (stream, &vlblval) != 1) ||      /* Read item data */
+        (intLoad (stream, &rankval) != 1)) {
+      errorPrint ("orderLoad: bad input (2)");
+      memFree    (permtab);                       /* Free group leader */
+      return     (1);
+    }
+
+    if (vlbltax != NULL) {                        /* Search for vertex by its label */
+      Gnum                sortmin;
+      Gnum                sortmax;
+
+      for (sortmin = 0, sortmax = vnodnbr; (sortmax - sortmin) > 1; ) {
+        Gnum                sortmed;
+
+        sortmed = sortmin + (sortmax - sortmin) / 2;
+        if (sorttab[2 * sortmed] <= vlblval)
+          sortmin = sortmed;
+        else
+          sortmax = sortmed;
       }
+      vertnum = (sorttab[2 * sortmin] == vlblval) ? sorttab[2 * sortmin + 1] : -1;
+    }
+    else
+      vertnum = ((vlblval >= baseval) && ((vlblval - baseval) < vnodnbr)) ? (vlblval - baseval) : -1;
+
+    if ((vertnum < 0) || (permtab[vertnum] != ~0) || /* If unknown or duplicate vertex, or invalid or duplicate rank */
+        (rankval < baseval) || ((rankval - baseval) >= vnodnbr) ||
+        (peritab[rankval - baseval] != ~0)) {
+      errorPrint ("orderLoad: bad input (3)");
+      memFree    (permtab);
+      return     (1);
     }
+    permtab[vertnum] = rankval;
+    peritab[rankval - baseval] = vertnum + baseval;
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
+  memCpy (ordeptr->peritab, peritab, vnodnbr * sizeof (Gnum)); /* Set inverse permutation */
 
   memFree (permtab);
+
   return  (0);
 }
 
@@ -156,7 +194,7 @@ FILE * restrict const         stream)
     for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) {
       if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
                    (Gnum) vlbltax[vertnum + ordeptr->baseval],
-                   (Gnum) vlbltax[permtab[vertnum]]) == EOF) {
+                   (Gnum) permtab[vertnum]) == EOF) {
         errorPrint ("orderSave: bad output (2)");
         memFree    (permtab);
         return     (1);
-- 
2.43.0


From a01946527bb6bdecde26c847f9f037b59fc5be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:44 +0000
Subject: [PATCH 24/55] fix: edge load sums and averages of weighted graphs

---
 src/libscotch/library_dgraph_stat.c | 4 +++-
 src/libscotch/library_graph.c       | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 26f7551..918e6a9 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -246,7 +246,7 @@ double *                    edlodltptr)
         errorPrint (STRINGIFY (SCOTCH_dgraphStat) ": communication error (1)");
         return (1);
       }
-      edloglbavg = (double) edloglbsum / (double) (2 * srcgrafptr->edgeglbnbr);
+      edloglbavg = (double) edloglbsum / (double) srcgrafptr->edgeglbnbr;
 
       for (vertlocnum = srcgrafptr->baseval; vertlocnum < srcgrafptr->vertlocnnd; vertlocnum ++) {
         Gnum                edgelocnum;
@@ -255,6 +255,8 @@ double *                    edlodltptr)
              edgelocnum < srcgrafptr->vendloctax[vertlocnum]; edgelocnum ++)
           edlolocdlt += fabs ((double) srcgrafptr->edloloctax[edgelocnum] - edloglbavg);
       }
+
+      edloglbsum /= 2;                            /* Every edge has been accounted for twice */
     }
     else {
       srclstadat.edlomin =
diff --git a/src/libscotch/library_graph.c b/src/libscotch/library_graph.c
index 82e7b14..7616ecd 100644
--- a/src/libscotch/library_graph.c
+++ b/src/libscotch/library_graph.c
@@ -509,6 +509,7 @@ double *                    edlodltptr)
           edlodlt += fabs ((double) srcgrafptr->edlotax[edgenum] - edloavg);
       }
       edlodlt /= (double) srcgrafptr->edgenbr;
+      edlosum /= 2;                               /* Every edge has been accounted for twice */
     }
     else {
       edlomin =
-- 
2.43.0


From 74472fda8a8761492eab41d70279ae3c7a4adadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 25/55] fix: mesh loading, saving, checking, labels and graph
 building

---
 src/libscotch/hmesh_induce.c       |   3 +-
 src/libscotch/library_mesh_order.c |  17 ++++-
 src/libscotch/mesh.c               |   3 +-
 src/libscotch/mesh.h               |   2 +-
 src/libscotch/mesh_check.c         |   9 +++
 src/libscotch/mesh_graph.c         |   8 +-
 src/libscotch/mesh_io.c            | 114 +++++++++++++++++++++++------
 src/libscotch/mesh_io.h            |   2 +-
 src/libscotch/mesh_io_scot.c       |  12 ++-
 9 files changed, 133 insertions(+), 37 deletions(-)

diff --git a/src/libscotch/hmesh_induce.c b/src/libscotch/hmesh_induce.c
index 24384c0..9e795b0 100644
--- a/src/libscotch/hmesh_induce.c
+++ b/src/libscotch/hmesh_induce.c
@@ -298,6 +298,7 @@ Hmesh * restrict const            indmeshptr)     /* Pointer to induced halo sub
 #ifdef SCOTCH_DEBUG_HMESH2
   indedgenbr = 2 * (indedgenum - indmeshptr->m.baseval); /* Record number of arcs created from elements to nodes */
 #endif /* SCOTCH_DEBUG_HMESH2 */
+  indmeshptr->enohnbr = - indedgenum;             /* Prepare to count edges of non-halo node vertices only */
   for ( ; indvertnum < indmeshptr->vnohnnd; indvertnum ++) { /* For all non-halo induced node vertices */
     Gnum                orgvnodnum;
     Gnum                orgedgenum;
@@ -321,7 +322,7 @@ Hmesh * restrict const            indmeshptr)     /* Pointer to induced halo sub
     }
   }
 
-  indmeshptr->enohnbr = indedgenum - indmeshptr->m.baseval;
+  indmeshptr->enohnbr = (indmeshptr->enohnbr + indedgenum) * 2; /* Count arcs between elements and non-halo nodes both ways */
   indmeshptr->levlnum = orgmeshptr->levlnum + 1;
   indmeshptr->contptr = orgmeshptr->contptr;
 
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..456fea1 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -107,7 +107,7 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
 
-  srcmeshptr = (Mesh *) meshptr;                  /* Use structure as source mesh */
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);  /* Use structure as source mesh */
   libordeptr = (LibOrder *) ordeptr;
   libordeptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) meshptr)) ? NULL : (Gnum *) permtab;
   libordeptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) meshptr)) ? NULL : (Gnum *) peritab;
@@ -144,7 +144,10 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
+
+  return (orderSave (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax != NULL) ? srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval) : NULL, stream)); /* Use labels of nodes only */
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +164,10 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
+
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax != NULL) ? srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval) : NULL, stream)); /* Use labels of nodes only */
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +184,10 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
+
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax != NULL) ? srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval) : NULL, stream)); /* Use labels of nodes only */
 }
 
 /*+ This routine computes an ordering
diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..dda65ac 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -128,7 +128,8 @@ Mesh * const                meshptr)
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
   if ((meshptr->flagval & MESHFREEOTHR) != 0) {   /* If other arrays must be freed */
-    if (meshptr->vlbltax != NULL)
+    if ((meshptr->vlbltax != NULL) &&
+        ((meshptr->flagval & MESHVERTGROUP) == 0))
       memFree (meshptr->vlbltax + meshptr->baseval);
   }
 
diff --git a/src/libscotch/mesh.h b/src/libscotch/mesh.h
index 6bbc31c..16589a3 100644
--- a/src/libscotch/mesh.h
+++ b/src/libscotch/mesh.h
@@ -63,7 +63,7 @@
 #define MESHFREEVNUM                0x0008        /* Free vnumtab array        */
 #define MESHFREEOTHR                0x0010        /* Free all other arrays     */
 #define MESHFREETABS                0x001F        /* Free all mesh arrays      */
-#define MESHVERTGROUP               0x0010        /* All vertex arrays grouped */
+#define MESHVERTGROUP               0x0020        /* All vertex arrays grouped */
 
 /*+ The Mesh flag type. +*/
 
diff --git a/src/libscotch/mesh_check.c b/src/libscotch/mesh_check.c
index a781dce..75c09fa 100644
--- a/src/libscotch/mesh_check.c
+++ b/src/libscotch/mesh_check.c
@@ -79,6 +79,7 @@ const Mesh * const          meshptr)
   Gnum                velosum;                    /* Vertex element load sum             */
   Gnum                vnlosum;                    /* Vertex node load sum                */
   Gnum                degrmax;                    /* Maximum degree                      */
+  Gnum                edgenbr;                    /* Number of edges (arcs)              */
 
   if ((meshptr->velmbas > meshptr->velmnnd) ||
       (meshptr->vnodbas > meshptr->vnodnnd) ||
@@ -92,6 +93,7 @@ const Mesh * const          meshptr)
 
   vertnnd = meshptr->velmnbr + meshptr->vnodnbr + meshptr->baseval;
   degrmax = 0;
+  edgenbr = 0;
   veisnbr = 0;
   for (vertnum = meshptr->velmbas; vertnum < meshptr->velmnnd; vertnum ++) { /* For all element vertices */
     Gnum                degrval;
@@ -108,6 +110,7 @@ const Mesh * const          meshptr)
       degrmax = degrval;
     else if (degrval == 0)
       veisnbr ++;
+    edgenbr += degrval;
 
     for (edgenum = meshptr->verttax[vertnum]; edgenum < meshptr->vendtax[vertnum]; edgenum ++) {
       Gnum                vertend;                /* Number of end vertex      */
@@ -156,6 +159,7 @@ const Mesh * const          meshptr)
     }
     if ((meshptr->vendtax[vertnum] - meshptr->verttax[vertnum]) > degrmax)
       degrmax = meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
+    edgenbr += meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
 
     for (edgenum = meshptr->verttax[vertnum]; edgenum < meshptr->vendtax[vertnum]; edgenum ++) {
       Gnum                vertend;                /* Number of end vertex      */
@@ -190,6 +194,11 @@ const Mesh * const          meshptr)
     }
   }
 
+  if (edgenbr != meshptr->edgenbr) {
+    errorPrint ("meshCheck: invalid number of edges");
+    return     (1);
+  }
+
   if (meshptr->velotax == NULL)                   /* Recompute node vertex load sum */
     velosum = meshptr->velmnnd - meshptr->velmbas;
   else {
diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..8df32ba 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -174,7 +174,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
               Gnum * restrict     edgetmp;
 
               edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-              edgemax = edgemax + (edgemax >> 2);
+              edgemax = edgemax + (edgemax >> 2) + 4; /* Small arrays must grow too */
 
               if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                 errorPrint ("meshGraph: out of memory (3)");
@@ -263,7 +263,9 @@ const Gnum                  noconbr)              /*+ number of common points to
   }
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
-  grafptr->velotax  = NULL;                       /* TODO: not implemented */
+  grafptr->velotax  = (meshptr->velotax != NULL)  /* Keep element part of mesh vertex load array as graph vertex load array    */
+                      ? meshptr->velotax + meshptr->velmbas - grafptr->baseval /* Since GRAPHVERTGROUP, no problem on graphFree */
+                      : NULL;
   grafptr->velosum  = meshptr->velosum;
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
@@ -325,7 +327,7 @@ test:         if (nghbnbr <= 0) {                 /* If new instance allows us t
                   Gnum * restrict     edgetmp;
 
                   edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-                  edgemax = edgemax + (edgemax >> 2);
+                  edgemax = edgemax + (edgemax >> 2) + 4; /* Small arrays must grow too */
 
                   if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                     errorPrint ("meshGraphDual: out of memory (3)");
diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..1af1ae4 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -103,6 +103,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                vertbastab[2];
   Gnum                vertnndtab[2];
   Gnum                edgeadjtab[2];
+  int                 velmidx;                    /* Index of elements among kinds */
   int                 i;
 
   memSet (meshptr, 0, sizeof (Mesh));
@@ -121,6 +122,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (intLoad (stream, &propval)          != 1) ||
       (velmnbr < 0)                              ||
       (vnodnbr < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
       (propval < 0)                              ||
@@ -177,23 +179,25 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   degrmax = 0;
   edgennd = meshptr->edgenbr + meshptr->baseval;
   edgenum = meshptr->baseval;                     /* No edges allocated yet */
-  vlblmax = vertnbr + meshptr->baseval - 1;       /* No vertex labels known */
+  vlblmax = 0;                                    /* No vertex labels known */
 
-  if (meshptr->velmbas <= meshptr->vnodbas) {     /* If elements first */
+  velmidx = 1;
+  if (meshptr->velmnnd == meshptr->vnodbas) {     /* If elements first */
+    velmidx       = 0;
     vertbastab[0] = meshptr->velmbas;
     vertnndtab[0] = meshptr->velmnnd;
-    edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
+    edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval + baseadj;
     vertbastab[1] = meshptr->vnodbas;
     vertnndtab[1] = meshptr->vnodnnd;
-    edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
+    edgeadjtab[1] = meshptr->velmbas - meshptr->baseval + baseadj;
   }
   else {
     vertbastab[0] = meshptr->vnodbas;
     vertnndtab[0] = meshptr->vnodnnd;
-    edgeadjtab[0] = meshptr->velmbas - meshptr->baseval;
+    edgeadjtab[0] = meshptr->velmbas - meshptr->baseval + baseadj;
     vertbastab[1] = meshptr->velmbas;
     vertnndtab[1] = meshptr->velmnnd;
-    edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval;
+    edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval + baseadj;
   }
   for (i = 0; i < 2; i ++) {                      /* For both kinds of vertices */
     Gnum                vertbas;
@@ -218,8 +222,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->vlbltax[vertnum] = vlblval + vertbas + baseadj; /* Adjust vertex label */
-        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label           */
+        meshptr->vlbltax[vertnum] = vlblval;      /* Elements and nodes may have same labels */
+        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label                */
           vlblmax = meshptr->vlbltax[vertnum];
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
@@ -231,20 +235,26 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        if (i == velmidx)                         /* Load array of other kind may no longer be referenced */
+          meshptr->velotax[vertnum] = veloval;
+        else
+          meshptr->vnlotax[vertnum] = veloval;
         velosum += veloval;
       }
-      if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
+      if ((intLoad (stream, &degrval) != 1) ||    /* Read vertex degree */
+          (degrval < 0)) {
         errorPrint ("meshLoad: bad input (5)");
         meshFree   (meshptr);
         return     (1);
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
+      if ((degrval == 0) && (i == velmidx))       /* Count number of isolated element vertices */
+        meshptr->veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
       degrval += edgenum;
-      if (degrval > edgennd) {                    /* Check if edge array overflows */
+      if ((degrval > edgennd) || (degrval < edgenum)) { /* Check if edge array overflows */
         errorPrint ("meshLoad: invalid arc count (1)");
         meshFree   (meshptr);
         return     (1);
@@ -263,11 +273,11 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->edgetax[edgenum] = edgeval + edgeadj;
+        meshptr->edgetax[edgenum] = (meshptr->vlbltax != NULL) ? edgeval : edgeval + edgeadj; /* Labels will be renamed afterwards */
       }
     }
 
-    if (vertbastab[i] == meshptr->velmbas) {      /* If elements are processed        */
+    if (i == velmidx) {                           /* If elements are processed        */
       if (velomax == 1)                           /* If element loads not significant */
         meshptr->velotax = NULL;
       else
@@ -290,13 +300,12 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
 
   meshptr->degrmax = degrmax;
 
-  if (meshptr->vlbltax != NULL) {                 /* If vertex label renaming necessary                 */
-    if (graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
-                    meshptr->vendtax, meshptr->edgetax, vlblmax, meshptr->vlbltax) != 0) {
-      errorPrint ("meshLoad: cannot relabel vertices");
-      meshFree   (meshptr);
-      return     (1);
-    }
+  if ((meshptr->vlbltax != NULL) &&               /* If vertex label renaming necessary */
+      ((meshLoad2 (meshptr, meshptr->velmbas, meshptr->velmnnd, meshptr->vnodbas, meshptr->vnodnnd, vlblmax) != 0) || /* Rename edge ends */
+       (meshLoad2 (meshptr, meshptr->vnodbas, meshptr->vnodnnd, meshptr->velmbas, meshptr->velmnnd, vlblmax) != 0))) {
+    errorPrint ("meshLoad: cannot relabel vertices");
+    meshFree   (meshptr);
+    return     (1);
   }
 
 #ifdef SCOTCH_DEBUG_MESH2
@@ -310,6 +319,67 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   return (0);
 }
 
+/* This routine replaces, in the adjacency of
+** the vertices of some kind, the labels of the
+** vertices of the other kind by their indices.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+int
+meshLoad2 (
+Mesh * restrict const       meshptr,
+const Gnum                  vertbas,              /* Range of vertices, the adjacency of which is renamed */
+const Gnum                  vertnnd,
+const Gnum                  vendbas,              /* Range of their neighbors */
+const Gnum                  vendnnd,
+const Gnum                  vlblmax)              /* Maximum vertex label     */
+{
+  Gnum                vertnum;
+  Gnum * restrict     indxtab;                    /* Vertex label/number index table */
+  int                 o;
+
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
+    errorPrint ("meshLoad2: out of memory");
+    return     (1);
+  }
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+
+  o = 1;                                          /* Assume an error */
+  for (vertnum = vendbas; vertnum < vendnnd; vertnum ++) {
+    if (meshptr->vlbltax[vertnum] < 0) {          /* If label cannot be indexed */
+      errorPrint ("meshLoad2: invalid vertex label");
+      goto abort;
+    }
+    if (indxtab[meshptr->vlbltax[vertnum]] != ~0) { /* If vertex label already used */
+      errorPrint ("meshLoad2: duplicate vertex label");
+      goto abort;
+    }
+    indxtab[meshptr->vlbltax[vertnum]] = vertnum; /* Set vertex number index */
+  }
+  for (vertnum = vertbas; vertnum < vertnnd; vertnum ++) {
+    Gnum                edgenum;
+
+    for (edgenum = meshptr->verttax[vertnum]; edgenum < meshptr->vendtax[vertnum]; edgenum ++) {
+      Gnum                vlblend;
+
+      vlblend = meshptr->edgetax[edgenum];
+      if ((vlblend < 0) || (vlblend > vlblmax) || (indxtab[vlblend] == ~0)) { /* If invalid edge end label */
+        errorPrint ("meshLoad2: invalid arc end number");
+        goto abort;
+      }
+      meshptr->edgetax[edgenum] = indxtab[vlblend]; /* Replace label by number */
+    }
+  }
+  o = 0;
+
+abort:
+  memFree (indxtab);
+
+  return (o);
+}
+
 /* This routine saves a source mesh to
 ** the given stream.
 ** It returns:
@@ -348,12 +418,12 @@ FILE * restrict const       stream)
 
   vertbastab[0] = meshptr->baseval;
   vertnndtab[1] = meshptr->velmnbr + meshptr->vnodnbr + meshptr->baseval;
-  if (meshptr->velmbas <= meshptr->vnodbas) {     /* If elements first */
+  if (meshptr->velmnnd == meshptr->vnodbas) {     /* If elements first */
     vertnndtab[0] = meshptr->velmnnd;
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
diff --git a/src/libscotch/mesh_io.h b/src/libscotch/mesh_io.h
index 0c77357..1695057 100644
--- a/src/libscotch/mesh_io.h
+++ b/src/libscotch/mesh_io.h
@@ -50,4 +50,4 @@
 **  The function prototypes.
 */
 
-int                         meshLoad2           (const Gnum, const Gnum, const Gnum * const, const Gnum * const, Gnum * const, const Gnum, const Gnum * const);
+int                         meshLoad2           (Mesh * restrict const, const Gnum, const Gnum, const Gnum, const Gnum, const Gnum);
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..875f065 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -98,16 +98,19 @@ const char * const          dataptr)              /* No use           */
 
   if ((intLoad (filegeoptr, &dimnnbr) != 1) ||    /* Read type and number of geometry items */
       (intLoad (filegeoptr, &coornbr) != 1) ||
+      (coornbr < 0)                         ||
       (dimnnbr < 1)                         ||
       (dimnnbr > 3)) {
     errorPrint ("meshGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (meshptr->vnodnbr != coornbr)) {
+  if ((filesrcptr != NULL) && (meshptr->vnodnbr > coornbr)) { /* There can be more geometry data than nodes */
     errorPrint ("meshGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
 
+  geomptr->dimnnbr = dimnnbr;                     /* Record dimension of loaded geometry */
+
   if (meshptr->vnodnbr == 0)
     return (0);
 
@@ -166,7 +169,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +179,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas; /* Implicit labels are node vertex numbers */
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 128939ea2bd5a3d1ecbf77b2d647e5ed985f2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 26/55] fix: mesh ordering: separator meshes, compression,
 minimum degree, block splitting, coarsening

---
 src/libscotch/hall_order_hd.c      |  1 +
 src/libscotch/hall_order_hf.c      |  1 +
 src/libscotch/hmesh_mesh.c         |  2 +-
 src/libscotch/hmesh_order_bl.c     | 69 +++++++++++++++++++-----------
 src/libscotch/hmesh_order_cp.c     | 33 ++++++++++++--
 src/libscotch/hmesh_order_gr.c     |  3 ++
 src/libscotch/hmesh_order_hd.c     |  4 +-
 src/libscotch/hmesh_order_hf.c     |  4 +-
 src/libscotch/hmesh_order_hx.c     | 12 +++---
 src/libscotch/hmesh_order_nd.c     |  1 +
 src/libscotch/library_mesh_order.c |  2 +-
 src/libscotch/mesh_coarsen.c       | 24 +++++++++--
 src/libscotch/mesh_induce_sepa.c   | 25 +++--------
 src/libscotch/vmesh_separate_st.c  |  2 +-
 14 files changed, 119 insertions(+), 64 deletions(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index 232f29b..383b81c 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -437,6 +437,7 @@ Gnum * restrict     w)                            /* Flag array
       else {                                      /* i \in Ve or V0 */
         if (elen[i] < 0) {                        /* If i \in Ve    */
           nel    += nv[i];
+          totel  += nv[i];
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hall_order_hf.c b/src/libscotch/hall_order_hf.c
index 8ec12b9..3360bf3 100644
--- a/src/libscotch/hall_order_hf.c
+++ b/src/libscotch/hall_order_hf.c
@@ -780,6 +780,7 @@ Gnum * restrict     head /* [0:nbbuck+1] */)      /* Linked list structure
       else {                                      /* Non-halo vertex or element */
         if (elen[i] < 0) {                        /* If i \in Ve                */
           nel    += nv[i];
+          totel  += nv[i];
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hmesh_mesh.c b/src/libscotch/hmesh_mesh.c
index 7ba611a..4e21a6b 100644
--- a/src/libscotch/hmesh_mesh.c
+++ b/src/libscotch/hmesh_mesh.c
@@ -127,7 +127,7 @@ Mesh * restrict const         meshptr)            /*+ Mesh to build      +*/
       return     (1);
     }
     memCpy (meshptr->vendtax, hmshptr->m.vendtax + hmshptr->m.baseval, hmshptr->vnohnbr * sizeof (Gnum)); /* Copy non-halo node part */
-    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, hmshptr->m.vnodnbr - hmshptr->vnohnbr * sizeof (Gnum)); /* Create empty fake element part */
+    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, (hmshptr->m.vnodnbr - hmshptr->vnohnbr) * sizeof (Gnum)); /* Create empty fake element part */
     memCpy (meshptr->vendtax + hmshptr->m.vnodnbr, hmshptr->vehdtax + hmshptr->m.velmbas, hmshptr->m.velmnbr * sizeof (Gnum));
 
     meshptr->velmnbr = hmshptr->m.velmnbr + hmshptr->m.vnodnbr - hmshptr->vnohnbr; /* Turn halo node vertices into element vertices */
diff --git a/src/libscotch/hmesh_order_bl.c b/src/libscotch/hmesh_order_bl.c
index 2d80412..3c12581 100644
--- a/src/libscotch/hmesh_order_bl.c
+++ b/src/libscotch/hmesh_order_bl.c
@@ -62,45 +62,31 @@
 #include "hmesh_order_bl.h"
 #include "hmesh_order_st.h"
 
-/*****************************/
-/*                           */
-/* This is the main routine. */
-/*                           */
-/*****************************/
-
-/* This routine performs the ordering.
+/* This routine recursively splits the leaf
+** column blocks of the given column block tree.
 ** It returns:
-** - 0   : if the ordering could be computed.
+** - 0   : if the column blocks could be split.
 ** - !0  : on error.
 */
 
+static
 int
-hmeshOrderBl (
-Hmesh * restrict const                    meshptr,
-Order * restrict const                    ordeptr,
-const Gnum                                ordenum, /*+ Zero-based ordering number +*/
-OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
-const HmeshOrderBlParam * restrict const  paraptr)
+hmeshOrderBl2 (
+Order * restrict const      ordeptr,
+OrderCblk * restrict const  cblkptr,              /*+ Current column block   +*/
+const Gnum                  cblkmin)              /*+ Minimum size of blocks +*/
 {
   Gnum                cblknbr;                    /* Number of old column blocks before splitting */
   Gnum                cblknum;                    /* Number of current column block               */
 
-  if (paraptr->cblkmin <= 0) {
-    errorPrint ("hmeshOrderBl: invalid minimum block size");
-    return (1);
-  }
-
-  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
-    return (1);
-
   if (cblkptr->cblktab == NULL) {                 /* If single column block    */
-    if (cblkptr->vnodnbr < (2 * paraptr->cblkmin)) /* If block cannot be split */
+    if (cblkptr->vnodnbr < (2 * cblkmin)) /* If block cannot be split */
 	return (0);
 
-    cblknbr = cblkptr->vnodnbr / paraptr->cblkmin; /* Get new number of blocks */
+    cblknbr = cblkptr->vnodnbr / cblkmin; /* Get new number of blocks */
 
     if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblknbr * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
+      errorPrint ("hmeshOrderBl2: out of memory");
       return (1);
     }
     cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
@@ -123,10 +109,41 @@ const HmeshOrderBlParam * restrict const  paraptr)
   }
   else {                                          /* Block already partitioned */
     for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hmeshOrderBl (meshptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
+      if (hmeshOrderBl2 (ordeptr, cblkptr->cblktab + cblknum, cblkmin) != 0)
         return (1);
     }
   }
 
   return (0);
 }
+
+/*****************************/
+/*                           */
+/* This is the main routine. */
+/*                           */
+/*****************************/
+
+/* This routine performs the ordering.
+** It returns:
+** - 0   : if the ordering could be computed.
+** - !0  : on error.
+*/
+
+int
+hmeshOrderBl (
+Hmesh * restrict const                    meshptr,
+Order * restrict const                    ordeptr,
+const Gnum                                ordenum, /*+ Zero-based ordering number +*/
+OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
+const HmeshOrderBlParam * restrict const  paraptr)
+{
+  if (paraptr->cblkmin <= 0) {
+    errorPrint ("hmeshOrderBl: invalid minimum block size");
+    return (1);
+  }
+
+  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
+    return (1);
+
+  return (hmeshOrderBl2 (ordeptr, cblkptr, paraptr->cblkmin)); /* Split column blocks once whole mesh is ordered */
+}
diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..0637e5f 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -206,7 +206,9 @@ const HmeshOrderCpParam * restrict const  paraptr)
 
   coarmeshdat.m.verttax = coarverttax;
   coarmeshdat.m.vendtax = coarverttax + 1;        /* Use compact representation of arrays     */
-  coarmeshdat.m.velotax = finemeshptr->m.velotax; /* Re-use element vertex load array, if any */
+  coarmeshdat.m.velotax = (finemeshptr->m.velotax != NULL) /* Re-use element vertex load array, if any */
+                          ? finemeshptr->m.velotax + (finemeshptr->m.velmbas - coarmeshdat.m.velmbas)
+                          : NULL;
   coarmeshdat.m.vnlotax = coarvnlotax;
   coarmeshdat.m.edgetax = coaredgetax;
 
@@ -325,6 +327,22 @@ loop_failed: ;
     return (1);
   }
 #endif /* SCOTCH_DEBUG_ORDER2 */
+
+  for (finevnodnum = finemeshptr->m.vnodbas;      /* Isolated nodes, which belong to no element, remain alone */
+       finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] != ~0)           /* Skip nodes already considered */
+      continue;
+
+    if (coarvnodnnd >= (coarvnodmax + coarmeshdat.m.vnodbas)) { /* If mesh needs not be compressed */
+      memFree (coarverttax + coarmeshdat.m.baseval);
+      return  (hmeshOrderSt (finemeshptr, fineordeptr, ordenum, cblkptr, paraptr->stratunc));
+    }
+    finecoartax[finevnodnum] = coarvnodnnd;
+    coarfinetax[coarvnodnnd] = finevnodnum;
+    coarvsiztax[coarvnodnnd] = 1;
+    coarvnodnnd ++;
+  }
+
   coarmeshdat.m.vnodnnd = coarvnodnnd;
   coarmeshdat.m.vnodnbr = coarvnodnnd - coarmeshdat.m.vnodbas;
 
@@ -370,7 +388,12 @@ loop_failed: ;
     memSet (coarmeshdat.m.vnlotax + coarmeshdat.m.vnodbas, 0, coarmeshdat.m.vnodnbr * sizeof (Gnum));
 
     for (finevnodnum = finemeshptr->m.vnodbas; finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) { /* Compute vertex loads for compressed mesh */
-      coarmeshdat.m.vnlotax[finecoartax[finevnodnum]] += finemeshptr->m.vnlotax[finevnodnum];
+      Gnum                coarvnodnum;
+
+      coarvnodnum = finecoartax[finevnodnum];
+      if (coarvnodnum < 0)                        /* If node is not cluster leader */
+        coarvnodnum = -2 - coarvnodnum;           /* Get index of cluster leader   */
+      coarmeshdat.m.vnlotax[coarvnodnum] += finemeshptr->m.vnlotax[finevnodnum];
     }
   }
 
@@ -416,7 +439,7 @@ loop_failed: ;
   coarvpostax = coarmeshdat.m.verttax;            /* Recycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coarmeshdat.m.vnodbas;
 
-  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvnodnum < coarmeshdat.m.vnodnnd; coarvnodnum ++) {
     coarvpostax[coarperitax[coarvnodnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvnodnum]];
@@ -428,7 +451,9 @@ loop_failed: ;
     coarvnodnum = finecoartax[finevnodnum];       /* Get index of corresponding coarse node */
     if (coarvnodnum < 0)                          /* If node is not cluster leader          */
       coarvnodnum = -2 - coarvnodnum;             /* Get index of cluster leader            */
-    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas);
+    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = (finemeshptr->m.vnumtax == NULL)
+                                                        ? finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas)
+                                                        : finemeshptr->m.vnumtax[finevnodnum];
   }
 
   orderExit (&coarordedat);
diff --git a/src/libscotch/hmesh_order_gr.c b/src/libscotch/hmesh_order_gr.c
index 04cad98..bfa1d4e 100644
--- a/src/libscotch/hmesh_order_gr.c
+++ b/src/libscotch/hmesh_order_gr.c
@@ -90,6 +90,9 @@ const HmeshOrderGrParam * const paraptr)
     return (1);
   }
 
+  grafdat.levlnum = meshptr->levlnum;
+  grafdat.contptr = meshptr->contptr;
+
   if ((o = hgraphOrderSt (&grafdat, ordeptr, ordenum, cblkptr, paraptr->stratptr)) != 0)
     errorPrint ("hmeshOrderGr: cannot order graph");
 
diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index 0fc53c8..08f859b 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -150,8 +150,8 @@ const HmeshOrderHdParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Nodes come first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0, meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 3212638..48b2136 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -153,8 +153,8 @@ const HmeshOrderHfParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Nodes come first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0, meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 6f133b1..2de181f 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -103,11 +103,11 @@ Gnum * restrict const         pfreptr)
   Gnum * restrict const       elentax = elentab - 1;
   const Gnum * restrict const verttax = meshptr->m.verttax;
   const Gnum * restrict const vendtax = meshptr->m.vendtax;
-  const Gnum * restrict const velotax = meshptr->m.velotax;
+  const Gnum * restrict const vnlotax = meshptr->m.vnlotax;
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
-  norig = meshptr->m.velmnbr + meshptr->m.vnodnbr; /* Elements always have load 1                        */
+  norig = meshptr->m.velmnbr + meshptr->m.vnlosum; /* Elements always have load 1                        */
   for (hashsiz = 16, degrval = meshptr->m.degrmax * (meshptr->m.degrmax - 1); /* Compute hash table size */
        hashsiz < degrval; hashsiz <<= 1) ;
   hashsiz <<= 1;
@@ -127,7 +127,7 @@ Gnum * restrict const         pfreptr)
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
-    nvtax[vertnum]  = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
@@ -153,8 +153,8 @@ Gnum * restrict const         pfreptr)
             break;                                /* Skip to next end vertex        */
         }
       }
-      elentax[vertnum] = nghbnbr;
     }
+    elentax[vertnum] = (nghbnbr >= 0) ? nghbnbr : 0; /* Isolated nodes do not have neighbors */
   }
 
   for ( ; vnodnum < meshptr->m.vnodnnd; vnodnum ++, vertnum ++) { /* Copy halo vertices with base 1 */
@@ -165,7 +165,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnum]   = edgenum;
     lentax[vertnum]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnum] = 0;
-    nvtax[vertnum]   = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]   = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum];
          enodnum < vendtax[vnodnum]; enodnum ++)
@@ -176,8 +176,8 @@ Gnum * restrict const         pfreptr)
   for (velmnum = meshptr->m.velmbas; velmnum < meshptr->m.velmnnd; velmnum ++, vertnum ++) {
     Gnum                      eelmnum;
 
-    petax[vertnum]   = edgenum;
     lentax[vertnum]  = meshptr->m.vendtax[velmnum] - meshptr->m.verttax[velmnum];
+    petax[vertnum]   = (lentax[vertnum] != 0) ? edgenum : 0; /* Isolated elements do not use space in edge array */
     elentax[vertnum] = - (n + 1);
     nvtax[vertnum]   = 1;                         /* Elements always have weight 1 */
 
diff --git a/src/libscotch/hmesh_order_nd.c b/src/libscotch/hmesh_order_nd.c
index 5f5762b..791b4e1 100644
--- a/src/libscotch/hmesh_order_nd.c
+++ b/src/libscotch/hmesh_order_nd.c
@@ -215,6 +215,7 @@ const HmeshOrderNdParam * const   paraptr)
       memFree    (nspmeshdat.frontab);            /* Free remaining space */
       return (1);
     }
+    indmeshdat.veihnbr = 0;                       /* No halo-isolated elements                 */
     indmeshdat.vnohnbr = indmeshdat.m.vnodnbr;    /* Fill halo mesh structure of non-halo mesh */
     indmeshdat.vnohnnd = indmeshdat.m.vnodnnd;
     indmeshdat.vehdtax = indmeshdat.m.vendtax;
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 456fea1..23e2ce5 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -293,7 +293,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   if (libordeptr->treetab != NULL)                /* Build separator tree array if wanted */
       orderTree (&libordeptr->o, libordeptr->treetab);
   if (libordeptr->cblkptr != NULL)                /* Set number of column blocks if wanted */
-    *(libordeptr->cblkptr) = libordeptr->o.cblknbr;
+    *(libordeptr->cblkptr) = (libordeptr->o.vnodnbr > 0) ? libordeptr->o.cblknbr : 0; /* Empty orderings have no column blocks */
 
 abort:
   meshExit (&srcmeshdat.m);                       /* Free in case mesh had been reordered */
diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..f003365 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -122,6 +122,7 @@ Context * restrict const      contptr)            /*+ Execution context
   Gnum                        coardegrmax;
   MeshCoarsenMult * restrict  finemulttax;
   Gnum                        coaredgetmp;
+  Gnum                        finevnodnum;        /* Number of current fine node vertex                     */
   size_t                      coarvelooftval;
   size_t                      coaredgeoftval;
 
@@ -165,6 +166,13 @@ Context * restrict const      contptr)            /*+ Execution context
 
   meshCoarsenFuncTab[coartype] (finemeshptr, finemulttax, finecoartax, &coarvelmnbr, &coarvnodnbr, &coaredgenbr, contptr); /* Call proper matching function */
 
+  if ((coarvelmnbr >= finemeshptr->velmnbr) ||    /* If coarsening did not reduce mesh enough */
+      ((double) coarvelmnbr > (double) finemeshptr->velmnbr * coarrat)) {
+    memFree (coarverttax);                        /* Group leader not yet based */
+    memFree (finecoartax + finemeshptr->baseval);
+    return (1);
+  }
+
 #ifndef DEAD_CODE
   coarvnodnbr = finemeshptr->vnodnbr;             /* TODO : coarvnodnbr estimator is wrong : too tight */
   coaredgenbr = finemeshptr->edgenbr;
@@ -293,6 +301,16 @@ Context * restrict const      contptr)            /*+ Execution context
     if (coardegrval > coardegrmax)
       coardegrmax = coardegrval;
   }
+
+  for (finevnodnum = finemeshptr->vnodbas; finevnodnum < finemeshptr->vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] == ~0) {         /* Isolated nodes are connected to no element and are kept alone */
+      finecoartax[finevnodnum] = coarvnodnum;
+      coarverttax[coarvnodnum] = 0;
+      coarvelotax[coarvnodnum] = (finemeshptr->vnlotax != NULL) ? finemeshptr->vnlotax[finevnodnum] : 1;
+      coarvnodnum ++;
+    }
+  }
+
   coarmeshptr->veisnbr = coarveisnbr;
   coarmeshptr->vnodnnd = coarvnodnum;
   coarmeshptr->vnodnbr = coarvnodnum - coarmeshptr->vnodbas;
@@ -405,7 +423,8 @@ Context * restrict const          contptr)
   coarvnodnbr = finemeshptr->vnodnbr;
   coaredgenbr = finemeshptr->edgenbr;
 
-  if (finemeshptr->velotax != NULL) {             /* If fine mesh has element coarsening vertex weights, perform first pass */
+  if ((finemeshptr->velotax != NULL) &&
+      (finemeshptr->velmnbr > 0)) {               /* If fine mesh has element coarsening vertex weights, perform first pass */
     Gnum                          finevelomin;
     Gnum                          finevelomax;
     Gnum                          finevelmnum;
@@ -428,7 +447,6 @@ Context * restrict const          contptr)
           finecoartax[finevelmnum] = coarvelmnum;
           finemulttax[coarvelmnum].finevelmnum[0] =
           finemulttax[coarvelmnum].finevelmnum[1] = finevelmnum;
-fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax[finevelmnum]); /* TODO REMOVE */
           coarvelmnum ++;                         /* One more single vertex created */
         }
         continue;
@@ -606,7 +624,7 @@ fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax
 
   memFree (finehashtab);
 
-  *coarvelmptr = coarvelmnum - finemeshptr->velmbas;
+  *coarvelmptr = coarvelmnum - finemeshptr->baseval;
   *coarvnodptr = coarvnodnbr;
   *coaredgeptr = coaredgenbr;
 
diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..629bac7 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -121,7 +121,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   Gnum                          orgbitssiz;       /* Size of int array holding as many bits as element vertices */
   unsigned int * restrict       orgbitstab;       /* Array of bit flags for mesh elements                       */
   Gnum                          indvnumnum;       /* Current vertex number index in separator node list         */
-  Gnum * restrict               indvneltax;       /* Array of original numbers for induced elements             */
   Gnum                          indvelmnbr;       /* (Approximate) number of element vertices in induced mesh   */
   Gnum                          indvertnbr;       /* (Approximate) number of vertices in induced mesh           */
   Gnum                          indvnodnum;       /* Number of current node vertex in induced mesh              */
@@ -177,13 +176,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   hashmsk = hashmsk * 4 + 3;                      /* Compute size of node hash table */
 
   indvertnbr = indvelmnbr + orgsepanbr;           /* Upper bound on number of all vertices */
-  if (orgmeshptr->velotax != NULL) {
+  if (orgmeshptr->vnlotax != NULL) {
     p = memAllocGroup ((void **) (void *)
           &indmeshptr->verttax, (size_t) (indvertnbr * sizeof (Gnum)), /* verttab is not compact */
           &indmeshptr->vendtax, (size_t) (indvertnbr * sizeof (Gnum)),
           &indmeshptr->vnumtax, (size_t) (orgsepanbr * sizeof (Gnum)), /* vnumtab is of size indnodenbr                */
-          &indmeshptr->velotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
-    indmeshptr->velotax -= indmeshptr->vnodbas;
+          &indmeshptr->vnlotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
+    indmeshptr->vnlotax -= indmeshptr->vnodbas;
   }
   else
     p = memAllocGroup ((void **) (void *)
@@ -198,7 +197,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
 
     p = memAllocGroup ((void **) (void *)
           &indedgetax, (size_t) (indedgenbr    * sizeof (Gnum)),
-          &indvneltax, (size_t) (indvelmnbr    * sizeof (Gnum)),
           &orgindxtax, (size_t) (orgvertnbr    * sizeof (Gnum)),
           &hashtab,    (size_t) ((hashmsk + 1) * sizeof (MeshInduceSepaHash)), NULL);
   }
@@ -209,7 +207,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   memSet (orgindxtax, ~0, orgvertnbr    * sizeof (Gnum));
   memSet (hashtab,    ~0, (hashmsk + 1) * sizeof (MeshInduceSepaHash));
   indedgetax -= indmeshptr->baseval;
-  indvneltax -= indmeshptr->velmbas;
   orgindxtax -= orgmeshptr->baseval;
 
   for (indvnumnum = 0, indvnodnum = indedgenum = indmeshptr->baseval, indvelmnum = orgsepanbr + indvnodnum, indedgenbr = 0, indvnlosum = 0;
@@ -224,12 +221,12 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
       orgindxtax[orgvnodnum] = indvnodnum ++;     /* One more node vertex created                */
     indmeshptr->verttax[orgindxtax[orgvnodnum]] = indedgenum; /* Set beginning of edge sub-array */
     indmeshptr->vnumtax[orgindxtax[orgvnodnum]] = orgvnodnum - (orgmeshptr->vnodbas - orgmeshptr->baseval);
-    if (indmeshptr->velotax != NULL) {
+    if (indmeshptr->vnlotax != NULL) {
       Gnum                indvnloval;
 
-      indvnloval  = orgmeshptr->velotax[orgvnodnum];
+      indvnloval  = orgmeshptr->vnlotax[orgvnodnum];
       indvnlosum += indvnloval;
-      indmeshptr->velotax[orgindxtax[orgvnodnum]] = indvnloval;
+      indmeshptr->vnlotax[orgindxtax[orgvnodnum]] = indvnloval;
     }
 
     indenodnum  = indedgenum;                     /* Record position of node edge sub-array */
@@ -303,18 +300,10 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
             indedgenum = indedgetmp;              /* Recycle edge sub-array of new element      */
             break;                                /* No need to go any further                  */
           }
-          if (mtchnbr == (indmeshptr->vendtax[indvelmtmp] - indmeshptr->verttax[indvelmtmp])) { /* If other element is useless */
-            indedgenbr -= mtchnbr;                /* Remove its edges */
-            indmeshptr->verttax[indvelmtmp] = indmeshptr->verttax[indvelmnum]; /* Recycle it into our element */
-            indmeshptr->vendtax[indvelmtmp] = indmeshptr->vendtax[indvelmnum];
-            orgindxtax[indvneltax[indvelmtmp]] = -2;
-            indvneltax[indvelmtmp] = orgvelmnum;
-          }
         }
         if (indenodtmp < indmeshptr->verttax[orgindxtax[orgvnodnum]]) { /* If new element distinct from all other neighboring elements */
           indedgetax[indenodnum ++] = indvelmnum; /* Record element in edge sub-array of current node                                  */
           indedgenbr += indedgenum - indmeshptr->verttax[indvelmnum];
-          indvneltax[indvelmnum] = orgvelmnum;    /* Record original number of element in case we have to remove it afterwards */
           orgindxtax[orgvelmnum] = indvelmnum ++;
         }
       }
@@ -344,7 +333,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->edgetax -= indmeshptr->baseval;
 
   indmeshptr->velosum = indmeshptr->velmnbr;      /* TODO: account for element weights */
-  indmeshptr->vnlosum = (indmeshptr->velotax == NULL) ? orgsepanbr : indvnlosum;
+  indmeshptr->vnlosum = (indmeshptr->vnlotax == NULL) ? orgsepanbr : indvnlosum;
   indmeshptr->degrmax = orgmeshptr->degrmax;      /* Rough estimate */
 
   if (orgmeshptr->vnumtax != NULL) {              /* If mesh is a submesh */
diff --git a/src/libscotch/vmesh_separate_st.c b/src/libscotch/vmesh_separate_st.c
index 8fd3ae3..0684eed 100644
--- a/src/libscotch/vmesh_separate_st.c
+++ b/src/libscotch/vmesh_separate_st.c
@@ -142,7 +142,7 @@ static StratParamTab        vmeshseparatestparatab[] = { /* Mesh separation meth
                               { VMESHSEPASTMETHML,  STRATPARAMCASE,   "type",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.coartype,
-                                (void *) "hsn" },
+                                (void *) "h" }, /* A single matching type exists to date */
                               { VMESHSEPASTMETHML,  STRATPARAMINT,    "vnod",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.vnodnbr,
-- 
2.43.0


From a474d1f4b16008e574db3e39f1ca664fc4345eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 27/55] fix: dgraphBuild: process labels of non-compact edge
 arrays, refuse arcs to unknown labels

---
 src/libscotch/dgraph_build.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index fb36e01..db8bb7d 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -396,12 +396,16 @@ const Gnum                  degrlocmax)
       return (1);
     }
 
-    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, edgelocnum = baseval;
-         edsolocptr < edsoloctnd; edsolocptr ++, edgelocnum ++) {
-      edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
-      edsolocptr->edgelocnum = edgelocnum;
+    for (vertlocnum = baseval, edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr; /* Edge array may not be compact */
+         vertlocnum < (vertlocnbr + baseval); vertlocnum ++) {
+      for (edgelocnum = vertloctax[vertlocnum];
+           (edgelocnum < vendloctax[vertlocnum]) && (edsolocptr < edsoloctnd); edgelocnum ++, edsolocptr ++) {
+        edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
+        edsolocptr->edgelocnum = edgelocnum;
+      }
     }
-    intSort2asc2 (edsoloctab, grafptr->edgelocnbr);
+    edsoloctnd = edsolocptr;                      /* Only consider edges that belong to local vertices */
+    intSort2asc2 (edsoloctab, edsoloctnd - edsoloctab);
 
     procrcvnum = (grafptr->proclocnum + 1) % procglbnbr; /* Compute indices of neighbors */
     procsndnum = (grafptr->proclocnum - 1 + procglbnbr) % procglbnbr;
@@ -451,6 +455,11 @@ const Gnum                  degrlocmax)
       }
     }
 
+    for (edsolocptr = edsoloctab; edsolocptr < edsoloctnd; edsolocptr ++) {
+      if (edsolocptr->edgelocnum != -1)           /* If label of edge end belongs to no vertex */
+        cheklocval = 1;
+    }
+
     memFree (vesongbtab[0]);
 
 #ifdef SCOTCH_DEBUG_DGRAPH1                       /* Communication cannot be merged with a useful one */
@@ -459,7 +468,7 @@ const Gnum                  degrlocmax)
     chekglbval = cheklocval;
 #endif /* SCOTCH_DEBUG_DGRAPH1 */
     if (chekglbval != 0) {
-      errorPrint ("dgraphBuild3: duplicate vertex label (2)");
+      errorPrint ("dgraphBuild3: duplicate or unknown vertex label");
       return (1);
     }
   }
-- 
2.43.0


From 09e42cd6baba7b53e4666d2e5d5c0ac426bac9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 28/55] fix: dgraphCheck: refuse loops, arcs to nonexistent
 vertices, non-positive edge loads and vertex load overflows

---
 src/libscotch/dgraph_check.c | 75 +++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 600bc32..4478a8c 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -292,7 +292,8 @@ const Dgraph * restrict const grafptr)
   for (vertlocnum = grafptr->baseval, edgelocnbr = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
     Gnum                edgelocnum;
 
-    if ((vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
+    if ((vertloctax[vertlocnum] < grafptr->baseval)      ||
+        (vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
         (vendloctax[vertlocnum] > (grafptr->edgelocsiz + grafptr->baseval))) {
       errorPrint ("dgraphCheck: inconsistent local vertex arrays");
       edgelocnbr = grafptr->edgelocnbr;           /* Avoid unwanted cascaded error messages */
@@ -301,25 +302,49 @@ const Dgraph * restrict const grafptr)
     }
     edgelocnbr += vendloctax[vertlocnum] - vertloctax[vertlocnum];
 
-    if ((grafptr->flagval & DGRAPHHASEDGEGST) != 0) { /* If ghost edge array is valid */
-      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
-        if ((edgegsttax[edgelocnum] < grafptr->baseval) ||
-            (edgegsttax[edgelocnum] >= grafptr->vertgstnnd)) {
-          errorPrint ("dgraphCheck: inconsistent ghost edge array");
-          edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
-          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-          cheklocval = 1;
-          break;
-        }
+    for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+      Gnum                vertglbend;
+      int                 procngbmin;
+      int                 procngbmax;
+
+      if (((grafptr->flagval & DGRAPHHASEDGEGST) != 0) && /* If ghost edge array is valid */
+          ((edgegsttax[edgelocnum] < grafptr->baseval) ||
+           (edgegsttax[edgelocnum] >= grafptr->vertgstnnd))) {
+        errorPrint ("dgraphCheck: inconsistent ghost edge array");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        vertlocnum = grafptr->vertlocnnd;         /* Exit outer loop                        */
+        cheklocval = 1;
+        break;
+      }
 
-        if ((edloloctax != NULL) &&
-            (edloloctax[edgelocnum] <= 0)) {
-          errorPrint ("dgraphCheck: invalid edge load");
-          edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
-          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-          cheklocval = 1;
-          break;
-        }
+      if ((edloloctax != NULL) &&
+          (edloloctax[edgelocnum] <= 0)) {
+        errorPrint ("dgraphCheck: invalid edge load");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        vertlocnum = grafptr->vertlocnnd;         /* Exit outer loop                        */
+        cheklocval = 1;
+        break;
+      }
+
+      vertglbend = edgeloctax[edgelocnum];
+      for (procngbmin = 0, procngbmax = procglbnbr; /* Search for owner process of end vertex */
+           procngbmax - procngbmin > 1; ) {
+        int                 procngbmed;
+
+        procngbmed = (procngbmax + procngbmin) / 2;
+        if (grafptr->procvrttab[procngbmed] <= vertglbend)
+          procngbmin = procngbmed;
+        else
+          procngbmax = procngbmed;
+      }
+      if ((vertglbend <   grafptr->procvrttab[procngbmin])                                    ||
+          (vertglbend >= (grafptr->procvrttab[procngbmin] + grafptr->proccnttab[procngbmin])) || /* If end vertex does not exist */
+          (vertglbend == (grafptr->procvrttab[proclocnum] + (vertlocnum - grafptr->baseval)))) { /* Or if loop arc               */
+        errorPrint ("dgraphCheck: invalid edge end");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        vertlocnum = grafptr->vertlocnnd;         /* Exit outer loop                        */
+        cheklocval = 1;
+        break;
       }
     }
   }
@@ -338,6 +363,8 @@ const Dgraph * restrict const grafptr)
   if (veloloctax != NULL) {                       /* Check vertex load consistency */
     Gnum                velolocsum;
     Gnum                veloglbsum;
+    double              velolocmax;               /* Vertex load sums, not subject to overflow */
+    double              veloglbmax;
 
     for (vertlocnum = grafptr->baseval, velolocsum = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
       Gnum                veloval;
@@ -347,10 +374,20 @@ const Dgraph * restrict const grafptr)
         errorPrint ("dgraphCheck: invalid vertex load");
         cheklocval = 1;
       }
+      if ((cheklocval == 0) && (veloval > (GNUMMAX - velolocsum))) {
+        errorPrint ("dgraphCheck: vertex load sum overflow (1)");
+        cheklocval = 1;
+      }
 
       velolocsum += veloval;
     }
 
+    velolocmax = (cheklocval == 0) ? (double) velolocsum : 0.0;
+    MPI_Allreduce (&velolocmax, &veloglbmax, 1, MPI_DOUBLE, MPI_SUM, proccomm);
+    if ((cheklocval == 0) && (veloglbmax > (double) GNUMMAX)) {
+      errorPrint ("dgraphCheck: vertex load sum overflow (2)");
+      cheklocval = 1;
+    }
     MPI_Allreduce (&velolocsum, &veloglbsum, 1, GNUM_MPI, MPI_SUM, proccomm);
 
     if (velolocsum != grafptr->velolocsum) {
-- 
2.43.0


From 8e2745c7243e304109a5b7edb07643480ad5b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 29/55] fix: SCOTCH_dgraphStat: return the minimum and maximum
 edge loads of weighted graphs

---
 src/libscotch/library_dgraph_stat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 918e6a9..b7833d7 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -256,6 +256,8 @@ double *                    edlodltptr)
           edlolocdlt += fabs ((double) srcgrafptr->edloloctax[edgelocnum] - edloglbavg);
       }
 
+      srclstadat.edlomin = edlolocmin;
+      srclstadat.edlomax = edlolocmax;
       edloglbsum /= 2;                            /* Every edge has been accounted for twice */
     }
     else {
-- 
2.43.0


From 8c046c434bbca8dcd17f97683a27655d1818ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 30/55] fix: dgraphRedist corrupted edge data when a
 permutation was provided

---
 src/libscotch/dgraph_redist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..2242285 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -351,8 +351,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
            dstveloloctax  = ((srcgrafptr->veloloctax != NULL) ? dstveloloctax - baseval : NULL),
            dstvlblloctax -= baseval,
            memAllocGroup ((void **) (void *)
-                          &dstedgeloctax, (size_t) ((dstedlolocsiz +  /* TRICK: extra space required only if edge loads                                */
-                                                     MAX (dstedgelocdlt, srcgrafptr->degrglbmax)) * sizeof (Gnum)), /* TRICK: degrmax to avoid overlap */
+                          &dstedgeloctax, (size_t) ((dstedgelocsiz + dstedlolocsiz) * sizeof (Gnum)), /* No overlap with received data, since vertices may be copied in any order */
                           &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
                           &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
     errorPrint ("dgraphRedist2: out of memory (3)");
-- 
2.43.0


From 5555c56b543b805c000217ded7c8fa82395005ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 31/55] fix: dgraphLoad of centralized streams: heap overflow,
 ignored header errors, missing edge loads, unchecked counts

---
 src/libscotch/dgraph_io_load.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..852cfac 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -221,10 +221,12 @@ const int                   protnum)              /* Root process number
         (intLoad (stream, &reduglbtab[2]) != 1) ||
         (intLoad (stream, &reduglbtab[3]) != 1) ||
         (intLoad (stream, &reduglbtab[4]) != 1) ||
+        (reduglbtab[1] < 0)                     ||
+        (reduglbtab[2] < 0)                     ||
         (reduglbtab[4] < 0)                     ||
         (reduglbtab[4] > 111)) {
       errorPrint ("dgraphLoadCent: bad input (1)");
-      cheklocval = 1;
+      reduglbtab[0] = 1;                          /* Tell all processes to abort */
     }
   }
 
@@ -267,7 +269,7 @@ const int                   protnum)              /* Root process number
     vertloctax  =
     vertlocptr -= baseval;
     vertlocptr += vertglbmax + 2;                 /* TRICK: "+2" for space for velolocsum */
-    if (proptab[2] != 0) {
+    if ((proptab[2] != 0) && ((flagval & GRAPHIONOLOADVERT) == 0)) {
       veloloctax  = vertlocptr;
       vertlocptr += vertglbmax;
     }
@@ -316,8 +318,9 @@ const int                   protnum)              /* Root process number
 
   if (stream != NULL) {
     Gnum                procnum;
+    Gnum                edgeredsum;               /* Overall number of arcs read */
 
-    for (procnum = 0; procnum < grafptr->procglbnbr; procnum ++) {
+    for (procnum = 0, edgeredsum = 0; procnum < grafptr->procglbnbr; procnum ++) {
       Gnum                vertrednnd;
       Gnum                vertrednum;
       Gnum                edgerednum;
@@ -350,7 +353,8 @@ const int                   protnum)              /* Root process number
             veloredsum            +=
             veloredtax[vertrednum] = veloredval;
         }
-        if (intLoad (stream, &degrredval) != 1) { /* Read vertex degree */
+        if ((intLoad (stream, &degrredval) != 1) || /* Read vertex degree */
+            (degrredval < 0)) {
           errorPrint ("dgraphLoadCent: bad input (4)");
           cheklocval = 1;
           break;
@@ -410,6 +414,13 @@ const int                   protnum)              /* Root process number
           break;
       }
       vertredtax[vertrednum ++] = edgerednum;     /* Set end of edge array */
+      edgeredsum += edgerednum - baseval;
+      if ((cheklocval == 0) &&                    /* If all arcs read and their number does not match header */
+          (procnum == (grafptr->procglbnbr - 1)) &&
+          (edgeredsum != reduglbtab[2])) {
+        errorPrint ("dgraphLoadCent: invalid arc count");
+        cheklocval = 1;
+      }
 
       if (cheklocval == 0) {
         if (procnum != grafptr->proclocnum) {     /* If arrays have to be sent */
@@ -597,7 +608,7 @@ const int                   protnum)              /* Root process number
           errorPrint ("dgraphLoadCent: communication error (13)");
           return     (1);
         }
-        if (edlolocnbr != 0) {
+        if ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) { /* Array must exist even if no local edges */
           edloloctax = edgeloctax + edgelocnbr;
           if (MPI_Irecv (edloloctax, edgelocnbr, GNUM_MPI, protnum, TAGEDLOLOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
             errorPrint ("dgraphLoadCent: communication error (14)");
@@ -689,8 +700,10 @@ const DgraphFlag            flagval)              /* Graph loading flags
   o += intLoad (stream, &reduloctab[11]);
   o += intLoad (stream, &reduloctab[7]);
   o += intLoad (stream, &reduloctab[9]);
-  if ((o != 8)            ||
-      (reduloctab[9] < 0) ||
+  if ((o != 8)             ||
+      (reduloctab[10] < 0) ||
+      (reduloctab[11] < 0) ||
+      (reduloctab[9] < 0)  ||
       (reduloctab[9] > 111)) {
     errorPrint ("dgraphLoadDist: bad input (1)");
     reduloctab[0] = 2;                            /* Immediate abort has maximum value so as to be propagated by MAX reduce */
@@ -824,7 +837,8 @@ const DgraphFlag            flagval)              /* Graph loading flags
         velolocsum            +=
         veloloctax[vertlocnum] = velolocval;
     }
-    if (intLoad (stream, &degrlocval) != 1) {     /* Read vertex degree */
+    if ((intLoad (stream, &degrlocval) != 1) ||   /* Read vertex degree */
+        (degrlocval < 0)) {
       errorPrint ("dgraphLoadDist: bad input (4)");
       cheklocval = 1;
       break;
-- 
2.43.0


From cb563960894a0fbbc3dc2b6402c2de02aa53fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 32/55] fix: band growing left its last level unset when the
 distance is zero

---
 src/libscotch/dgraph_band_grow.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 4f1942c..ef3b783 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -176,6 +176,7 @@ Context *                         contptr)        /*+ Execution context
   }
   procvgbtab[procngbnum] = grafptr->procvrttab[grafptr->procglbnbr];
 
+  *bandvertlvlptr =                               /* In case of zero distance                 */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
@@ -236,7 +237,7 @@ Context *                         contptr)        /*+ Execution context
 #ifdef SCOTCH_DEBUG_DGRAPH2
           if ((grafptr->procvrttab[grafptr->procngbtab[procngbnum]]     >  vertglbend) ||
               (grafptr->procvrttab[grafptr->procngbtab[procngbnum] + 1] <= vertglbend) ||
-              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + grafptr->procrcvtab[grafptr->procngbtab[procngbnum]]))) {
+              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + DGRAPHBANDGROWSMUL (grafptr->procrcvtab[grafptr->procngbtab[procngbnum]])))) {
             errorPrint (DGRAPHBANDGROWNSTR "Coll: internal error (1)");
             return     (1);
           }
@@ -432,6 +433,7 @@ Context *                         contptr)        /*+ Execution context
     } while (procngbnum != procngbnxt);
   }
 
+  *bandvertlvlptr =                               /* In case of zero distance                 */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
-- 
2.43.0


From f2fbc6e9f0202efeb17ae6783010d8dac8a56b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 33/55] fix: dgraphBand used user labels as local indices and a
 wrong vertex load sum

---
 src/libscotch/library_dgraph_band.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..7b2ad4a 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -260,7 +260,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum]; /* Labels may be user-defined ones */
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -290,7 +290,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum]; /* Labels may be user-defined ones */
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -326,7 +326,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
       Gnum              vertlocnum;
       Gnum              bandedgelocnum;
 
-      vertlocnum     = bandvlblloctax[bandvertlocnum] - vertlocadj;
+      vertlocnum     = fronloctax[bandvertlocnum]; /* Labels may be user-defined ones */
       bandedgelocnum = bandvertloctax[bandvertlocnum];
       memCpy (bandedloloctax + bandedgelocnum,    /* Copy edge load array */
               &edloloctax[vertloctax[vertlocnum]],
@@ -339,7 +339,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   bandgrafptr->vertlocnnd = bandvertlocnbr + bandgrafptr->baseval;
   bandgrafptr->vendloctax = bandvertloctax + 1;   /* Band graph is compact */
   bandgrafptr->veloloctax = bandveloloctax;
-  bandgrafptr->velolocsum = bandvelolocsum;
+  bandgrafptr->velolocsum = (veloloctax != NULL) ? bandvelolocsum : bandvertlocnbr; /* If no vertex loads present */
   bandgrafptr->vlblloctax = bandvlblloctax;
   bandgrafptr->edgeloctax = bandedgeloctax;
   bandgrafptr->edloloctax = bandedloloctax;
-- 
2.43.0


From a28ae31d025156f4f258b500b0b75e8b4b4f2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 34/55] fix: dgraphGrow left the colors of ghost vertices unset

---
 src/libscotch/library_dgraph_grow.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libscotch/library_dgraph_grow.c b/src/libscotch/library_dgraph_grow.c
index cb59dca..dcadd89 100644
--- a/src/libscotch/library_dgraph_grow.c
+++ b/src/libscotch/library_dgraph_grow.c
@@ -127,10 +127,19 @@ SCOTCH_Num * const          partgsttab)
   }
 
   bandpartgsttax = (partgsttab != NULL) ? (Gnum *) partgsttab - grafdat.baseval : NULL;
+  if (partgsttab != NULL)                         /* Ghost part is not set by user */
+    memSet (partgsttab + grafdat.vertlocnbr, ~0, (grafdat.vertgstnbr - grafdat.vertlocnbr) * sizeof (Gnum));
 
   o = (((grafdat.flagval & DGRAPHCOMMPTOP) != 0) ? dgraphGrow2Ptop : dgraphGrow2Coll)
         (&grafdat, seedlocnbr, seedloctab, distmax, bandpartgsttax, &bandvertlvlnum, &bandvertlocnbr, &bandedgelocsiz, CONTEXTGETDATA (orggrafptr));
 
+  if (o == 0) {                                   /* Provide colors of ghost vertices */
+    if (dgraphHaloSync (&grafdat, (byte *) partgsttab, GNUM_MPI) != 0) {
+      errorPrint (STRINGIFY (SCOTCH_dgraphGrow) ": cannot perform halo exchange");
+      o = 1;
+    }
+  }
+
   dgraphExit (&grafdat);                          /* Free ghost edge arrays if any */
 abort:
   CONTEXTEXIT (orggrafptr);
-- 
2.43.0


From 753144a2cd9ef56eea73de839bb2ad167c4fe0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 35/55] fix: dgraphCoarsen copied a NULL multinode array when
 folding does not happen

---
 src/libscotch/library_dgraph_coarsen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_coarsen.c b/src/libscotch/library_dgraph_coarsen.c
index c413063..1c1f49e 100644
--- a/src/libscotch/library_dgraph_coarsen.c
+++ b/src/libscotch/library_dgraph_coarsen.c
@@ -150,7 +150,7 @@ SCOTCH_Num * const          multloctab)           /* Pointer to multinode array
       memFree (multlocptr);                       /* Free allocated multinode array (folded or not) */
   }
   else {                                          /* User provided a multinode array                */
-    if (foldval != DGRAPHCOARSENNONE) {           /* If folding took place, user array was not used */
+    if ((o == 0) && (foldval != DGRAPHCOARSENNONE)) { /* If folding took place, user array was not used */
 #ifdef SCOTCH_DEBUG_LIBRARY2
       SCOTCH_Num          multlocsiz;             /* Size that the user may have reserved for the multinode folded array */
 
-- 
2.43.0


From 8ca24f507f94e7adc2b514edb1f336ef2631c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 36/55] fix: threaded coarsening made processes with a single
 coarse vertex look compact

---
 src/libscotch/dgraph_coarsen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_coarsen.c b/src/libscotch/dgraph_coarsen.c
index c51412e..70777e7 100644
--- a/src/libscotch/dgraph_coarsen.c
+++ b/src/libscotch/dgraph_coarsen.c
@@ -1063,7 +1063,7 @@ DgraphCoarsenData * restrict const  coarptr)
   esndcnttab = NULL;                              /* In case of memory allocation error                      */
 #if (defined SCOTCH_PTHREAD) && (! defined DGRAPHCOARSENNOTHREAD)
   if (thrdmin > 1)                                /* If more than one thread    */
-    vendlocsiz = coarptr->multlocnbr;             /* Create a non-compact graph */
+    vendlocsiz = MAX (coarptr->multlocnbr, 2);    /* Create a non-compact graph; never let a single vertex make it look compact */
   else
 #endif /* (defined SCOTCH_PTHREAD) && (! defined DGRAPHCOARSENNOTHREAD) */
     vendlocsiz = 1;                               /* Else create a compact graph */
-- 
2.43.0


From 86f353614d8df937f7f76817a5bcf008ee7f0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 37/55] fix: dgraphMapView printed a wrong expansion to
 dilation ratio

---
 src/libscotch/library_dgraph_map_view.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_map_view.c b/src/libscotch/library_dgraph_map_view.c
index 3c1ed7d..1084ddc 100644
--- a/src/libscotch/library_dgraph_map_view.c
+++ b/src/libscotch/library_dgraph_map_view.c
@@ -145,7 +145,8 @@ FILE * const                  stream)
   fprintf (stream, "M\tCommDelta=%f\n",
            (((double) cmlosum  * (double) cmdisum) == 0.0L)
            ? (double) 0.0L
-           : ((double) grafptr->edgeglbnbr) / (double) (cmlosum * 2));
+           : ((double) cmexsum * (double) (grafptr->edgeglbnbr / 2)) /
+             ((double) cmlosum * (double) cmdisum));
 
   for (cdstnum = 0; cdstnum <= cdstmax; cdstnum ++) /* Print distance histogram */
     fprintf (stream, "M\tCmlosum[" ANUMSTRING "]=%f\n",
-- 
2.43.0


From 97ed3ace39ac288edb04dd3f2a301c56a0b5c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 38/55] fix: dgraphMapSave misplaced vertex labels and refused
 graphs with holes

---
 src/libscotch/dmapping_io.c | 46 +++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dmapping_io.c b/src/libscotch/dmapping_io.c
index e3e425b..55eaf5a 100644
--- a/src/libscotch/dmapping_io.c
+++ b/src/libscotch/dmapping_io.c
@@ -69,6 +69,41 @@
 
 DGRAPHALLREDUCEMAXSUMOP (1, 5)
 
+/* This routine returns the number under which the
+** vertex of given global index is to be written.
+** Global indices may have holes, while the array
+** of gathered vertex labels is compact.
+** It returns:
+** - vertex number  : in all cases.
+*/
+
+static
+Gnum
+dmapSaveNum (
+const Dgraph * restrict const grafptr,
+const Gnum * restrict const   vlbltax,
+const Gnum                    vertglbnum)
+{
+  int                 procngbmin;
+  int                 procngbmax;
+
+  if (grafptr->vlblloctax == NULL)
+    return (vertglbnum);
+
+  for (procngbmin = 0, procngbmax = grafptr->procglbnbr; /* Dichotomy search for owner process */
+       procngbmax - procngbmin > 1; ) {
+    int                 procngbmed;
+
+    procngbmed = (procngbmax + procngbmin) / 2;
+    if (grafptr->procvrttab[procngbmed] <= vertglbnum)
+      procngbmin = procngbmed;
+    else
+      procngbmax = procngbmed;
+  }
+
+  return (vlbltax[grafptr->procdsptab[procngbmin] + (vertglbnum - grafptr->procvrttab[procngbmin])]);
+}
+
 /* This routine saves a distributed mapping.
 ** The distributed graph structure is provided
 ** to access the distribution of vertex labels,
@@ -167,12 +202,13 @@ FILE * restrict const           stream)
   }
 
   if (grafptr->vlblloctax != NULL) {
+    if (protnum == grafptr->proclocnum)
+      vlbltax -= grafptr->baseval;                /* Base label array, since displacements in procdsptab are based */
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
                      vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dmapSave: communication error (3)");
       return     (1);
     }
-    vlbltax -= grafptr->baseval;                  /* Base label array */
   }
 
   if (protnum == grafptr->proclocnum) {
@@ -189,7 +225,7 @@ FILE * restrict const           stream)
 
         vnumnum = fragptr->vnumtab[fraglocnum];
 #ifdef SCOTCH_DEBUG_DMAP2
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < 0) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (2)");
           return     (1);
         }
@@ -197,7 +233,7 @@ FILE * restrict const           stream)
         termnum = archDomNum (&dmapptr->archdat, &fragptr->domntab[fragptr->parttab[fraglocnum]]);
 
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
-                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[vnumnum] : vnumnum),
+                     dmapSaveNum (grafptr, vlbltax, vnumnum),
                      (Gnum) termnum) == EOF) {
           errorPrint ("dmapSave: bad output (2)");
           reduloctab[0] = 1;
@@ -225,7 +261,7 @@ FILE * restrict const           stream)
 
       for (termrcvptr = termrcvtab, termrcvnnd = termrcvtab + vertrcvnbr; termrcvptr < termrcvnnd; termrcvptr ++, vnumrcvptr ++) {
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
-                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[*vnumrcvptr] : *vnumrcvptr),
+                     dmapSaveNum (grafptr, vlbltax, *vnumrcvptr),
                      (Gnum) *termrcvptr) == EOF) {
           errorPrint ("dmapSave: bad output (3)");
           reduloctab[0] = 1;
@@ -247,7 +283,7 @@ FILE * restrict const           stream)
         Gnum                vnumnum;
 
         vnumnum = fragptr->vnumtab[fraglocnum];
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < 0) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (3)");
           return     (1);
         }
-- 
2.43.0


From 3d30cd001c2f99294bbf204eb0809041bc0a4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 39/55] fix: parallel mapping read an invalid part array when a
 based graph was not bipartitioned

---
 src/libscotch/kdgraph_map_rb_part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c60c710..e691edf 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -254,7 +254,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 
   if ((indflagtab[0] | indflagtab[1]) == 0) {     /* If both subjobs stop    */
     fldgrafptr->procnbr = 0;                      /* Nothing to do on return */
-    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, actgrafptr->partgsttax + actgrafptr->s.baseval)); /* Map both subdomains in the same time */
+    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab,
+                                 (actgrafptr->partgsttax != NULL) ? (actgrafptr->partgsttax + actgrafptr->s.baseval) : NULL)); /* Map both subdomains in the same time */
   }
 
   if ((2 * actgrafptr->compglbsize0) >= actgrafptr->s.vertglbnbr) { /* Get part of largest subgraph */
-- 
2.43.0


From 55afecfb27e4098ca98f676473740447e1eed126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 40/55] fix: bgraphCheck refused gathered distributed band
 graphs, whose average load is tilted

---
 src/libscotch/bgraph_check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bgraph_check.c b/src/libscotch/bgraph_check.c
index 64aa111..d8c8b37 100644
--- a/src/libscotch/bgraph_check.c
+++ b/src/libscotch/bgraph_check.c
@@ -95,8 +95,8 @@ const Bgraph * restrict const grafptr)
   const GraphPart * restrict const  parttax = grafptr->parttax;
   const Gnum * restrict const       frontab = grafptr->frontab;
 
-  if (grafptr->compload0avg != (Gnum) (((double) (grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]) * (double) grafptr->domnwght[0]) /
-                                       (double) (grafptr->domnwght[0] + grafptr->domnwght[1])) - grafptr->vfixload[0]) {
+  if ((grafptr->compload0avg + grafptr->vfixload[0] < 0) || /* Average load may not be exact share of graph load, as anchors of distributed band graphs tilt it */
+      (grafptr->compload0avg > (grafptr->s.velosum + grafptr->vfixload[1]))) {
     errorPrint ("bgraphCheck: invalid average load");
     return (1);
   }
-- 
2.43.0


From 8d792941514fc1f0e0c0451e1ba46b77ea41b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 41/55] fix: dgraphOrderSave*, dgraphOrderTreeDist ignored the
 base value

---
 src/libscotch/dorder_io.c        | 4 ++--
 src/libscotch/dorder_io_tree.c   | 5 +++--
 src/libscotch/dorder_tree_dist.c | 5 ++++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index dc17c8d..44350c7 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -141,6 +141,8 @@ FILE * restrict const         stream)
 #endif /* SCOTCH_DEBUG_DORDER1 */
 
   if (grafptr->vlblloctax != NULL) {
+    if (protnum == ordeptr->proclocnum)
+      vlbltax -= ordeptr->baseval;                /* Base label array, since displacements in procdsptab are based */
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
                      vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSave: communication error (3)");
@@ -200,8 +202,6 @@ FILE * restrict const         stream)
     orderPeri (peritab, ordeptr->baseval, ordeptr->vnodglbnbr, permtab, ordeptr->baseval); /* Compute direct permutation */
 
     if (grafptr->vlblloctax != NULL) {            /* If ordering has label array */
-      vlbltax -= ordeptr->baseval;                /* Base label array            */
-
       for (vertnum = 0; vertnum < ordeptr->vnodglbnbr; vertnum ++) {
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
                      (Gnum) vlbltax[vertnum + ordeptr->baseval],
diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..aa49e78 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -128,7 +128,8 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     if (cheklocval != 0)
       return (1);
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltab, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     (vlbltab != NULL) ? (vlbltab - grafptr->baseval) : NULL, /* Base label array, since displacements in procdsptab are based */
+                     grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSaveTree2: communication error (3)");
       return     (1);
     }
@@ -148,7 +149,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
     if (cheklocval == 0)
-      cheklocval = funcptr (&corddat, vlbltab, stream);
+      cheklocval = funcptr (&corddat, (vlbltab != NULL) ? (vlbltab - grafptr->baseval) : NULL, stream);
     orderExit (&corddat);
   }
   else
diff --git a/src/libscotch/dorder_tree_dist.c b/src/libscotch/dorder_tree_dist.c
index c61e9b6..a2ce7b0 100644
--- a/src/libscotch/dorder_tree_dist.c
+++ b/src/libscotch/dorder_tree_dist.c
@@ -288,6 +288,8 @@ Gnum * restrict const         sizeglbtab)
   }
   intSort2asc2 (srt2glbtab, dblkglbnbr);          /* Sort father indices by ascending column block indices */
   for (dblkglbnum = 0; dblkglbnum < dblkglbnbr; dblkglbnum ++) {
+    Gnum                fathglbnum;
+
 #ifdef SCOTCH_DEBUG_DORDER2
     if (srt1glbtab[2 * dblkglbnum] != srt2glbtab[2 * dblkglbnum]) {
       errorPrint ("dorderTreeDist: internal error (5)");
@@ -295,7 +297,8 @@ Gnum * restrict const         sizeglbtab)
       return     (1);
     }
 #endif /* SCOTCH_DEBUG_DORDER2 */
-    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    fathglbnum = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = (fathglbnum >= 0) ? (fathglbnum + ordeptr->baseval) : fathglbnum; /* Node indices are based, save for father of root */
     sizeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 3];
   }
 
-- 
2.43.0


From 2210f06d48bb766bbc9b6a3a9c7e90239993f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 42/55] fix: parallel ordering of graphs with holes, with
 non-compact edge arrays, or deriving from other graphs

---
 src/libscotch/dorder_perm.c          |   2 +-
 src/libscotch/hdgraph_gather.c       | 101 +++++++++++++++++++++++----
 src/libscotch/hdgraph_induce.c       |   2 +-
 src/libscotch/hdgraph_order_nd.c     |  16 ++++-
 src/libscotch/library_dgraph_order.c |   1 +
 5 files changed, 105 insertions(+), 17 deletions(-)

diff --git a/src/libscotch/dorder_perm.c b/src/libscotch/dorder_perm.c
index 3b89b8c..5ba8053 100644
--- a/src/libscotch/dorder_perm.c
+++ b/src/libscotch/dorder_perm.c
@@ -137,7 +137,7 @@ Gnum * restrict const         permloctab)
 
     memFree (senddsptab);                         /* Free group leader */
 
-    for (vnodlocnum = 0, ordelocval = grafptr->procvrttab[grafptr->proclocnum]; /* Build identity permutation */
+    for (vnodlocnum = 0, ordelocval = grafptr->procdsptab[grafptr->proclocnum]; /* Build identity permutation */
          vnodlocnum < grafptr->vertlocnbr; vnodlocnum ++)
       permloctab[vnodlocnum] = ordelocval ++;
 
diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 89137a3..e9201fa 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -70,6 +70,62 @@
 /*                            */
 /******************************/
 
+/* This routine builds the compact version of the
+** local vertex and edge arrays of a distributed
+** halo graph which is not compact or the global
+** indices of which are not continuous. Vertex
+** indices are the ones after the last arc of every
+** vertex, and non-halo arc ends are expressed
+** using continuous global indices.
+** It returns:
+** - VOID  : in all cases.
+*/
+
+static
+void
+hdgraphGatherComp (
+const Hdgraph * restrict const  dgrfptr,          /* Distributed halo graph                      */
+Gnum * restrict const           verttmptab,       /* Based end indices of all arcs of vertices   */
+Gnum * restrict const           vendtmptab,       /* Based end indices of non-halo arcs          */
+Gnum * restrict const           edgetmptab)       /* Compact edge array                          */
+{
+  Gnum                vertlocnum;
+  Gnum                edgetmpnum;
+
+  const Gnum * restrict const vertloctax = dgrfptr->s.vertloctax;
+  const Gnum * restrict const vendloctax = dgrfptr->s.vendloctax;
+  const Gnum * restrict const vhndloctax = dgrfptr->vhndloctax;
+  const Gnum * restrict const edgeloctax = dgrfptr->s.edgeloctax;
+  const Gnum * restrict const procvrttab = dgrfptr->s.procvrttab;
+  const Gnum                  baseval    = dgrfptr->s.baseval;
+
+  for (vertlocnum = baseval, edgetmpnum = 0; vertlocnum < dgrfptr->s.vertlocnnd; vertlocnum ++) {
+    Gnum                edgelocnum;
+
+    for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+      const Gnum          vertglbend = edgeloctax[edgelocnum];
+      int                 procngbmin;
+      int                 procngbmax;
+
+      for (procngbmin = 0, procngbmax = dgrfptr->s.procglbnbr; /* Dichotomy search for owner process */
+           procngbmax - procngbmin > 1; ) {
+        int                 procngbmed;
+
+        procngbmed = (procngbmax + procngbmin) / 2;
+        if (procvrttab[procngbmed] <= vertglbend)
+          procngbmin = procngbmed;
+        else
+          procngbmax = procngbmed;
+      }
+      edgetmptab[edgetmpnum ++] = vertglbend - procvrttab[procngbmin] + dgrfptr->s.procdsptab[procngbmin];
+    }
+    vendtmptab[vertlocnum - baseval] = edgetmpnum + baseval;
+    for ( ; edgelocnum < vhndloctax[vertlocnum]; edgelocnum ++) /* Halo arcs, if any, follow regular ones */
+      edgetmptab[edgetmpnum ++] = edgeloctax[edgelocnum];
+    verttmptab[vertlocnum - baseval] = edgetmpnum + baseval;
+  }
+}
+
 /* This function gathers the pieces of
 ** a distributed halo graph to build a
 ** centralized halo graph.
@@ -93,6 +149,13 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   int                vhallocnbr;                  /* Local copy for sending as a MPI_INT        */
   Gnum * restrict    verthaltax;
   Gnum * restrict    edgehaltax;
+  Gnum * restrict    verttmptab;                  /* Temporary compact arrays for user graphs   */
+  Gnum * restrict    vendtmptab;
+  Gnum * restrict    edgetmptab;
+  const Gnum *       vertsndtab;                  /* Arrays of vertex and edge data to be sent  */
+  const Gnum *       vendsndtab;
+  const Gnum *       edgesndtab;
+  int                compflag;                    /* Flag set if local data can be sent as is   */
   Gnum               edgehalnum;
   int                ehallocnbr;                  /* Local copy for sending as a MPI_INT        */
   int                rootnum;                     /* Index of root process                      */
@@ -125,6 +188,9 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   rootnum = (int) reduglbtab[1];                  /* Get rank of root process                           */
   degrmax = dgrfptr->s.degrglbmax;                /* Distributed degree does not account for halo edges */
 
+  compflag = ((dgrfptr->vhndloctax == dgrfptr->s.vertloctax + 1) && /* User graphs may neither be compact nor have continuous indices */
+              (dgrfptr->s.procvrttab[dgrfptr->s.procglbnbr - 1] == dgrfptr->s.procdsptab[dgrfptr->s.procglbnbr - 1]));
+
   cheklocval = 0;
   if (cgrfptr != NULL) {                          /* If process is root */
     Gnum               vnohnbr;
@@ -188,7 +254,10 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   if ((cheklocval == 0) &&
       (memAllocGroup ((void **) (void *)
                       &verthaltax, (size_t) (dgrfptr->vhallocnbr * sizeof (Gnum)),
-                      &edgehaltax, (size_t) (dgrfptr->ehallocnbr * sizeof (Gnum)), NULL) == NULL)) {
+                      &edgehaltax, (size_t) (dgrfptr->ehallocnbr * sizeof (Gnum)),
+                      &verttmptab, (size_t) ((compflag ? 0 : dgrfptr->s.vertlocnbr) * sizeof (Gnum)),
+                      &vendtmptab, (size_t) ((compflag ? 0 : dgrfptr->s.vertlocnbr) * sizeof (Gnum)),
+                      &edgetmptab, (size_t) ((compflag ? 0 : (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr)) * sizeof (Gnum)), NULL) == NULL)) {
     errorPrint ("hdgraphGather: out of memory (4)");
     cheklocval = 1;
   }
@@ -211,7 +280,19 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
     return (1);
   }
 
-  if (dgrfptr->vhndloctax == dgrfptr->s.vertloctax + 1) { /* If distributed halo graph is compact */
+  if (compflag) {                                 /* If local part of distributed halo graph can be sent as is          */
+    vertsndtab = dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval; /* Do not send first index, it is always equal to baseval */
+    vendsndtab = dgrfptr->s.vendloctax + dgrfptr->s.baseval;
+    edgesndtab = dgrfptr->s.edgeloctax + dgrfptr->s.baseval;
+  }
+  else {                                          /* Build compact arrays, with continuous vertex indices */
+    hdgraphGatherComp (dgrfptr, verttmptab, vendtmptab, edgetmptab);
+    vertsndtab = verttmptab;
+    vendsndtab = vendtmptab;
+    edgesndtab = edgetmptab;
+  }
+
+  {
     Gnum               procglbnum;
     Gnum               edgenum;
 
@@ -219,14 +300,14 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
       Gnum               vertnum;
 
       cgrfptr->s.verttax[dgrfptr->s.baseval] = dgrfptr->s.baseval;
-      if (commGatherv (dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
+      if (commGatherv (vertsndtab,
                        dgrfptr->s.vertlocnbr, GNUM_MPI,
                        cgrfptr->s.verttax + 1,      /* First index will always be equal to baseval too, and procdsptab holds based values */
                        dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (3)");
         return     (1);
       }
-      if (commGatherv (dgrfptr->s.vendloctax + dgrfptr->s.baseval,
+      if (commGatherv (vendsndtab,
                        dgrfptr->s.vertlocnbr, GNUM_MPI, cgrfptr->vnhdtax, /* procdsptab holds based values */
                        dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (4)");
@@ -253,7 +334,7 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
         recvdsptab[procglbnum] = edgenum;
         edgenum += recvcnttab[procglbnum];
       }
-      if (MPI_Gatherv (dgrfptr->s.edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
+      if (MPI_Gatherv (edgesndtab, /* Gather edge arrays with global vertex indices */
                        (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI, cgrfptr->s.edgetax,
                        recvcnttab, recvdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (5)");
@@ -261,17 +342,17 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
       }
     }
     else {
-      if (MPI_Gatherv (dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
+      if (MPI_Gatherv (vertsndtab,
                        (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (6)");
         return     (1);
       }
-      if (MPI_Gatherv (dgrfptr->s.vendloctax + dgrfptr->s.baseval,
+      if (MPI_Gatherv (vendsndtab,
                        (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (7)");
         return     (1);
       }
-      if (MPI_Gatherv (dgrfptr->s.edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
+      if (MPI_Gatherv (edgesndtab, /* Gather edge arrays with global vertex indices */
                        (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI,
                        NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
         errorPrint ("hdgraphGather: communication error (8)");
@@ -279,10 +360,6 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
       }
     }
   }
-  else {
-    errorPrint ("hdgraphGather: Not implemented"); /* Not really necessary as all Hdgraph structures created by Scotch itself are compact */
-    return     (1);
-  }
 
   memSet (verthaltax + dgrfptr->s.baseval, 0, dgrfptr->vhallocnbr * sizeof (Gnum)); /* Initialize halo end vertex count array */
   for (vertlocnum = dgrfptr->s.baseval; vertlocnum < dgrfptr->s.vertlocnnd; vertlocnum ++) {
diff --git a/src/libscotch/hdgraph_induce.c b/src/libscotch/hdgraph_induce.c
index f23c1f3..03d68c8 100644
--- a/src/libscotch/hdgraph_induce.c
+++ b/src/libscotch/hdgraph_induce.c
@@ -326,7 +326,7 @@ Hdgraph * restrict const    indgrafptr)
   else {
     Gnum                orgvertglbadj;
 
-    orgvertglbadj = orggrafptr->s.procvrttab[orggrafptr->s.proclocnum] - orggrafptr->s.baseval; /* Set adjustement for global ordering */
+    orgvertglbadj = orggrafptr->s.procdsptab[orggrafptr->s.proclocnum] - orggrafptr->s.baseval; /* Set adjustement for global ordering, with continuous indices */
     for (indvertlocnum = orggrafptr->s.baseval; indvertlocnum < indvertlocnnd; indvertlocnum ++)
       indgrafptr->s.vnumloctax[indvertlocnum] = indlisttax[indvertlocnum] + orgvertglbadj;
   }
diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 977fec3..cdfd13c 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -322,9 +322,11 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     memFree (vspgrafdat.partgsttax + vspgrafdat.s.baseval); /* Free useless space */
     memFree (vspgrafdat.fronloctab);
 
-    hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    hdgraphExit    (grafptr);                     /* Free graph at this level   */
-    return (0);                                   /* Leaf has been processed    */
+    o = hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
+    if (grafptr->levlnum > 0)                     /* If intermediate level nested dissection graph                    */
+      dorderDispose (cblkptr);                    /* Dispose of column block (may be kept as leaf or if locally rooted) */
+    hdgraphExit (grafptr);                        /* Free graph at this level   */
+    return (o);                                   /* Leaf has been processed    */
   }
 
   vspvnumtab[0] = vspgrafdat.fronloctab + vspgrafdat.complocsize[2]; /* TRICK: build vertex lists within frontier array */
@@ -371,6 +373,14 @@ const HdgraphOrderNdParam * restrict const  paraptr)
       errorPrint ("hdgraphOrderNd2: cannot build induced subgraph (1)");
       goto abort;
     }
+    if (grafptr->s.vnumloctax == NULL) {          /* If initial graph, turn global indices, which may have holes, into continuous ones */
+      Gnum                vertglbadj;
+      Gnum                vertlocnum;
+
+      vertglbadj = grafptr->s.procdsptab[grafptr->s.proclocnum] - grafptr->s.procvrttab[grafptr->s.proclocnum];
+      for (vertlocnum = indgrafdat2.s.baseval; vertlocnum < indgrafdat2.s.vertlocnnd; vertlocnum ++)
+        indgrafdat2.s.vnumloctax[vertlocnum] += vertglbadj;
+    }
     indgrafdat2.vhallocnbr = 0;                   /* No halo on graph */
     indgrafdat2.vhndloctax = indgrafdat2.s.vendloctax;
     indgrafdat2.ehallocnbr = 0;
diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index 7e08b11..39e417c 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -202,6 +202,7 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   srcgrafdat.s.flagval   &= ~DGRAPHFREEALL;       /* Do not free anything from it   */
   srcgrafdat.s.edloloctax = NULL;                 /* Never mind about edge loads    */
   srcgrafdat.s.vlblloctax = NULL;                 /* Do not propagate vertex labels */
+  srcgrafdat.s.vnumloctax = NULL;                 /* Order with respect to this graph, even if it derives from another one */
   srcgrafdat.vhallocnbr   = 0;                    /* No halo on graph               */
   srcgrafdat.vhndloctax   = srcgrafdat.s.vendloctax;
   srcgrafdat.ehallocnbr   = 0;
-- 
2.43.0


From 2a2e54246b71f7d5c9e23ca181236f2c0f804a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 43/55] fix: recomputed distributed orderings, orderings of
 empty distributed graphs

---
 src/libscotch/dorder.c                      | 1 +
 src/libscotch/library_dgraph_order_gather.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder.c b/src/libscotch/dorder.c
index f7f8afb..8901307 100644
--- a/src/libscotch/dorder.c
+++ b/src/libscotch/dorder.c
@@ -138,6 +138,7 @@ Dorder * restrict const     ordeptr)
 
   ordeptr->linkdat.nextptr =                      /* Loop double-chained list */
   ordeptr->linkdat.prevptr = &ordeptr->linkdat;
+  ordeptr->cblklocnbr      = 0;                   /* No more column blocks in local ordering */
 }
 
 /* This routine frees the contents
diff --git a/src/libscotch/library_dgraph_order_gather.c b/src/libscotch/library_dgraph_order_gather.c
index 0b084d3..8af0b73 100644
--- a/src/libscotch/library_dgraph_order_gather.c
+++ b/src/libscotch/library_dgraph_order_gather.c
@@ -150,7 +150,7 @@ SCOTCH_Ordering * const         cordptr)          /*+ Centralized ordering +*/
     if (libcordptr->treetab != NULL)              /* Build separator tree array if wanted */
       orderTree (&libcordptr->o, libcordptr->treetab);
     if (libcordptr->cblkptr != NULL)              /* Set number of column blocks if wanted */
-      *(libcordptr->cblkptr) = libcordptr->o.cblknbr;
+      *(libcordptr->cblkptr) = (libcordptr->o.vnodnbr > 0) ? libcordptr->o.cblknbr : 0; /* Empty orderings have no column blocks */
 
     return (0);
   }
-- 
2.43.0


From d2333b0720bf69eeef327fdb3e36db64ee611b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 44/55] fix: splitting methods created column blocks with a
 single son

---
 src/libscotch/hgraph_order_bl.c |  6 ++++++
 src/libscotch/hgraph_order_kp.c | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 60d2ea8..e394acc 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -168,6 +168,12 @@ const Gnum                    cblkmin)
     }
 
     cblknbr = cblknum;                            /* Use effective number of blocks */
+
+    if (cblknbr <= 1) {                           /* If block is not split, keep it */
+      memFree (cblkptr->cblktab);
+      cblkptr->cblktab = NULL;
+      return (0);
+    }
   }
 
   cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 51f9217..9b4b012 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -158,16 +158,22 @@ const HgraphOrderKpParam * restrict const paraptr)
     }
   }
 
-  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
-  cblkptr->cblknbr = cblknbr;
+  if (cblknbr <= 1) {                             /* If all vertices belong to the same part */
+    memFree (cblkptr->cblktab);                   /* Column block remains a leaf             */
+    cblkptr->cblktab = NULL;
+  }
+  else {
+    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
+    cblkptr->cblknbr = cblknbr;
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_lock (&ordeptr->mutedat);
+    pthread_mutex_lock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
-  ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
-  ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
+    ordeptr->treenbr += cblknbr;                  /* These more number of tree nodes    */
+    ordeptr->cblknbr += cblknbr - 1;              /* These more number of column blocks */
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_unlock (&ordeptr->mutedat);
+    pthread_mutex_unlock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
+  }
 
   peritab = ordeptr->peritab;
   if (grafptr->s.vnumtax == NULL) {               /* If graph is original graph */
-- 
2.43.0


From 14a19440b4dde533d2151bfcd1f6b610f6ee6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 45/55] fix: ordering strategies whose conditions have no else
 branch left vertices unordered

---
 src/libscotch/hdgraph_order_st.c | 8 +++++---
 src/libscotch/hgraph_order_st.c  | 2 ++
 src/libscotch/hmesh_order_st.c   | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..c403038 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -175,8 +175,8 @@ const Strat * restrict const  straptr)            /*+ Graph ordering strategy +*
   StratTest           testdat;
   int                 o;
 
-  if (grafptr->s.vertglbnbr == 0)                 /* Return immediately if nothing to do */
-    return (0);
+  if (grafptr->s.vertglbnbr == 0)                 /* If nothing to do, column block will be an empty leaf */
+    return (hdgraphOrderSi (grafptr, cblkptr));
 
   o = 0;
   switch (straptr->typeval) {
@@ -199,11 +199,13 @@ const Strat * restrict const  straptr)            /*+ Graph ordering strategy +*
         else {                                    /* Else if expression is false                              */
           if (straptr->data.conddat.stratab[1] != NULL)  /* And if there is an else statement                 */
             o = hdgraphOrderSt (grafptr, cblkptr, straptr->data.conddat.stratab[1]); /* Apply second strategy */
+          else                                    /* Else always maintain a consistent ordering             */
+            o = hdgraphOrderSi (grafptr, cblkptr);
         }
       }
       break;
     case STRATNODEEMPTY :
-      hdgraphOrderSi (grafptr, cblkptr);          /* Always maintain a consistent ordering */
+      o = hdgraphOrderSi (grafptr, cblkptr);      /* Always maintain a consistent ordering */
       break;
     case STRATNODESELECT :
       errorPrint ("hdgraphOrderSt: selection operator not available for graph ordering strategies");
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..0cbc393 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -293,6 +293,8 @@ const Strat * restrict const    straptr)          /*+ Graph ordering strategy
         else {                                    /* Else if expression is false             */
           if (straptr->data.conddat.stratab[1] != NULL) /* And if there is an else statement */
             o = hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, straptr->data.conddat.stratab[1]); /* Apply second strategy */
+          else                                    /* Else always maintain a consistent ordering             */
+            o = hgraphOrderSi (grafptr, ordeptr, ordenum, cblkptr);
         }
       }
       break;
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..734d134 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -273,6 +273,8 @@ const Strat * restrict const    straptr)          /*+ Mesh ordering strategy
         else {                                    /* Else if expression is false             */
           if (straptr->data.conddat.stratab[1] != NULL) /* And if there is an else statement */
             o = hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, straptr->data.conddat.stratab[1]); /* Apply second strategy */
+          else                                    /* Else always maintain a consistent ordering             */
+            o = hmeshOrderSi (meshptr, ordeptr, ordenum, cblkptr);
         }
       }
       break;
-- 
2.43.0


From bf3c6d7aca883f3ede35cbd993473a8f0a777840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 46/55] fix: saved strategies had misplaced parentheses in
 conditions and truncated floating-point values

---
 src/libscotch/parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..a0acfa4 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -248,7 +248,7 @@ FILE * const                stream)
               o = (fprintf (stream, INTSTRING, *((INT *) paraofft)) == EOF);
               break;
             case STRATPARAMDOUBLE :               /* Double value */
-              o = (fprintf (stream, "%g", *((double *) paraofft)) == EOF);
+              o = (fprintf (stream, "%.15g", *((double *) paraofft)) == EOF);
               break;
             case STRATPARAMSTRAT :                /* Strategy                      */
               o = stratSave (*((Strat **) paraofft), stream); /* Perform recursion */
@@ -549,7 +549,7 @@ StratTest * const           testptr)
 */
 
 static char                 strattestsaveop[STRATTESTNBR] = "|&!=><+-*%##";
-static char *               strattestsavepa[2][2] = { { "(", ")" }, { "", "" } };
+static char *               strattestsavepa[2][2] = { { "", "" }, { "(", ")" } };
 
 int
 stratTestSave (
@@ -589,16 +589,16 @@ FILE * const                stream)
       fprintf (stream, "%s", strattestsavepa[i][1]);
       if (o == 0) {
         fprintf (stream, "%c", strattestsaveop[testptr->testval]);
-        i = (testptr->data.testtab[1]->testval < testptr->testval) ? 1 : 0;
+        i = (testptr->data.testtab[1]->testval <= testptr->testval) ? 1 : 0; /* Binary operators are left-associative */
         fprintf (stream, "%s", strattestsavepa[i][0]);
-        stratTestSave (testptr->data.testtab[1], stream);
+        o = stratTestSave (testptr->data.testtab[1], stream);
         fprintf (stream, "%s", strattestsavepa[i][1]);
       }
       break;
     case STRATTESTVAL :                           /* Constant value */
       switch (testptr->nodeval) {
         case STRATPARAMDOUBLE :
-          o = (fprintf (stream, "%lf", testptr->data.val.valdbl) == EOF);
+          o = (fprintf (stream, "%.15g", testptr->data.val.valdbl) == EOF);
           break;
         case STRATPARAMINT :
           o = (fprintf (stream, INTSTRING, (INT) testptr->data.val.valint) == EOF);
-- 
2.43.0


From dc84136fbbcb7c151fba0084048fab334adcbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 47/55] fix: strategy parser stored garbage for empty parameter
 values and crashed on errors in nested strategies

---
 src/libscotch/parser_yy.y | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..e16e631 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -471,6 +471,13 @@ PARAMVAL      : VALCASE
               }
               |
               {
+                if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* If parameter is not a strategy */
+                  errorPrint ("stratParserParse: missing value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@$).libenum, (@$).cobenum, (@$).tebeptr);
+                  YYABORT;
+                }
+
                 ($<SAVE>$).strat = penvptr->straptr;
                 ($<SAVE>$).param = penvptr->paraptr;
                 penvptr->straptr = NULL;
@@ -495,6 +502,11 @@ PARAMVAL      : VALCASE
               }
               | error
               {
+                if ((penvptr->paraptr == NULL) || (penvptr->straptr == NULL)) { /* If error occurred within a nested strategy */
+                  errorPrint ("stratParserParse: invalid strategy parameter, line %d, column %d, before \"%s\"",
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                  YYABORT;
+                }
                 errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
                             penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
                             (@1).libenum, (@1).cobenum, (@1).tebeptr);
-- 
2.43.0


From b8e6c182e7ebfb4251722bd0d90a44d6320f24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 48/55] fix: missing defaults of sub-strategies crashed
 strategy saving, mdeg condition variable was read as a double

---
 src/libscotch/bdgraph_bipart_st.c | 2 +-
 src/libscotch/bgraph_bipart_st.c  | 2 +-
 src/libscotch/hdgraph_order_st.c  | 4 ++--
 src/libscotch/hgraph_order_st.c   | 2 +-
 src/libscotch/hmesh_order_st.c    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_st.c b/src/libscotch/bdgraph_bipart_st.c
index 1ec950c..0316edf 100644
--- a/src/libscotch/bdgraph_bipart_st.c
+++ b/src/libscotch/bdgraph_bipart_st.c
@@ -81,7 +81,7 @@ static Bdgraph              bdgraphdummy;     /* Dummy distributed bipartitioned
 static union {
   BdgraphBipartBdParam      param;
   StratNodeMethodData       padding;
-} bdgraphbipartstdefaultbd = { { 3, &stratdummy } };
+} bdgraphbipartstdefaultbd = { { 3, &stratdummy, &stratdummy } };
 
 static union {
   BdgraphBipartDfParam      param;
diff --git a/src/libscotch/bgraph_bipart_st.c b/src/libscotch/bgraph_bipart_st.c
index 2d332a9..5dda1fd 100644
--- a/src/libscotch/bgraph_bipart_st.c
+++ b/src/libscotch/bgraph_bipart_st.c
@@ -92,7 +92,7 @@ static Bgraph               bgraphdummy;      /*+ Dummy active graph for offset
 static union {
   BgraphBipartBdParam       param;
   StratNodeMethodData       padding;
-} bgraphbipartstdefaultbd = { { 3, &stratdummy } };
+} bgraphbipartstdefaultbd = { { 3, &stratdummy, &stratdummy } };
 
 static union {
   BgraphBipartDfParam       param;
diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index c403038..4236657 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -78,7 +78,7 @@ static Hdgraph              hdgraphorderstgraphdummy; /* Dummy graph for offset
 static union {                                    /* Default parameters for nested dissection method */
   HdgraphOrderNdParam       param;
   StratNodeMethodData       padding;
-} hdgraphorderstdefaultnd = { { &stratdummy, &stratdummy, &stratdummy } };
+} hdgraphorderstdefaultnd = { { &stratdummy, &stratdummy, &stratdummy, &stratdummy } };
 
 static union {                                    /* Default parameters for sequential method */
   HdgraphOrderSqParam       param;
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 0cbc393..1fd49ad 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index 734d134..add3a38 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 572fd1063caaec7b8c5b316bb26ea3e70292e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:45 +0000
Subject: [PATCH 49/55] fix: freeing a context of imported threads set the
 affinity of the master thread to an uninitialized mask

---
 src/libscotch/common_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/common_thread.c b/src/libscotch/common_thread.c
index 1134a2c..c8730e1 100644
--- a/src/libscotch/common_thread.c
+++ b/src/libscotch/common_thread.c
@@ -588,6 +588,8 @@ threadContextImport1 (
 ThreadContext * const       contptr,
 const int                   thrdnbr)
 {
+  threadProcessStateSave (contptr);               /* Save state of main thread, as it will be restored on exit */
+
   contptr->thrdnbr = thrdnbr;
   contptr->paraptr = NULL;
   contptr->funcptr = NULL;
-- 
2.43.0


From 236f363e89ee605519320ea5ad8c0f4dc445a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:45 +0000
Subject: [PATCH 50/55] fix: contextOptionSetNum selected the option to process
 by its value

---
 src/libscotch/library_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_context.c b/src/libscotch/library_context.c
index 09b6c79..9939c61 100644
--- a/src/libscotch/library_context.c
+++ b/src/libscotch/library_context.c
@@ -303,7 +303,7 @@ const SCOTCH_Num            optival)
   optitmp = optival;                              /* Set working value */
   o = 0;                                          /* Assume no error   */
 
-  switch (optival) {
+  switch (optinum) {
     case CONTEXTOPTIONNUMRANDOMFIXEDSEED :
       if (optitmp != 0)
         optitmp = 1;                              /* Only two values available */
-- 
2.43.0


From 4e41b615b4cc02e75ed65283e14732632e5fc70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 51/55] fix: deterministic contexts gave results that depend on
 the number of threads

---
 src/libscotch/common_context.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/common_context.c b/src/libscotch/common_context.c
index 4e2837e..bb673bb 100644
--- a/src/libscotch/common_context.c
+++ b/src/libscotch/common_context.c
@@ -280,9 +280,6 @@ void * const                paraptr)              /* Function parameters */
   IntRandContext            randdat;              /* Pseudo-random context for second sub-context */
   const int                 thrdnbr = contextThreadNbr (contptr);
 
-  if (thrdnbr <= 1)                               /* If current context too small or inactive, nothing to do */
-    return (1);
-
   spltdat.conttab[0].thrdptr = &thrdtab[0];
   spltdat.conttab[0].randptr = contptr->randptr;  /* Re-use pseudo-random generator of initial context in sub-context 0 */
   spltdat.conttab[0].valuptr = contptr->valuptr;
@@ -292,12 +289,20 @@ void * const                paraptr)              /* Function parameters */
   spltdat.funcptr = funcptr;
   spltdat.paraptr = paraptr;
 
-  threadContextImport1 (&thrdtab[0], (thrdnbr + 1) / 2); /* Prepare sub-contexts to host threads */
-  threadContextImport1 (&thrdtab[1],  thrdnbr      / 2);
-
   intRandProc (&randdat, intRandVal2 (contptr->randptr)); /* Initialize new generator from existing one */
   intRandSeed (&randdat, intRandVal2 (contptr->randptr));
 
+  if (thrdnbr <= 1) {                             /* If current context too small, run tasks in sequence with same generators */
+    spltdat.conttab[0].thrdptr =
+    spltdat.conttab[1].thrdptr = contptr->thrdptr;
+    funcptr (&spltdat.conttab[0], 0, paraptr);
+    funcptr (&spltdat.conttab[1], 1, paraptr);
+    return (0);
+  }
+
+  threadContextImport1 (&thrdtab[0], (thrdnbr + 1) / 2); /* Prepare sub-contexts to host threads */
+  threadContextImport1 (&thrdtab[1],  thrdnbr      / 2);
+
   threadLaunch (contptr->thrdptr, (ThreadFunc) contextThreadLaunchSplit2, (void *) &spltdat); /* Launch all threads of initial context */
 
   return (0);
-- 
2.43.0


From feba089799023d5e751b358316a02a760b39364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 52/55] fix: SCOTCH_randomVal did not initialize the global
 generator

---
 src/libscotch/library_random.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/library_random.c b/src/libscotch/library_random.c
index b7b0f7e..8445f08 100644
--- a/src/libscotch/library_random.c
+++ b/src/libscotch/library_random.c
@@ -140,5 +140,7 @@ SCOTCH_Num
 SCOTCH_randomVal (
 SCOTCH_Num                  randmax)
 {
+  intRandInit (&intranddat);                      /* In case it was not initialized yet */
+
   return ((SCOTCH_Num) intRandVal (&intranddat, (UINT) randmax));
 }
-- 
2.43.0


From 51228f5f1433cc35846a8728f80c771e2d714cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:03 +0000
Subject: [PATCH 53/55] fix: numbers of domains computed by concurrent
 bipartitionings depended on the schedule

---
 src/libscotch/kgraph_map_rb_part.c | 60 ++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_part.c b/src/libscotch/kgraph_map_rb_part.c
index 5dc7392..2a86c8f 100644
--- a/src/libscotch/kgraph_map_rb_part.c
+++ b/src/libscotch/kgraph_map_rb_part.c
@@ -338,6 +338,63 @@ end3:
   }
 }
 
+/* This routine numbers the domains of the mapping
+** in the order of their first vertices, because
+** the order in which concurrent jobs have created
+** them depends on the scheduling of the threads.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+static
+int
+kgraphMapRbPart4 (
+const Graph * restrict const  grafptr,            /*+ Graph to map, without fixed vertices +*/
+Mapping * restrict const      mappptr)            /*+ Final mapping                        +*/
+{
+  ArchDom * restrict  domntab;                    /* Array of re-ordered domains */
+  Anum * restrict     permtab;                    /* Array of new domain indices */
+  Anum                domnnum;
+  Anum                domnnew;
+  Gnum                vertnum;
+
+  const Anum                  domnnbr = mappptr->domnnbr;
+  const Gnum * restrict const vnumtax = grafptr->vnumtax;
+  Anum * restrict const       parttax = mappptr->parttax;
+
+  if (domnnbr <= 1)                               /* If nothing to do */
+    return (0);
+
+  if (memAllocGroup ((void **) (void *)
+                     &domntab, (size_t) (domnnbr * sizeof (ArchDom)),
+                     &permtab, (size_t) (domnnbr * sizeof (Anum)), NULL) == NULL) {
+    errorPrint ("kgraphMapRbPart4: out of memory");
+    return (1);
+  }
+  memSet (permtab, ~0, domnnbr * sizeof (Anum));  /* Domains not numbered yet */
+
+  for (vertnum = grafptr->baseval, domnnew = 0; vertnum < grafptr->vertnnd; vertnum ++) {
+    Anum * restrict const   partptr = &parttax[(vnumtax == NULL) ? vertnum : vnumtax[vertnum]];
+
+    domnnum = *partptr;
+    if (permtab[domnnum] < 0) {                   /* If first vertex of its domain */
+      domntab[domnnew] = mappptr->domntab[domnnum];
+      permtab[domnnum] = domnnew ++;
+    }
+    *partptr = permtab[domnnum];
+  }
+  for (domnnum = 0; domnnum < domnnbr; domnnum ++) { /* Keep empty domains, if any */
+    if (permtab[domnnum] < 0)
+      domntab[domnnew ++] = mappptr->domntab[domnnum];
+  }
+  memCpy (mappptr->domntab, domntab, domnnbr * sizeof (ArchDom));
+
+  memFree (domntab);                              /* Free group leader */
+
+  return (0);
+}
+
 /* This routine is the entry point for
 ** the degenerated, graph partitioning
 ** version, of the Dual Recursive
@@ -394,5 +451,8 @@ Context * restrict const                contptr)  /*+ Execution context
   pthread_mutex_destroy (&mappptr->mutedat);      /* Destroy local mutex */
 #endif /* SCOTCH_PTHREAD */
 
+  if (o == 0)
+    o = kgraphMapRbPart4 (grafptr, mappptr);      /* Make domain numbers independent from scheduling */
+
   return (o);
 }
-- 
2.43.0


From d7c58b0474dd2eb76b5337c0d0e1309bab97733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 54/55] fix: number of threads changed the pseudo-random
 sequence when folding with duplication

---
 src/libscotch/dgraph_fold_dup.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_fold_dup.c b/src/libscotch/dgraph_fold_dup.c
index 773795f..cfa1e5c 100644
--- a/src/libscotch/dgraph_fold_dup.c
+++ b/src/libscotch/dgraph_fold_dup.c
@@ -107,6 +107,10 @@ Context * restrict const      contptr)            /*+ Context
 {
 #ifdef SCOTCH_PTHREAD_MPI
   Dgraph              orggrafdat;
+#ifndef DGRAPHFOLDDUPNOTHREAD
+  Context             contdat;                    /* Context to split, with its own copy of the generator */
+  IntRandContext      randdat;
+#endif /* DGRAPHFOLDDUPNOTHREAD */
   int                 thrdprolvl;
   int                 thrdglbmin;
 #endif /* SCOTCH_PTHREAD_MPI */
@@ -163,7 +167,10 @@ Context * restrict const      contptr)            /*+ Context
       }
 
 #ifndef DGRAPHFOLDDUPNOTHREAD
-      if (contextThreadLaunchSplit (contptr, (ContextSplitFunc) dgraphFoldDup2, &fldspltdat) == 0) /* If context could be split to run concurrently */
+      contdat = *contptr;                         /* Splitting must not advance generator of context, since sequential run does not */
+      randdat = *contptr->randptr;
+      contdat.randptr = &randdat;
+      if (contextThreadLaunchSplit (&contdat, (ContextSplitFunc) dgraphFoldDup2, &fldspltdat) == 0) /* If context could be split to run concurrently */
         thrdval = 1;                                /* No need to go through sequantial run */
 #endif /* DGRAPHFOLDDUPNOTHREAD */
     }
-- 
2.43.0


From 4208eee7faf73d90c12abe17e942a76acfc9333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:08 +0000
Subject: [PATCH 55/55] fix: mesh separation ended the process when its hash
 tables were full

---
 src/libscotch/vmesh_separate_fm.c | 170 +++++++++++-------------------
 1 file changed, 61 insertions(+), 109 deletions(-)

diff --git a/src/libscotch/vmesh_separate_fm.c b/src/libscotch/vmesh_separate_fm.c
index 60f6447..532a5f4 100644
--- a/src/libscotch/vmesh_separate_fm.c
+++ b/src/libscotch/vmesh_separate_fm.c
@@ -97,140 +97,91 @@ VmeshSeparateFmElement **                 lockptr, /*+ Pointer to list of locked
 VmeshSeparateFmElement **                 sepaptr, /*+ Pointer to list of separator elements, if any +*/
 const Gnum                                hashold) /*+ Maximum number of vertices in hash structures +*/
 {
-  Gnum                              hashsiz;      /* Size of hash table                   */
-  Gnum                              hashmsk;      /* Mask for access to hash table        */
-  Gnum                              hashmax;      /* Maximum number of objects in tables  */
-  VmeshSeparateFmSave * restrict    movetab;      /* Pointer to move array                */
-  VmeshSeparateFmElement * restrict helmtab;      /* Element hash table                   */
-  VmeshSeparateFmNode *             hnodtab;      /* Node hash table                      */
-  size_t                            addradj;      /* Address adjustment                   */
-  Gnum                              helmold;
-  VmeshSeparateFmNode *             hnodtld;
-  Gnum                              hnodold;
-  VmeshSeparateFmSave * restrict    savetab;
+  Gnum                              hashsiz;      /* Size of hash table                    */
+  Gnum                              hashmsk;      /* Mask for access to hash table         */
+  Gnum                              hashmax;      /* Maximum number of objects in tables   */
+  VmeshSeparateFmElement *          helmtab;      /* New element hash table                */
+  VmeshSeparateFmElement *          helmotab;     /* Old element hash table                */
+  Gnum                              helmonum;     /* Index in old element hash table       */
+  VmeshSeparateFmNode *             hnodtab;      /* New node hash table                   */
+  VmeshSeparateFmNode *             hnodotab;     /* Old node hash table                   */
+  Gnum                              hnodonum;     /* Index in old node hash table          */
+  VmeshSeparateFmSave *             movetab;      /* New move array                        */
+  VmeshSeparateFmSave *             moveotab;     /* Old move array                        */
   Gnum                              savenum;
 
   hashmax = 2 * hashold;                          /* Set new number */
   hashsiz = 4 * hashmax;                          /* Set new size   */
   hashmsk = hashsiz - 1;
 
-  savetab = *saveptr;                             /* Point to old move array                  */
-  for (savenum = 0; savenum < savenbr; savenum ++) { /* Turn hash indices into vertex indices */
-    Gnum                hertnum;
-
-    hertnum = savetab[savenum].hertnum;
-    savetab[savenum].hertnum = (hertnum >= 0) ? (*helmptr)[hertnum].velmnum : (-1 - (*hnodptr)[-1 - hertnum].vnodnum);
-  }
-
-  if (memReallocGroup ((void *) *helmptr,         /* Get old group leader */
-        &helmtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmElement)),
-        &hnodtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmNode)),
-        &movetab, (size_t) (hashmax * sizeof (VmeshSeparateFmSave)), NULL) == NULL) {
+  if (memAllocGroup ((void **) (void *)
+                     &helmtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmElement)),
+                     &hnodtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmNode)),
+                     &movetab, (size_t) (2 * hashmax * sizeof (VmeshSeparateFmSave)), NULL) == NULL) {
     errorPrint ("vmeshSeparateFmResize: cannot resize arrays");
     return (1);                                   /* If cannot reallocate */
   }
-#ifdef SCOTCH_DEBUG_VMESH2
-  if (((byte *) hnodtab - (byte *) helmtab) < ((byte *) (*saveptr) - (byte *) (*helmptr))) { /* If cannot simply copy node hash array */
-    errorPrint ("vmeshSeparateFmResize: internal error (1)");
-    return (1);
-  }
-#endif /* SCOTCH_DEBUG_VMESH2 */
+  helmotab = *helmptr;
+  hnodotab = *hnodptr;
+  moveotab = *saveptr;
 
-  memMov (movetab, ((byte *) helmtab) + ((byte *) *saveptr - (byte *) *helmptr), savenbr * sizeof (VmeshSeparateFmSave)); /* Old array may have moved but arrays cannot overlap */
+  memSet (helmtab, ~0, (byte *) &hnodtab[hashsiz] - (byte *) helmtab); /* Set all vertex numbers to ~0 */
 
-  memSet (hnodtab, ~0, hashsiz * sizeof (VmeshSeparateFmNode)); /* Cannot overlap */
-  hnodtld = (VmeshSeparateFmNode *) ((byte *) helmtab) + ((byte *) *hnodptr - (byte *) *helmptr); /* Point to old node array */
-  for (hnodold = 0; hnodold < (hashold * 4); hnodold ++) { /* For all old allocated nodes */
-    Gnum                              hnodnew;
+  for (hnodonum = 0; hnodonum < (hashold * 4); hnodonum ++) { /* For all old node slots */
+    Gnum                hnodnum;
 
-    if (hnodtld[hnodold].vnodnum == ~0)           /* If unallocated slot */
+    if (hnodotab[hnodonum].vnodnum == ~0)         /* If unallocated slot */
       continue;                                   /* Skip to next slot   */
 
-    for (hnodnew = (hnodtld[hnodold].vnodnum * VMESHSEPAFMHASHPRIME) & hashmsk;
-         hnodtab[hnodnew].vnodnum != ~0; hnodnew = (hnodnew + 1) & hashmsk) ;
-    hnodtab[hnodnew] = hnodtld[hnodold];          /* Move node data to new position */
+    for (hnodnum = (hnodotab[hnodonum].vnodnum * VMESHSEPAFMHASHPRIME) & hashmsk;
+         hnodtab[hnodnum].vnodnum != ~0; hnodnum = (hnodnum + 1) & hashmsk) ;
+    hnodtab[hnodnum] = hnodotab[hnodonum];        /* Copy node data to new position          */
+    hnodotab[hnodonum].vnodnum = hnodnum;         /* TRICK: keep new hash index in old table */
   }
 
-/* TODO */
-  fprintf (stderr, "hertnum no longer valid !\n");
-  exit    (1);
-
-  addradj = (byte *) helmtab - (byte *) (*helmptr); /* Compute address difference */
-
   gainTablFree (tablptr);                         /* Reset gain table */
-  memSet (helmtab + hashold, ~0, hashold * 2 * sizeof (VmeshSeparateFmElement));
-  for (helmold = 0; helmold < (hashold * 4); helmold ++) { /* For all old allocated elements */
-    Gnum                helmnew;
+  for (helmonum = 0; helmonum < (hashold * 4); helmonum ++) { /* For all old element slots */
+    Gnum                helmnum;
 
-    if (helmtab[helmold].velmnum == ~0)           /* If unallocated slot */
+    if (helmotab[helmonum].velmnum == ~0)         /* If unallocated slot */
       continue;                                   /* Skip to next slot   */
 
-    for (helmnew = (helmtab[helmold].velmnum * VMESHSEPAFMHASHPRIME) & hashmsk; ; helmnew = (helmnew + 1) & hashmsk) {
-      if (helmtab[helmnew].velmnum == ~0) {
-        helmtab[helmnew].velmnum     = helmtab[helmold].velmnum;
-        helmtab[helmnew].vertpart    = helmtab[helmold].vertpart;
-        helmtab[helmnew].ncmpcut2    = helmtab[helmold].ncmpcut2;
-        helmtab[helmnew].ncmpgain2   = helmtab[helmold].ncmpgain2;
-        helmtab[helmnew].ncmpgaindlt = helmtab[helmold].ncmpgaindlt;
-        helmtab[helmnew].mswpnum     = helmtab[helmold].mswpnum;
-        helmtab[helmold].velmnum     = ~0;        /* Free old slot      */
-        helmtab[helmold].mswpnum     = ~0;        /* Reset sweep number */
-        break;
-      }
-      if (helmtab[helmnew].velmnum != helmtab[helmold].velmnum) /* If element not found */
-        continue;                                 /* Go on searching                    */
-    }
-    if (helmtab[helmold].gainlink.next >= VMESHSEPAFMSTATELINK) /* If element was linked               */
-      gainTablAdd (tablptr, (GainLink *) &helmtab[helmnew], helmtab[helmnew].ncmpgain2); /* Re-link it */
-    else {                                        /* Element may be chained in some list               */
-      helmtab[helmnew].gainlink.next = helmtab[helmold].gainlink.next; /* Save it                      */
-      helmtab[helmnew].gainlink.prev = (GainLink *) ((byte *) helmtab[helmold].gainlink.prev + addradj);
-    }
+    for (helmnum = (helmotab[helmonum].velmnum * VMESHSEPAFMHASHPRIME) & hashmsk;
+         helmtab[helmnum].velmnum != ~0; helmnum = (helmnum + 1) & hashmsk) ;
+    helmtab[helmnum] = helmotab[helmonum];        /* Copy element data to new position       */
+    helmotab[helmonum].velmnum = helmnum;         /* TRICK: keep new hash index in old table */
+    if (helmtab[helmnum].gainlink.next >= VMESHSEPAFMSTATELINK) /* If element was linked     */
+      gainTablAdd (tablptr, &helmtab[helmnum].gainlink, helmtab[helmnum].ncmpgain2); /* Re-link it */
   }
 
-  if (*lockptr != NULL)
-    *lockptr = (VmeshSeparateFmElement *) ((byte *) (*lockptr) + addradj);
-  if (sepaptr != NULL) {
-    if (*sepaptr != NULL)
-      *sepaptr = (VmeshSeparateFmElement *) ((byte *) (*sepaptr) + addradj);
+  for (helmonum = 0; helmonum < (hashold * 4); helmonum ++) { /* Update chaining of locked and separator elements */
+    if ((helmotab[helmonum].velmnum       != ~0) &&
+        (helmotab[helmonum].gainlink.next == VMESHSEPAFMSTATEUSED)) {
+      const VmeshSeparateFmElement *  velmptr;
+
+      velmptr = (VmeshSeparateFmElement *) helmotab[helmonum].gainlink.prev;
+      helmtab[helmotab[helmonum].velmnum].gainlink.prev = (velmptr == NULL) ? NULL : (GainLink *) (helmtab + velmptr->velmnum);
+    }
   }
+  if (*lockptr != NULL)
+    *lockptr = helmtab + (*lockptr)->velmnum;
+  if ((sepaptr != NULL) && (*sepaptr != NULL))
+    *sepaptr = helmtab + (*sepaptr)->velmnum;
 
-  for (savenum = 0; savenum < savenbr; savenum ++) { /* Turn vertex indices back into hash indices */
-    Gnum                vertnum;
+  for (savenum = 0; savenum < savenbr; savenum ++) { /* Copy move array with new hash indices */
+    Gnum                hertnum;
 
-    vertnum = movetab[savenum].hertnum;           /* Read vertex index */
-    if (vertnum >= 0) {                           /* If element vertex */
-      Gnum                helmnum;
+    hertnum = moveotab[savenum].hertnum;
+    movetab[savenum] = moveotab[savenum];
+    movetab[savenum].hertnum = (hertnum >= 0) ? helmotab[hertnum].velmnum
+                                              : (-1 - hnodotab[-1 - hertnum].vnodnum);
+  }
 
-      for (helmnum = (vertnum * VMESHSEPAFMHASHPRIME) & hashmsk; ; helmnum = (helmnum + 1) & hashmsk) {
-#ifdef SCOTCH_DEBUG_VMESH2
-        if (helmtab[helmnum].velmnum == ~0) {     /* We should always find the elements */
-          errorPrint ("vmeshSeparateFmResize: internal error (2)");
-          return (1);
-        }
-#endif /* SCOTCH_DEBUG_VMESH2 */
-        if (helmtab[helmnum].velmnum == vertnum)  /* If element found */
-          break;
-      }
-      movetab[savenum].hertnum = helmnum;         /* Save element hash index */
-    }
-    else {                                        /* If node vertex */
-      Gnum                hnodnum;
+  memFree (helmotab);                             /* Free old group leader */
 
-      vertnum = -1 - vertnum;
-      for (hnodnum = (vertnum * VMESHSEPAFMHASHPRIME) & hashmsk; ; hnodnum = (hnodnum + 1) & hashmsk) {
-#ifdef SCOTCH_DEBUG_VMESH2
-        if (hnodtab[hnodnum].vnodnum == ~0) {     /* We should always find the nodes */
-          errorPrint ("vmeshSeparateFmResize: internal error (3)");
-          return (1);
-        }
-        if (hnodtab[hnodnum].vnodnum == vertnum)  /* If element found */
-          break;
-#endif /* SCOTCH_DEBUG_VMESH2 */
-      }
-      movetab[savenum].hertnum = -1 - hnodnum;    /* Save node hash index */
-    }
-  }
+  *helmptr = helmtab;
+  *hnodptr = hnodtab;
+  *saveptr = movetab;
 
   return (0);
 }
@@ -367,7 +318,7 @@ const VmeshSeparateFmParam * restrict const paraptr) /*+ Method parameters    +*
       (memAllocGroup ((void **) (void *)
                       &helmtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmElement)),
                       &hnodtab, (size_t) (hashsiz * sizeof (VmeshSeparateFmNode)),
-                      &movetab, (size_t) (hashmax * sizeof (VmeshSeparateFmSave)), NULL) == NULL)) {
+                      &movetab, (size_t) (2 * hashmax * sizeof (VmeshSeparateFmSave)), NULL) == NULL)) {
     if (tablptr != NULL) {
       errorPrint   ("vmeshSeparateFm: out of memory (1)");
       gainTablExit (tablptr);
@@ -455,7 +406,8 @@ const VmeshSeparateFmParam * restrict const paraptr) /*+ Method parameters    +*
             for (helmnum = (velmnum * VMESHSEPAFMHASHPRIME) & hashmsk; /* Re-compute position in table */
                  helmtab[helmnum].velmnum != ~0; helmnum = (helmnum + 1) & hashmsk) ;
           }
-          helmtab[helmnum].gainlink.prev = (GainLink *) lockptr; /* Link it */
+          helmtab[helmnum].gainlink.next = VMESHSEPAFMSTATEUSED; /* Not in gain table */
+          helmtab[helmnum].gainlink.prev = (GainLink *) lockptr; /* Link it           */
           lockptr = &helmtab[helmnum];
           helmtab[helmnum].velmnum  = velmnum;    /* Insert it */
           helmtab[helmnum].vertpart = meshptr->parttax[velmnum] & 1; /* Separator elements to part 0 */
-- 
2.43.0

