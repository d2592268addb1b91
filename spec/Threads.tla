------------------------------- MODULE Threads -------------------------------
(* Execution contexts: the parallel tasks that are launched on the threads of *)
(* a context, and the primitives these tasks use.  One event is one action of *)
(* one thread; a history is an interleaving.  A context c is the object       *)
(* "t" \o c; its fields are                                                   *)
(*   n    number of threads          ph   "new" "idle" "run" "split" "gone"   *)
(*   num  tasks launched so far      ent  threads inside the current task     *)
(*   lef  threads that have left it  pc   primitives completed, per thread    *)
(*   ins  thread is in a primitive   ops  primitives entered: kind, root,     *)
(*                                        contributions, serial thread        *)
(*   sub  sub-contexts under way     rel  threads given back to the user      *)
EXTENDS Strat

ThrNew(n, pool) == [k |-> "thr", n |-> n, pool |-> pool, ph |-> "new", num |-> 0, ent |-> {}, lef |-> {},
                    pc |-> <<>>, ins |-> {}, ops |-> <<>>, sub |-> 0, subs |-> {}, rel |-> {}]
Ctx(ev) == "t" \o ToString(ev.c)
SubCtx(ev, h) == "t" \o ToString(10 * ev.c + 1 + h)
Team(x) == 0 .. x.n - 1
NoOp == [kind |-> "", root |-> 0, v |-> <<>>, at |-> {}, done |-> {}, serial |-> 0]

\* the sum of what threads ts have contributed
Contrib(op, ts) == LET RECURSIVE S(_)
                       S(q) == IF q = {} THEN 0 ELSE LET t == CHOOSE u \in q : TRUE IN op.v[t] + S(q \ {t})
                   IN  S(ts)

InKinds  == "BarIn" :> "bar" @@ "RedIn" :> "red" @@ "ScanIn" :> "scan"
OutKinds == "BarOut" :> "bar" @@ "RedOut" :> "red" @@ "ScanOut" :> "scan"

EnterFault(x, ev) ==
   LET i == x.pc[ev.t] + 1 IN
   CASE x.ph # "run" \/ ev.t \notin x.ent \/ ev.t \in x.lef \/ ev.t \in x.ins -> "harness: primitive outside of a task"
     [] i <= Len(x.ops) /\ x.ops[i].kind # InKinds[ev.op] -> "harness: threads disagree"
     [] OTHER -> OK

LeaveFault(x, ev) ==
   LET op == x.ops[x.pc[ev.t] + 1] IN
   CASE ev.t \notin x.ins -> "harness: not in a primitive"
     [] op.at # Team(x) -> "thread passed before all threads arrived"
     [] ev.op = "BarOut" /\ ev.a = 1 /\ op.serial = 1 -> "two serial threads in a barrier"
     [] ev.op = "BarOut" /\ ev.a = 0 /\ op.serial = 0 /\ Cardinality(op.done) = x.n - 1 -> "no serial thread in a barrier"
     [] ev.op = "RedOut" /\ ev.t = op.root /\ ev.a # Contrib(op, Team(x)) -> "reduction result"
     [] ev.op = "ScanOut" /\ ev.a # Contrib(op, 0 .. ev.t) -> "scan result"
     [] OTHER -> OK

ThreadOpNames == {"CtxInit", "CtxReady", "Launch", "Enter", "BarIn", "BarOut", "RedIn", "RedOut", "ScanIn", "ScanOut", "Leave",
                  "LaunchRet", "CtxExit", "CtxExited", "Released", "CtxEnded", "Split", "Sub", "SubEnd", "SplitRet"}

ThreadContract(ev, o) ==
   IF ev.op = "CtxInit" THEN OK
   ELSE IF ev.op = "Sub"
   THEN LET y == o["t" \o ToString(ev.c \div 10)] IN
        CASE y.ph # "split" -> "sub-context started outside of a split"
          [] ev.b \in y.subs -> "part of a split executed twice"
          [] ev.a # (IF ev.b = 0 THEN (y.n + 1) \div 2 ELSE y.n \div 2) -> "number of threads in a sub-context"
          [] OTHER -> OK
   ELSE
   LET x == o[Ctx(ev)] IN
   CASE ev.op = "CtxReady"  -> IF ev.b # 0 THEN "context cannot be created" ELSE IF ev.a # x.n THEN "number of threads" ELSE OK
     [] ev.op = "Launch"    -> IF x.ph # "idle" THEN "harness: context is busy" ELSE OK
     [] ev.op = "Enter"     -> (CASE x.ph # "run" -> "task executed when not launched"
                                  [] ev.t \notin Team(x) -> "thread number out of range"
                                  [] ev.t \in x.ent -> "task executed twice by the same thread"
                                  [] ev.a # x.num -> "wrong task executed"
                                  [] ev.b # x.n -> "number of threads seen by a task"
                                  [] OTHER -> OK)
     [] ev.op \in DOMAIN InKinds  -> EnterFault(x, ev)
     [] ev.op \in DOMAIN OutKinds -> LeaveFault(x, ev)
     [] ev.op = "Leave"     -> IF ev.t \notin x.ent \/ ev.a # x.num THEN "task left when not launched" ELSE OK
     [] ev.op = "LaunchRet" -> IF x.lef # Team(x) THEN "launch returned before all threads completed the task" ELSE OK
     [] ev.op = "Split"     -> IF x.ph # "idle" THEN "harness: context is busy" ELSE OK
     [] ev.op = "SubEnd"    -> IF x.ph # "idle" THEN "harness: sub-context is busy" ELSE OK
     [] ev.op = "SplitRet"  -> (CASE ev.a # 0 -> "context cannot be split"
                                  [] x.subs # {0, 1} -> "part of a split not executed"
                                  [] x.sub # 0 -> "split returned before both parts completed"
                                  [] OTHER -> OK)
     [] ev.op = "CtxExit"   -> IF x.ph # "idle" THEN "harness: context is busy" ELSE OK
     [] ev.op = "CtxExited" -> IF ev.a # 1 THEN "affinity of the master thread not restored" ELSE OK
     [] ev.op = "Released"  -> (CASE x.pool # 1 \/ ev.t = 0 -> "thread returned that was not imported"
                                  [] x.ph # "gone" -> "imported thread returned before the context was freed"
                                  [] ev.t \in x.rel -> "imported thread returned twice"
                                  [] ev.a # 0 -> "import failed"
                                  [] OTHER -> OK)
     [] OTHER               -> IF ev.a # 0 THEN "threads remain after the context was freed"     \* CtxEnded
                               ELSE IF x.pool = 1 /\ x.rel # Team(x) \ {0} THEN "imported thread never returned" ELSE OK

ThreadEffect(ev, o) ==
   LET h == Ctx(ev)
       Set(hh, y) == [z \in DOMAIN o \cup {hh} |-> IF z = hh THEN y ELSE o[z]]
   IN
   IF ev.op = "CtxInit" THEN Set(h, ThrNew(ev.a, ev.b))
   ELSE IF ev.op = "Sub"
   THEN LET p == "t" \o ToString(ev.c \div 10)
            o2 == [z \in DOMAIN o \cup {h} |-> IF z = h THEN [ThrNew(ev.a, 0) EXCEPT !.ph = "idle"] ELSE o[z]]
        IN  [o2 EXCEPT ![p].subs = @ \cup {ev.b}, ![p].sub = @ + 1]
   ELSE
   LET x == o[h] IN
   CASE ev.op = "CtxReady"  -> Set(h, [x EXCEPT !.ph = "idle"])
     [] ev.op = "Launch"    -> Set(h, [x EXCEPT !.ph = "run", !.num = ev.a, !.ent = {}, !.lef = {}, !.ins = {}, !.ops = <<>>,
                                                !.pc = [t \in Team(x) |-> 0]])
     [] ev.op = "Enter"     -> Set(h, [x EXCEPT !.ent = @ \cup {ev.t}])
     [] ev.op \in DOMAIN InKinds ->
          LET i == x.pc[ev.t] + 1
              p == IF i <= Len(x.ops) THEN x.ops[i] ELSE [NoOp EXCEPT !.kind = InKinds[ev.op], !.root = ev.b]
              q == [p EXCEPT !.at = @ \cup {ev.t}, !.v = (ev.t :> ev.a) @@ @]
          IN  Set(h, [x EXCEPT !.ins = @ \cup {ev.t}, !.ops = IF i <= Len(@) THEN [@ EXCEPT ![i] = q] ELSE Append(@, q)])
     [] ev.op \in DOMAIN OutKinds ->
          LET i == x.pc[ev.t] + 1
              s == IF ev.op = "BarOut" THEN ev.a ELSE 0
          IN  Set(h, [x EXCEPT !.ins = @ \ {ev.t}, !.pc = [@ EXCEPT ![ev.t] = i],
                               !.ops = [@ EXCEPT ![i].done = @ \cup {ev.t}, ![i].serial = IF @ = 1 THEN 1 ELSE s]])
     [] ev.op = "Leave"     -> Set(h, [x EXCEPT !.lef = @ \cup {ev.t}])
     [] ev.op = "LaunchRet" -> Set(h, [x EXCEPT !.ph = "idle", !.ent = {}])
     [] ev.op = "Split"     -> Set(h, [x EXCEPT !.ph = "split", !.sub = 0, !.subs = {}])
     [] ev.op = "SubEnd"    -> LET p == "t" \o ToString(ev.c \div 10) IN
                               [z \in DOMAIN o \ {h} |-> IF z = p THEN [o[p] EXCEPT !.sub = @ - 1] ELSE o[z]]
     [] ev.op = "SplitRet"  -> Set(h, [x EXCEPT !.ph = "idle"])
     [] ev.op = "CtxExit"   -> Set(h, [x EXCEPT !.ph = "gone"])
     [] ev.op = "Released"  -> Set(h, [x EXCEPT !.rel = @ \cup {ev.t}])
     [] OTHER               -> o
==============================================================================
