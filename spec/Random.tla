-------------------------------- MODULE Random --------------------------------
(* Reproducibility: pseudo-random generators, and the results that depend on   *)
(* them.  The position of a generator is described by what has been done with  *)
(* it since it was last set to a known position (field at): a seed and an      *)
(* instance number, followed by all its uses.  Whatever the values are, the    *)
(* same use of a generator at the same position must give the same result,     *)
(* in any process of the same program; memo remembers those seen so far.       *)
(* Generator 0 is the global one; context c owns generator c once cloned.      *)
EXTENDS Threads

Gen0 == [seed |-> "init", proc |-> "0", at |-> ""]
RStart(g) == "S" \o g.seed \o "P" \o g.proc
\* a generator which has not been used is set when it is first needed
RPos(g) == IF g.at = "" THEN [g EXCEPT !.at = RStart(g)] ELSE g

Rnd0 == [k |-> "rnd", gens |-> (0 :> Gen0), ctx |-> <<>>, files |-> <<>>, memo |-> <<>>, first |-> {}, prev |-> -1, num |-> 0]
With(f, a, b) == (a :> b) @@ f

\* generator used by context c (0: no context)
GenOf(x, c) == IF c \in DOMAIN x.gens THEN c ELSE 0
RAt(x, c) == RPos(x.gens[GenOf(x, c)]).at
RMove(x, c, s) == LET i == GenOf(x, c) IN [x EXCEPT !.gens = With(@, i, [RPos(@[i]) EXCEPT !.at = @ \o s]), !.num = @ + 1]
RSet(x, c, g) == [x EXCEPT !.gens = With(@, GenOf(x, c), g), !.num = @ + 1]
Lost(x) == "?" \o ToString(x.num)

Known(x, key) == key \in DOMAIN x.memo
Differs(x, key, val) == Known(x, key) /\ x.memo[key] # val
RNote(x, key, val) == [x EXCEPT !.memo = With(@, key, val)]

\* Value keys
ValKey(x, ev)  == RAt(x, 0) \o "|v" \o ToString(ev.max)
SaveKey(x)     == RAt(x, 0) \o "|save" \o RStart(x.gens[0])
\* A call is reproducible if it is sequential, or if determinism is requested: then the number of threads does not matter
Repro(x, ev)   == ev.c = 0 \/ x.ctx[ev.c].n = 1 \/ x.ctx[ev.c].det = 1
CallName(x, ev) == ev.what \o (IF ev.c = 0 THEN "/0" ELSE "/" \o ToString(x.ctx[ev.c].det))
CallKey(x, ev) == RAt(x, ev.c) \o "|" \o CallName(x, ev)

\* Wide values drawn first after seeding distinguish seeds and instances (seed s and s + 1 are only distinguished for odd s, instance likewise)
Wide == 2147483647
Odd(s) == s % 2 = 1
FreshPos(x) == LET g == RPos(x.gens[0]) IN g.at = RStart(g)
FirstTag(x) == LET g == x.gens[0] IN <<g.seed, g.proc>>

\* Settings strings: letters separated by commas and blanks
Blank(ch) == ch \in {" ", "\t", "\n"}
RECURSIVE SkipB(_, _)
SkipB(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN SkipB(s, i + 1) ELSE i
RECURSIVE OptParse(_, _, _)
OptParse(s, i, cf) ==                              \* <<accepted, settings>>
   IF i > Len(s) THEN <<TRUE, cf>>
   ELSE LET j == SkipB(s, i) IN
        IF j > Len(s) \/ s[j] \notin {"d", "u", "f", "r"} THEN <<FALSE, cf>>
        ELSE LET c2 == CASE s[j] = "d" -> [cf EXCEPT !.det = 1, !.fix = 1]
                         [] s[j] = "u" -> [cf EXCEPT !.det = 0]
                         [] s[j] = "f" -> [cf EXCEPT !.fix = 1]
                         [] OTHER      -> [cf EXCEPT !.fix = 0]
                 k  == SkipB(s, j + 1)
             IN  IF k > Len(s) THEN <<TRUE, c2>>
                 ELSE OptParse(s, IF s[k] = "," THEN k + 1 ELSE k, c2)

RndOpNames == {"RndProcess", "RndSeed", "RndReset", "RndProc", "RndVal", "RndSave", "RndLoad", "RndCtx", "RndExit", "RndClone",
               "RndSet", "RndGet", "RndParse", "RndCall", "RndDCall"}

RndContract(ev, o) ==
   LET x == IF "rnd" \in DOMAIN o THEN o.rnd ELSE Rnd0 IN
   CASE ev.op = "RndVal"  ->
          (CASE ev.val < 0 \/ ev.val >= ev.max -> "value out of range"
             [] Differs(x, ValKey(x, ev), ev.val) -> "same position of the generator, different value"
             [] ev.max = Wide /\ ev.val = x.prev -> "generator does not move"
             [] ev.max = Wide /\ ev.odd = 1 /\ FreshPos(x)
                /\ \E f \in x.first : f.val = ev.val /\ (f.seed = x.gens[0].seed) # (f.proc = x.gens[0].proc) -> "seed or instance number ignored"
             [] OTHER -> OK)
     [] ev.op = "RndSave" -> IF ev.ret # 0 THEN (IF x.gens[0].at = "" THEN OK ELSE "state of the generator not saved")
                             ELSE IF Differs(x, SaveKey(x), ev.txt) THEN "same position of the generator, different state saved" ELSE OK
     [] ev.op = "RndLoad" -> IF (ev.ret = 0) # (ev.bad = 0) THEN (IF ev.bad = 0 THEN "saved state refused" ELSE "malformed state accepted") ELSE OK
     [] ev.op \in {"RndCtx", "RndClone"} -> IF ev.ret # 0 THEN "call failed" ELSE OK
     [] ev.op = "RndSet"  -> IF (ev.ret = 0) # (ev.num \in {0, 1}) THEN "return value" ELSE OK
     [] ev.op = "RndGet"  -> IF (ev.ret = 0) # (ev.num \in {0, 1}) THEN "return value"
                             ELSE IF ev.ret = 0 /\ ev.val # (IF ev.num = 0 THEN x.ctx[ev.c].det ELSE x.ctx[ev.c].fix) THEN "option value" ELSE OK
     [] ev.op = "RndParse" -> IF (ev.ret = 0) # OptParse(ev.s, 1, x.ctx[ev.c])[1] THEN "return value" ELSE OK
     [] ev.op = "RndCall" -> IF Repro(x, ev) /\ Differs(x, CallKey(x, ev), ev.res) THEN "same call, same position of the generator, different result" ELSE OK
     \* distributed calls: determinism is only promised on demand, for the same number of processes and whatever the order of messages
     [] ev.op = "RndDCall" -> IF x.ctx[ev.c].det = 1 /\ Differs(x, CallKey(x, ev), [p \in DOMAIN ev.locs |-> ev.locs[p].res]) THEN "same call, same position of the generator, different result" ELSE OK
     [] OTHER -> OK

RndEffect1(ev, x) ==
   LET g == x.gens[GenOf(x, ev.c)] IN
   CASE ev.op = "RndProcess" -> [x EXCEPT !.gens = (0 :> Gen0), !.ctx = <<>>, !.prev = -1]
     [] ev.op = "RndSeed"  -> LET y == [g EXCEPT !.seed = ToString(ev.val)] IN [RSet(x, ev.c, [y EXCEPT !.at = RStart(y)]) EXCEPT !.prev = -1]
     [] ev.op = "RndReset" -> [RSet(x, ev.c, [g EXCEPT !.at = RStart(g)]) EXCEPT !.prev = -1]
     [] ev.op = "RndProc"  -> RSet(x, 0, [g EXCEPT !.proc = ToString(ev.val)])
     [] ev.op = "RndVal"   -> LET y == RMove(RNote(x, ValKey(x, ev), ev.val), 0, "v" \o ToString(ev.max)) IN
                              [y EXCEPT !.prev = IF ev.max = Wide THEN ev.val ELSE -1,
                                        !.first = IF ev.max = Wide /\ ev.odd = 1 /\ FreshPos(x) THEN @ \cup {[seed |-> g.seed, proc |-> g.proc, val |-> ev.val]} ELSE @]
     [] ev.op = "RndSave" /\ ev.ret # 0 -> x            \* a generator that was never set may not be saved
     [] ev.op = "RndSave"  -> [RSet(RNote(x, SaveKey(x), ev.txt), 0, RPos(g)) EXCEPT !.files = With(@, ev.f, RPos(g))]
     [] ev.op = "RndLoad"  -> [RSet(x, 0, IF ev.ret = 0 THEN x.files[ev.f] ELSE [seed |-> Lost(x), proc |-> Lost(x), at |-> Lost(x)]) EXCEPT !.prev = -1]
     [] ev.op = "RndCtx"   -> [RSet(x, 0, RPos(x.gens[0])) EXCEPT !.ctx = With(@, ev.c, [n |-> ev.n, det |-> 0, fix |-> 1])]
     [] ev.op = "RndExit"  -> [x EXCEPT !.gens = [i \in DOMAIN @ \ {ev.c} |-> @[i]], !.ctx = [i \in DOMAIN @ \ {ev.c} |-> @[i]]]
     [] ev.op = "RndClone" -> [x EXCEPT !.gens = With(@, ev.c, RPos(@[0])), !.num = @ + 1]
     [] ev.op = "RndSet"   -> IF ev.ret # 0 THEN x
                              ELSE IF ev.num = 0 THEN [x EXCEPT !.ctx[ev.c].det = IF ev.val # 0 THEN 1 ELSE 0, !.ctx[ev.c].fix = IF ev.val # 0 THEN 1 ELSE @]
                              ELSE [x EXCEPT !.ctx[ev.c].fix = IF ev.val # 0 THEN 1 ELSE 0]
     [] ev.op = "RndParse" -> [x EXCEPT !.ctx = With(@, ev.c, OptParse(ev.s, 1, x.ctx[ev.c])[2])]
     [] ev.op = "RndCall"  -> IF Repro(x, ev) THEN RMove(RNote(x, CallKey(x, ev), ev.res), ev.c, ";" \o CallName(x, ev))
                              ELSE RMove(x, ev.c, Lost(x))
     [] ev.op = "RndDCall" -> IF x.ctx[ev.c].det = 1 THEN RMove(RNote(x, CallKey(x, ev), [p \in DOMAIN ev.locs |-> ev.locs[p].res]), ev.c, ";" \o CallName(x, ev))
                              ELSE RMove(x, ev.c, Lost(x))
     [] OTHER -> x

RndEffect(ev, o) == With(o, "rnd", IF "rnd" \in DOMAIN o THEN RndEffect1(ev, o.rnd) ELSE RndEffect1(ev, Rnd0))
===============================================================================
