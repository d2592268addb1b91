-------------------------------- MODULE Strat --------------------------------
(* Strategy strings: the grammar of the user's guides as a recursive-descent  *)
(* parser over characters, which yields acceptance and meaning; what a saved  *)
(* strategy must say; and the value of conditions.                            *)
(* A strategy is a sequence of items: methods, conditions and selections.     *)
EXTENDS Dist, StratTab

Dig == {"0","1","2","3","4","5","6","7","8","9"}
DigVal(c) == CASE c="0"->0[]c="1"->1[]c="2"->2[]c="3"->3[]c="4"->4[]c="5"->5[]c="6"->6[]c="7"->7[]c="8"->8[]OTHER->9
Lo == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpLow == "A":>"a"@@"B":>"b"@@"C":>"c"@@"D":>"d"@@"E":>"e"@@"F":>"f"@@"G":>"g"@@"H":>"h"@@"I":>"i"@@"J":>"j"@@"K":>"k"@@"L":>"l"@@"M":>"m"
       @@"N":>"n"@@"O":>"o"@@"P":>"p"@@"Q":>"q"@@"R":>"r"@@"S":>"s"@@"T":>"t"@@"U":>"u"@@"V":>"v"@@"W":>"w"@@"X":>"x"@@"Y":>"y"@@"Z":>"z"
Alpha == Lo \cup DOMAIN UpLow
AlNum == Alpha \cup Dig
Low(c) == IF c \in DOMAIN UpLow THEN UpLow[c] ELSE c
White == {" ", "\t", "\n"}

Ch(S, p) == IF p > Len(S) THEN "" ELSE S[p]
RECURSIVE Run(_,_,_)
Run(S, p, set) == IF Ch(S, p) \in set THEN Run(S, p + 1, set) ELSE p
Sk(S, p) == Run(S, p, White)
At(S, p) == Ch(S, Sk(S, p))
After(S, p) == Sk(S, p) + 1                    \* position behind the token At(S, p), of one character

Fail == [p |-> 0]
Res(p, v) == [p |-> p, v |-> v]

----------------------------------------------------------------------------
(* Numbers: sign, significant digits, exponent of the last digit.             *)
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE 10 * IntOf(SubSeq(d, 1, Len(d) - 1)) + DigVal(d[Len(d)])
RECURSIVE LStrip(_)
LStrip(d) == IF d # <<>> /\ d[1] = "0" THEN LStrip(Tail(d)) ELSE d
RECURSIVE NumNF(_,_,_)
NumNF(s, d, e) ==
   IF d = <<>> THEN [k |-> "num", s |-> 1, d |-> <<>>, e |-> 0]
   ELSE IF d[Len(d)] = "0" THEN NumNF(s, SubSeq(d, 1, Len(d) - 1), e + 1)
   ELSE [k |-> "num", s |-> s, d |-> d, e |-> e]

(* An unsigned literal at position p, where there is a digit; whole: integers *)
Lit(S, p, s, whole) ==
   LET i == Run(S, p, Dig)
       j == IF Ch(S, i) = "." /\ Ch(S, i + 1) \in Dig THEN Run(S, i + 1, Dig) ELSE i
       x == IF Ch(S, j) \in {"e", "E"} THEN IF Ch(S, j + 1) \in {"+", "-"} THEN j + 2 ELSE j + 1 ELSE 0
       q == IF x > 0 /\ Ch(S, x) \in Dig THEN Run(S, x, Dig) ELSE j
       e == IF q = j THEN 0 ELSE (IF Ch(S, x - 1) = "-" THEN -1 ELSE 1) * IntOf(LStrip(SubSeq(S, x, q - 1)))
       fr == IF j = i THEN <<>> ELSE SubSeq(S, i + 1, j - 1)
       d  == SubSeq(S, p, i - 1) \o fr
       ex == e - Len(fr)
   IN  IF whole /\ ex < 0                      \* truncation
       THEN Res(q, NumNF(s, LStrip(IF -ex >= Len(d) THEN <<>> ELSE SubSeq(d, 1, Len(d) + ex)), 0))
       ELSE Res(q, NumNF(s, LStrip(d), ex))

Signed(S, p, whole) ==
   LET c == At(S, p)
       q == IF c \in {"+", "-"} THEN Sk(S, After(S, p)) ELSE Sk(S, p)
   IN  IF Ch(S, q) \in Dig THEN Lit(S, q, IF c = "-" THEN -1 ELSE 1, whole) ELSE Fail

(* The longest name of a table that begins the given word, whatever its case  *)
Matches(w, n) == Len(n) <= Len(w) /\ \A i \in 1 .. Len(n) : Low(w[i]) = n[i]
Longest(w, tab) ==
   LET m == {t \in tab : Matches(w, t[2])}
   IN  IF m = {} THEN <<"">> ELSE CHOOSE t \in m : \A u \in m : Len(u[2]) <= Len(t[2])

----------------------------------------------------------------------------
(* Conditions.  Sums are sequences of signed terms, products, conjunctions    *)
(* and disjunctions are sequences, so that equal meanings are equal values.   *)
Logical(x) == x.k \in {"or", "and", "not", "<", "=", ">"}
Terms(x, s) == IF x.k = "sum" THEN [i \in 1 .. Len(x.t) |-> <<s * x.t[i][1], x.t[i][2]>>] ELSE << <<s, x>> >>
Facts(x, k) == IF x.k = k THEN x.f ELSE <<x>>

RECURSIVE POr(_,_,_), POrR(_,_,_), PAnd(_,_,_), PAndR(_,_,_), PNot(_,_,_), PRel(_,_,_), PAdd(_,_,_), PAddR(_,_,_), PMul(_,_,_),
          PMulR(_,_,_), PMod(_,_,_), PModR(_,_,_), PAtom(_,_,_)

(* The R operators continue with what stands behind operand r.                *)
Bin(S, T, r, op, Next(_,_,_), ok(_), mk(_,_), Cont(_,_,_)) ==
   LET q == Next(S, T, After(S, r.p))
   IN  IF q.p = 0 THEN Fail ELSE IF ~ok(r.v) \/ ~ok(q.v) THEN Fail ELSE Cont(S, T, Res(q.p, mk(r.v, q.v)))
Num(x) == ~Logical(x)
POr(S, T, p)  == POrR(S, T, PAnd(S, T, p))
POrR(S, T, r) == IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # "|" THEN r
                 ELSE Bin(S, T, r, "|", PAnd, Logical, LAMBDA a, b : [k |-> "or", f |-> Facts(a, "or") \o Facts(b, "or")], POrR)
PAnd(S, T, p)  == PAndR(S, T, PNot(S, T, p))
PAndR(S, T, r) == IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # "&" THEN r
                  ELSE Bin(S, T, r, "&", PNot, Logical, LAMBDA a, b : [k |-> "and", f |-> Facts(a, "and") \o Facts(b, "and")], PAndR)
PNot(S, T, p) ==
   IF At(S, p) # "!" THEN PRel(S, T, p)
   ELSE LET q == PNot(S, T, After(S, p)) IN IF q.p = 0 THEN Fail ELSE IF ~Logical(q.v) THEN Fail ELSE Res(q.p, [k |-> "not", x |-> q.v])
PRel(S, T, p) ==
   LET r == PAdd(S, T, p)
       c == At(S, r.p)
       q == PAdd(S, T, After(S, r.p))
   IN  IF r.p = 0 THEN Fail
       ELSE IF c \notin {"<", "=", ">"} THEN r
       ELSE IF q.p = 0 THEN Fail
       ELSE IF ~Num(r.v) \/ ~Num(q.v) THEN Fail
       ELSE Res(q.p, [k |-> c, l |-> r.v, r |-> q.v])
PAdd(S, T, p)  == PAddR(S, T, PMul(S, T, p))
PAddR(S, T, r) == IF r.p = 0 THEN Fail
                  ELSE IF At(S, r.p) \notin {"+", "-"} THEN r
                  ELSE LET s == IF At(S, r.p) = "-" THEN -1 ELSE 1
                       IN  Bin(S, T, r, "+", PMul, Num, LAMBDA a, b : [k |-> "sum", t |-> Terms(a, 1) \o Terms(b, s)], PAddR)
PMul(S, T, p)  == PMulR(S, T, PMod(S, T, p))
PMulR(S, T, r) == IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # "*" THEN r
                  ELSE Bin(S, T, r, "*", PMod, Num, LAMBDA a, b : [k |-> "mul", f |-> Facts(a, "mul") \o Facts(b, "mul")], PMulR)
PMod(S, T, p)  == PModR(S, T, PAtom(S, T, p))
PModR(S, T, r) == IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # "%" THEN r
                  ELSE Bin(S, T, r, "%", PAtom, Num, LAMBDA a, b : [k |-> "mod", l |-> a, r |-> b], PModR)
PAtom(S, T, p) ==
   LET c == At(S, p) IN
   IF c = "(" THEN LET r == POr(S, T, After(S, p))
                   IN  IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # ")" THEN Fail ELSE Res(After(S, r.p), r.v)
   ELSE IF c \in Alpha
   THEN LET b == Sk(S, p)
            e == Run(S, b, AlNum)
            n == Longest(SubSeq(S, b, e - 1), CondVars(T))
        IN  IF n[1] = "" THEN Fail ELSE Res(e, [k |-> "var", n |-> n[1]])
   ELSE Signed(S, p, FALSE)

----------------------------------------------------------------------------
RECURSIVE PSel(_,_,_), PSelR(_,_,_), PCat(_,_,_,_), PTest(_,_,_), PPar(_,_,_,_,_)
PSel(S, T, p)  == PSelR(S, T, PCat(S, T, p, <<>>))
PSelR(S, T, r) ==
   IF r.p = 0 THEN Fail
   ELSE IF At(S, r.p) # "|" THEN r
   ELSE LET q == PCat(S, T, After(S, r.p), <<>>)
        IN  IF q.p = 0 THEN Fail ELSE PSelR(S, T, Res(q.p, <<[k |-> "sel", a |-> r.v, b |-> q.v]>>))
PCat(S, T, p, acc) ==
   IF At(S, p) \in AlNum \cup {"/", "("}
   THEN LET r == PTest(S, T, p) IN IF r.p = 0 THEN Fail ELSE PCat(S, T, r.p, acc \o r.v)
   ELSE Res(p, acc)
PTest(S, T, p) ==
   LET c == At(S, p) IN
   IF c = "/"
   THEN LET e == POr(S, T, After(S, p)) IN
        IF e.p = 0 THEN Fail
        ELSE IF ~Logical(e.v) \/ At(S, e.p) # "?" THEN Fail
        ELSE LET a == PSel(S, T, After(S, e.p)) IN
             IF a.p = 0 THEN Fail
             ELSE LET b == IF At(S, a.p) = ":" THEN PSel(S, T, After(S, a.p)) ELSE Res(a.p, <<>>) IN
                  IF b.p = 0 THEN Fail
                  ELSE IF At(S, b.p) # ";" THEN Fail
                  ELSE Res(After(S, b.p), <<[k |-> "cond", c |-> e.v, a |-> a.v, b |-> b.v]>>)
   ELSE IF c = "("
   THEN LET r == PSel(S, T, After(S, p))
        IN  IF r.p = 0 THEN Fail ELSE IF At(S, r.p) # ")" THEN Fail ELSE Res(After(S, r.p), r.v)
   ELSE IF Low(c) \notin DOMAIN Meth(T) THEN Fail
   ELSE LET m == Low(c)
            r == IF At(S, After(S, p)) = "{" THEN PPar(S, T, m, After(S, After(S, p)), <<>>) ELSE Res(After(S, p), <<>>)
        IN  IF r.p = 0 THEN Fail ELSE Res(r.p, <<[k |-> "met", m |-> m, t |-> T, g |-> r.v]>>)
(* The parameters of method m from position p; set holds the values so far    *)
PPar(S, T, m, p, set) ==
   LET b == Sk(S, p)
       e == Run(S, b, AlNum)
       n == Longest(SubSeq(S, b, e - 1), Meth(T)[m])
   IN  IF Ch(S, b) \notin Alpha THEN Fail
       ELSE IF n[1] = "" \/ At(S, e) # "=" THEN Fail
       ELSE LET q == After(S, e)
                y == n[3]
                c == At(S, q)
                l == IF y[1] = "c" THEN IF \E i \in 1 .. Len(y[2]) : y[2][i] = c THEN c ELSE Low(c) ELSE ""
                v == CASE y[1] = "i" \/ y[1] = "d" -> Signed(S, q, TRUE)
                       [] y[1] = "f" -> Signed(S, q, FALSE)
                       [] y[1] = "s" -> PSel(S, y[2], q)
                       [] OTHER      -> IF c \in AlNum /\ \E i \in 1 .. Len(y[2]) : y[2][i] = l THEN Res(After(S, q), l) ELSE Fail
            IN  IF v.p = 0 THEN Fail
                ELSE LET s2 == IF y[1] = "d" THEN set ELSE (n[1] :> v.v) @@ (IF set = <<>> THEN <<>> ELSE set)
                     IN  CASE At(S, v.p) = "," -> PPar(S, T, m, After(S, v.p), s2)
                           [] At(S, v.p) = "}" -> Res(After(S, v.p), s2)
                           [] OTHER            -> Fail

(* Meaning of a string, or the failure                                        *)
Parse(S, T) == LET r == PSel(S, T, 1) IN IF r.p = 0 THEN Fail ELSE IF At(S, r.p) = "" THEN r ELSE Fail

----------------------------------------------------------------------------
(* y, a saved strategy, says at least all that x says; the rest is defaults   *)
ParType(T, m, n) == (CHOOSE t \in Meth(T)[m] : t[1] = n)[3][1]
NonDep(T, m) == {t[1] : t \in {u \in Meth(T)[m] : u[3][1] # "d"}}
RECURSIVE Says(_,_), DefsOf(_,_)
Says(x, y) ==
   /\ Len(x) = Len(y)
   /\ \A i \in 1 .. Len(x) :
        LET u == x[i]  w == y[i] IN
        /\ u.k = w.k
        /\ CASE u.k = "sel"  -> Says(u.a, w.a) /\ Says(u.b, w.b)
             [] u.k = "cond" -> u.c = w.c /\ Says(u.a, w.a) /\ Says(u.b, w.b)
             [] OTHER        -> /\ u.m = w.m
                                /\ DOMAIN w.g = NonDep(u.t, u.m)
                                /\ \A n \in DOMAIN u.g : IF ParType(u.t, u.m, n) = "s" THEN Says(u.g[n], w.g[n]) ELSE u.g[n] = w.g[n]
(* The parameters that x leaves to their defaults, with the values that y has *)
DefsOf(x, y) ==
   UNION {LET u == x[i]  w == y[i] IN
          IF u.k = "met"
          THEN {<< <<u.t, u.m, n>>, w.g[n] >> : n \in DOMAIN w.g \ DOMAIN u.g}
               \cup UNION {DefsOf(u.g[n], w.g[n]) : n \in {m \in DOMAIN u.g : ParType(u.t, u.m, m) = "s"}}
          ELSE DefsOf(u.a, w.a) \cup DefsOf(u.b, w.b) : i \in 1 .. Len(x)}

(* Every method has one default value for each parameter: functions           *)
Steady(defs) == \A d1, d2 \in defs : d1[1] = d2[1] => d1[2] = d2[2]

StratDefs(o) == IF "@defs" \in DOMAIN o THEN o["@defs"] ELSE {}
StratFault(ev, defs) ==
   LET x == Parse(ev.s, ev.t) IN
   CASE x.p = 0 -> IF ev.ret = 0 THEN "invalid strategy string accepted" ELSE OK
     [] ev.ret # 0  -> "valid strategy string refused"
     [] ev.sret # 0 -> "strategy cannot be saved"
     [] OTHER -> LET y == Parse(ev.out, ev.t) IN
                 CASE y.p = 0 -> "saved strategy is not a valid strategy string"
                   [] ~Says(x.v, y.v) -> "saved strategy is another strategy"
                   [] ~Steady(DefsOf(x.v, y.v) \cup defs) -> "default values of parameters vary"
                   [] OTHER -> OK

----------------------------------------------------------------------------
(* Conditions are computed in quarters; env gives the variables.              *)
RECURSIVE Quarters(_,_), Holds(_,_)
Quarters(x, env) ==
   CASE x.k = "num" -> LET v == IF x.e >= 0 THEN 4 * IntOf(x.d) * 10 ^ x.e ELSE (4 * IntOf(x.d)) \div (10 ^ (-x.e)) IN x.s * v
     [] x.k = "var" -> 4 * env[x.n]
     [] x.k = "sum" -> FoldLeft(LAMBDA a, t : a + t[1] * Quarters(t[2], env), 0, x.t)
     [] x.k = "mul" -> FoldLeft(LAMBDA a, f : (a * Quarters(f, env)) \div 4, 4, x.f)
     [] OTHER       -> Quarters(x.l, env) % Quarters(x.r, env)
Holds(x, env) ==
   CASE x.k = "or"  -> \E i \in 1 .. Len(x.f) : Holds(x.f[i], env)
     [] x.k = "and" -> \A i \in 1 .. Len(x.f) : Holds(x.f[i], env)
     [] x.k = "not" -> ~Holds(x.x, env)
     [] x.k = "<"   -> Quarters(x.l, env) < Quarters(x.r, env)
     [] x.k = ">"   -> Quarters(x.l, env) > Quarters(x.r, env)
     [] OTHER       -> Quarters(x.l, env) = Quarters(x.r, env)

CondFault(ev, g) ==
   LET r == POr(ev.s, "O", 1)
       env == "edge" :> ArcNbr(g) @@ "levl" :> 0 @@ "load" :> SumSeq(g.vw) @@ "vert" :> g.n
              @@ "mdeg" :> MaxSeq([v \in 1 .. g.n |-> Len(g.nb[v])], 0)
   IN  CASE ev.ret # 0 -> "ordering failed"
         [] r.p = 0 -> "valid condition"
         [] (ev.cblk > 1) # Holds(r.v, env) -> "wrong branch of the condition"
         [] OTHER -> OK

StratOpNames == {"Strat", "StratBuilt", "StratCond"}
StratContract(ev, o) ==
   CASE ev.op = "Strat"      -> StratFault(ev, StratDefs(o))
     [] ev.op = "StratBuilt" -> IF ev.ret # 0 THEN "strategy cannot be built"
                                ELSE IF ev.sret # 0 THEN "strategy cannot be saved"
                                ELSE IF Parse(ev.out, ev.t).p = 0 THEN "built strategy is not a valid strategy string" ELSE OK
     [] OTHER                -> CondFault(ev, o[ev.h].g)
StratEffect(ev, o) ==
   IF ev.op # "Strat" \/ ev.ret # 0 THEN o
   ELSE LET d == StratDefs(o) \cup DefsOf(Parse(ev.s, ev.t).v, Parse(ev.out, ev.t).v)
        IN  [x \in DOMAIN o \cup {"@defs"} |-> IF x = "@defs" THEN d ELSE o[x]]
=============================================================================
