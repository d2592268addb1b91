------------------------------ MODULE StratTab ------------------------------
(* Written by lib/strattab.py: the methods of every kind of strategy, their   *)
(* parameters (integer, float, deprecated, sub-strategy, case) and the        *)
(* variables of the conditions.                                               *)
EXTENDS TLC
MethB ==
      "b" :> {<<"bnd", <<"b","n","d">>, <<"s","B">>>>, <<"org", <<"o","r","g">>, <<"s","B">>>>, <<"width", <<"w","i","d","t","h">>, <<"i">>>>}
   @@ "d" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"b","k">>>>>>}
   @@ "x" :> {}
   @@ "f" :> {<<"move", <<"m","o","v","e">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"a","b">>>>>>}
   @@ "h" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "g" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","B">>>>, <<"low", <<"l","o","w">>, <<"s","B">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>}
   @@ "z" :> {}
CondB == {<<"bal", <<"b","a","l">>>>, <<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"lmin0", <<"l","m","i","n","0">>>>, <<"lmax0", <<"l","m","a","x","0">>>>, <<"load", <<"l","o","a","d">>>>, <<"load0", <<"l","o","a","d","0">>>>, <<"vert", <<"v","e","r","t">>>>}
MethK ==
      "b" :> {<<"bnd", <<"b","n","d">>, <<"s","K">>>>, <<"org", <<"o","r","g">>, <<"s","K">>>>, <<"width", <<"w","i","d","t","h">>, <<"i">>>>}
   @@ "c" :> {}
   @@ "d" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"dif", <<"d","i","f">>, <<"f">>>>, <<"rem", <<"r","e","m">>, <<"f">>>>}
   @@ "x" :> {<<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "f" :> {<<"move", <<"m","o","v","e">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","K">>>>, <<"low", <<"l","o","w">>, <<"s","K">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"h","s","c","d">>>>>>}
   @@ "r" :> {<<"job", <<"j","o","b">>, <<"c",<<"u","t">>>>>>, <<"bal", <<"b","a","l">>, <<"f">>>>, <<"map", <<"m","a","p">>, <<"c",<<"u","t">>>>>>, <<"poli", <<"p","o","l","i">>, <<"c",<<"r","l","s","L","S">>>>>>, <<"sep", <<"s","e","p">>, <<"s","B">>>>}
CondK == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"vert", <<"v","e","r","t">>>>}
MethV ==
      "b" :> {<<"bnd", <<"b","n","d">>, <<"s","V">>>>, <<"org", <<"o","r","g">>, <<"s","V">>>>, <<"width", <<"w","i","d","t","h">>, <<"i">>>>}
   @@ "e" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","B">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"t","f">>>>>>}
   @@ "f" :> {<<"move", <<"m","o","v","e">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "h" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "g" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","V">>>>, <<"low", <<"l","o","w">>, <<"s","V">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"h","s">>>>>>}
   @@ "v" :> {}
   @@ "z" :> {}
CondV == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"vert", <<"v","e","r","t">>>>}
MethO ==
      "b" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","O">>>>, <<"cmin", <<"c","m","i","n">>, <<"i">>>>}
   @@ "o" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","O">>>>}
   @@ "c" :> {<<"rat", <<"r","a","t">>, <<"f">>>>, <<"cpr", <<"c","p","r">>, <<"s","O">>>>, <<"unc", <<"u","n","c">>, <<"s","O">>>>}
   @@ "g" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "d" :> {<<"cmin", <<"c","m","i","n">>, <<"i">>>>, <<"cmax", <<"c","m","a","x">>, <<"i">>>>, <<"frat", <<"f","r","a","t">>, <<"f">>>>}
   @@ "f" :> {<<"cmin", <<"c","m","i","n">>, <<"i">>>>, <<"cmax", <<"c","m","a","x">>, <<"i">>>>, <<"frat", <<"f","r","a","t">>, <<"f">>>>}
   @@ "k" :> {<<"siz", <<"s","i","z">>, <<"i">>>>, <<"strat", <<"s","t","r","a","t">>, <<"s","K">>>>}
   @@ "n" :> {<<"sep", <<"s","e","p">>, <<"s","V">>>>, <<"ole", <<"o","l","e">>, <<"s","O">>>>, <<"ose", <<"o","s","e">>, <<"s","O">>>>}
   @@ "s" :> {}
CondO == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"vert", <<"v","e","r","t">>>>, <<"mdeg", <<"m","d","e","g">>>>}
MethW ==
      "e" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","K">>>>}
   @@ "f" :> {<<"move", <<"m","o","v","e">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","W">>>>, <<"low", <<"l","o","w">>, <<"s","W">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>}
   @@ "r" :> {<<"sep", <<"s","e","p">>, <<"s","V">>>>}
   @@ "z" :> {}
CondW == {<<"edge", <<"e","d","g","e">>>>, <<"part", <<"p","a","r","t">>>>, <<"vert", <<"v","e","r","t">>>>}
MethM ==
      "b" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","M">>>>, <<"cmin", <<"c","m","i","n">>, <<"i">>>>}
   @@ "c" :> {<<"rat", <<"r","a","t">>, <<"f">>>>, <<"cpr", <<"c","p","r">>, <<"s","M">>>>, <<"unc", <<"u","n","c">>, <<"s","M">>>>}
   @@ "g" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "v" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","O">>>>}
   @@ "d" :> {<<"cmin", <<"c","m","i","n">>, <<"i">>>>, <<"cmax", <<"c","m","a","x">>, <<"i">>>>, <<"frat", <<"f","r","a","t">>, <<"f">>>>}
   @@ "f" :> {<<"cmin", <<"c","m","i","n">>, <<"i">>>>, <<"cmax", <<"c","m","a","x">>, <<"i">>>>, <<"frat", <<"f","r","a","t">>, <<"f">>>>}
   @@ "n" :> {<<"sep", <<"s","e","p">>, <<"s","N">>>>, <<"ole", <<"o","l","e">>, <<"s","M">>>>, <<"ose", <<"o","s","e">>, <<"s","M">>>>}
   @@ "s" :> {}
CondM == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"mdeg", <<"m","d","e","g">>>>, <<"vnod", <<"v","n","o","d">>>>, <<"velm", <<"v","e","l","m">>>>}
MethN ==
      "f" :> {<<"move", <<"m","o","v","e">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "h" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>}
   @@ "v" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","V">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","N">>>>, <<"low", <<"l","o","w">>, <<"s","N">>>>, <<"vnod", <<"v","n","o","d">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"h">>>>>>}
   @@ "z" :> {}
CondN == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"velm", <<"v","e","l","m">>>>, <<"vnod", <<"v","n","o","d">>>>}
MethP ==
      "b" :> {<<"width", <<"w","i","d","t","h">>, <<"i">>>>, <<"bnd", <<"b","n","d">>, <<"s","P">>>>, <<"org", <<"o","r","g">>, <<"s","P">>>>}
   @@ "d" :> {<<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"dif", <<"d","i","f">>, <<"f">>>>, <<"rem", <<"r","e","m">>, <<"f">>>>, <<"type", <<"t","y","p","e">>, <<"c",<<"b","k">>>>>>}
   @@ "x" :> {<<"sbbt", <<"s","b","b","t">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","P">>>>, <<"low", <<"l","o","w">>, <<"s","P">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>, <<"seq", <<"s","e","q">>, <<"s","P">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"dvert", <<"d","v","e","r","t">>, <<"i">>>>, <<"fold", <<"f","o","l","d">>, <<"c",<<"n","f","d">>>>>>}
   @@ "q" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","B">>>>}
   @@ "z" :> {}
CondP == {<<"bal", <<"b","a","l">>>>, <<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"lmin0", <<"l","m","i","n","0">>>>, <<"lmax0", <<"l","m","a","x","0">>>>, <<"load", <<"l","o","a","d">>>>, <<"load0", <<"l","o","a","d","0">>>>, <<"proc", <<"p","r","o","c">>>>, <<"rank", <<"r","a","n","k">>>>, <<"vert", <<"v","e","r","t">>>>}
MethQ ==
      "r" :> {<<"sep", <<"s","e","p">>, <<"s","P">>>>, <<"seq", <<"s","e","q">>, <<"s","K">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>}
CondQ == {}
MethR ==
      "b" :> {<<"width", <<"w","i","d","t","h">>, <<"i">>>>, <<"strat", <<"s","t","r","a","t">>, <<"s","R">>>>}
   @@ "d" :> {<<"part", <<"p","a","r","t">>, <<"i">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"bal", <<"b","a","l">>, <<"f">>>>, <<"dif", <<"d","i","f">>, <<"f">>>>, <<"rem", <<"r","e","m">>, <<"f">>>>}
   @@ "m" :> {<<"asc", <<"a","s","c">>, <<"s","R">>>>, <<"low", <<"l","o","w">>, <<"s","R">>>>, <<"vert", <<"v","e","r","t">>, <<"i">>>>, <<"rat", <<"r","a","t">>, <<"f">>>>, <<"seq", <<"s","e","q">>, <<"s","R">>>>, <<"pass", <<"p","a","s","s">>, <<"i">>>>, <<"dvert", <<"d","v","e","r","t">>, <<"i">>>>, <<"fold", <<"f","o","l","d">>, <<"c",<<"n","f","d">>>>>>, <<"dlevl", <<"d","l","e","v","l">>, <<"d">>>>, <<"proc", <<"p","r","o","c">>, <<"d">>>>}
   @@ "q" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","V">>>>}
   @@ "z" :> {}
CondR == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"vert", <<"v","e","r","t">>>>, <<"proc", <<"p","r","o","c">>>>, <<"rank", <<"r","a","n","k">>>>}
MethS ==
      "n" :> {<<"sep", <<"s","e","p">>, <<"s","R">>>>, <<"ole", <<"o","l","e">>, <<"s","S">>>>, <<"ose", <<"o","s","e">>, <<"s","S">>>>, <<"osq", <<"o","s","q">>, <<"s","O">>>>}
   @@ "s" :> {}
   @@ "q" :> {<<"strat", <<"s","t","r","a","t">>, <<"s","O">>>>}
CondS == {<<"edge", <<"e","d","g","e">>>>, <<"levl", <<"l","e","v","l">>>>, <<"load", <<"l","o","a","d">>>>, <<"vert", <<"v","e","r","t">>>>, <<"mdeg", <<"m","d","e","g">>>>, <<"proc", <<"p","r","o","c">>>>, <<"rank", <<"r","a","n","k">>>>}
Meth(T) == CASE T = "B" -> MethB [] T = "K" -> MethK [] T = "V" -> MethV [] T = "O" -> MethO [] T = "W" -> MethW [] T = "M" -> MethM [] T = "N" -> MethN [] T = "P" -> MethP [] T = "Q" -> MethQ [] T = "R" -> MethR [] T = "S" -> MethS
CondVars(T) == CASE T = "B" -> CondB [] T = "K" -> CondK [] T = "V" -> CondV [] T = "O" -> CondO [] T = "W" -> CondW [] T = "M" -> CondM [] T = "N" -> CondN [] T = "P" -> CondP [] T = "Q" -> CondQ [] T = "R" -> CondR [] T = "S" -> CondS
=============================================================================
