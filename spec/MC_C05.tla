------------------------------- MODULE MC_C05 -------------------------------
(* Every value type of a rest map, and none, next to declared parameters;   *)
(* arguments with declared and undeclared names in every style.             *)
EXTENDS MCBase
L == IF Deep THEN 3 ELSE 2
VTypes == {IntT, VecT(IntT), NV(IntT), NV(Opt(IntT)), NA(IntT), NA(Opt(IntT)), NA(VecT(IntT)), NA(Opt(VecT(IntT)))}
Others == {<<>>, <<F("b", Opt(IntT))>>, <<F("a", FlagT), F("b", Opt(VecT(IntT)))>>,
           <<F("a", Opt(IntT)), F("b", BoolT)>>}
At(k, f, s) == SubSeq(s, 1, k) \o <<f>> \o SubSeq(s, k + 1, Len(s))
TheDecls == Family(
   {Rec(At(0, F("r", Map(v)), o)) : v \in VTypes, o \in Others}
   \cup {Rec(At(1, F("r", Map(v)), o)) : v \in VTypes, o \in {<<F("a", FlagT), F("b", Opt(VecT(IntT)))>>}}
   \cup {Tup(<<F("", Map(v)), FN("", "b", Opt(IntT))>>) : v \in VTypes}
   \cup {Filtered(Rec(<<F("r", Map(v)), FU("u", VecT(ExT))>>)) : v \in VTypes}
   \cup {Rec(<<FU("q", IntT), F("r", Map(v)), FU("u", Opt(IntT))>>) : v \in VTypes}
   \cup {Rec(Wide(<<k>>, 10) \o <<F("r", Map(v))>>) : k \in {FlagT, Opt(IntT), Opt(VecT(IntT))}, v \in {NV(Opt(IntT)), NA(Opt(IntT))}}
   \cup {Rec(o) : o \in Others})
Wide_(c) == Len(c.ps) > 6
WideForms == UNION {{Fl(n), Va(n, <<"1">>), Ar(n, <<"1">>)} : n \in {"l", "h", "e", "c", "a", "la"}}
Names == IF Deep THEN {"a", "b", "k", "type", "r#k", "K", "A", "a_", "_b"} ELSE {"a", "b", "k", "K", "A"}
Forms == UNION {{Fl(n), Va(n, <<"1">>), Ar(n, <<"1">>)} : n \in Names}
\* (all of them names, whatever they are elsewhere)
OddNames == {"_", "__", "true", "false", "self", "Self", "super", "crate", "r#type", "type", "x1", "^", "async", "a_", "_a", "union", "macro"}
Odd   == UNION {{Fl(n), Va(n, <<"1">>), Ar(n, <<"1">>)} : n \in OddNames}
Few   == UNION {{Fl(n), Va(n, <<"1">>), Ar(n, <<"1">>)} : n \in {"a", "k", "z"}}
More  == {Ar("k", <<>>), Ar("k", <<"1", ",", "2">>), <<"k", "[", "]">>, Va("k", <<>>), <<"1">>}
\* very many of them
Many == LET x == [i \in 1..(IF Deep THEN 258 ELSE 66) |-> IF i % 3 = 0 THEN Va("k" \o ToString(i), <<"1">>) ELSE Fl("k" \o ToString(i))]
        IN {Join(Append(x, y)) : y \in IF Deep THEN {Fl("k1"), Va("k257", <<"1">>), Fl("l")} ELSE {Fl("l")}}
InputsOf(d) ==
  IF Decls[d] = Rec(<<F("r", Map(NV(Opt(IntT))))>>) THEN Many \cup {Join(x) : x \in SeqsUpTo(Forms, 2)} \cup More
  ELSE IF Wide_(Comp[d]) THEN {Join(x) : x \in SeqsUpTo(WideForms, 2)} \cup WideLists([i \in 1..10 |-> Fl(WideNames[i])] \o <<Fl("z")>>)
  ELSE LET one == IF Comp[d].req # <<>> THEN {<<"1">>} ELSE {} IN
  {Join(x) : x \in SeqsUpTo(Forms, 2)} \cup (IF Deep THEN ListsOf(Few, 3) ELSE {})
   \cup More \cup {Join(one_ \o <<x>>) : x \in Odd, one_ \in {<<>>} \cup {<<y>> : y \in one}} \cup {Join(<<<<"1">>, x>>) : x \in Forms} \cup {Join(<<<<"1">>, x, y>>) : x \in Few, y \in Few}
   \cup {x \o <<",">> : x \in Forms}
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
