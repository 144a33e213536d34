------------------------------- MODULE MC_C04 -------------------------------
(* Parameters with one or two styles, plus a rest map with one or two       *)
(* styles; argument lists with every pattern of repetition and every mix of *)
(* styles and distances.                                                    *)
EXTENDS MCBase
L == IF Deep THEN 4 ELSE 3
P1 == {FlagT, BoolT, NV(Opt(IntT)), NA(Opt(VecT(IntT))), Opt(IntT), Opt(VecT(IntT)), Opt(NV(Opt(IntT))), Opt(NA(Opt(IntT)))}
R1 == {Map(NV(Opt(IntT))), Map(IntT), Map(NA(Opt(VecT(IntT)))), Map(VecT(IntT))}
P2 == {NA(IntT), NV(IntT), IntT, VecT(IntT), NA(Opt(IntT)), NA(VecT(IntT)), Opt(NV(IntT)), Opt(NA(VecT(IntT))), Opt(NA(Opt(VecT(IntT))))}
R2 == {Map(NV(IntT)), Map(NA(IntT)), Map(NA(Opt(IntT))), Map(NA(VecT(IntT)))}
Others == {Rec(<<F("a", s), F("b", FlagT)>>) : s \in P2} \cup {Rec(<<F("a", BoolT), F("r", t)>>) : t \in R2}
            \cup {Rec(<<F("r", Map(NA(Opt(IntT)))), F("a", Opt(VecT(IntT))), FU("v", VecT(IntT))>>)}
NoRest == {Rec(<<F("a", s), F("b", t)>>) : s \in P1, t \in {FlagT, NV(Opt(IntT)), Opt(VecT(IntT))}}
WithRest == {Rec(<<F("a", s), F("r", t)>>) : s \in {NV(Opt(IntT)), Opt(VecT(IntT)), BoolT}, t \in R1}
Tuples == {Tup(<<FN("", "a", NV(Opt(IntT))), t>>) : t \in {F("", Map(NV(Opt(IntT)))), FN("", "b", Opt(NA(Opt(IntT))))}}
           \cup {Rec(<<FU("u", Opt(IntT)), F("a", NV(Opt(IntT))), FU("v", VecT(IntT))>>)}
Wides == {Rec(Wide(ks, 12)) : ks \in {<<FlagT, NV(Opt(IntT)), Opt(VecT(IntT))>>, <<NA(Opt(VecT(IntT)))>>, <<Opt(IntT), BoolT>>}}
           \cup {Rec(Wide(<<FlagT, NV(Opt(IntT))>>, 11) \o <<F("r", Map(NV(Opt(IntT))))>>)}
TheDecls == Family(Others \cup Wides \cup NoRest \cup WithRest \cup Tuples)
ArgsOf(n, st) == (IF "flag" \in st THEN {Fl(n)} ELSE {})
                  \cup (IF "value" \in st THEN {Va(n, <<"1">>)} ELSE {})
                  \cup (IF "args" \in st THEN {Ar(n, <<"1">>)} ELSE {})
InputsOf(d) ==
  LET c == Comp[d]
      own(k) == {st \in {"flag", "value", "args"} : Takes(c.ps[k].pt, st)}
      S == UNION {CASE c.ps[k].role = "named" -> ArgsOf(c.ps[k].name, own(k))
                    [] c.ps[k].role = "rest"  -> ArgsOf("k", own(k)) \cup ArgsOf("a", own(k))
                    [] OTHER -> {<<"1">>} : k \in 1..Len(c.ps)}
      wide == [k \in 1..Len(c.ps) |-> CHOOSE x \in IF c.ps[k].role = "named" THEN ArgsOf(c.ps[k].name, own(k)) ELSE ArgsOf("z", own(k)) : TRUE]
      full == ListsOf(S, L)
  IN IF Len(c.ps) > 5 THEN WideLists(wide) \cup {Join(<<y>> \o wide) : y \in S} \cup {Join(Append(wide, y)) : y \in S}
     ELSE full \cup {x \o <<",">> : x \in ListsOf(S, 2) \ {<<>>}}
       \* the second value malformed as well
       \cup {Join(<<x, Va("a", <<"x">>)>>) : x \in S}
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
