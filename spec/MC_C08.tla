------------------------------- MODULE MC_C08 -------------------------------
(* Recorded names and error positions: declarations of every parameter kind *)
(* (also nested), accepted lists with names at every position, and lists    *)
(* with one or two faults at every position.                                *)
EXTENDS MCBase
Nested == <<Rec(<<F("x", FlagT), FN("y", "z", Opt(NV(IntT))), FU("u", VecT(IntT))>>)>>
Tops == <<
  Rec(<<F("a", FlagT), F("b", Opt(NV(Opt(IntT)))), F("c", Opt(NA(Opt(VecT(IntT)))))>>),
  Rec(<<F("c", FlagT), F("b", Opt(NA(IntT))), F("a", NV(Opt(IntT)))>>),
  Rec(<<FU("q", IntT), FU("p", IntT), FU("o", Opt(IntT)), F("a", FlagT)>>),
  Rec(<<FU("q", IntT), FU("p", IntT), FU("p3", IntT), F("b", Opt(IntT))>>),
  Rec(<<F("a", FlagT), F("r", Map(NV(Opt(IntT))))>>),
  Rec(<<F("b", BoolT), F("r", Map(NA(Opt(VecT(IntT))))), FU("v", VecT(IntT))>>),
  Rec(<<F("a", Opt(NA(MetaT(1)))), F("b", FlagT)>>),
  Tup(<<F("", IntT), FN("", "a", FlagT), FN("", "b", Opt(VecT(IntT)))>>),
  Tup(<<F("", VecT(ExT)), FN("", "a", NA(Opt(IntT)))>>),
  Rec(<<F("a", Opt(IntT)), F("b", Opt(IntT)), FU("o", Opt(IntT))>>),
  Filtered(Rec(<<F("a", NV(Opt(IntT))), FU("v", VecT(ExT))>>)),
  Unit>>
\* every kind of value that records a name
Spanned == <<NV(IntT), NV(Opt(IntT)), NA(IntT), NA(Opt(IntT)), NA(VecT(IntT)), NA(Opt(VecT(IntT)))>>
More == [i \in 1..6 |-> Rec(<<F("b", Opt(Spanned[i])), FN("x", "a", Opt(Spanned[(i % 6) + 1])), F("r", Map(Spanned[((i + 2) % 6) + 1]))>>)]
          \o [i \in 1..6 |-> Tup(<<F("", Opt(IntT)), FN("", "b", Opt(Spanned[i])), F("", Map(Spanned[(i % 6) + 1])), FN("", "a", Spanned[((i + 1) % 6) + 1])>>)]
TheDecls == TLCEval(Nested \o Tops \o More)
Good == {Fl("a"), Va("a", <<"1">>), Ar("a", <<"1">>), Fl("b"), Va("b", <<"1">>), Ar("b", <<"1", ",", "2">>),
         Fl("c"), Ar("c", <<>>), <<"1">>, Fl("k"), <<"1", "2">>, <<"a", "[", "]">>}
Inner == {Fl("x"), Va("z", <<"1">>), <<"1">>, Fl("w"), <<"x", "x">>}
InputsOf(d) ==
  (IF d = 8 THEN {Ar("a", t) : t \in ListsOf(Inner, 3)} \cup {<<"b", ",">> \o Ar("a", t) : t \in ListsOf(Inner, 2)} ELSE {})
  \cup ListsOf(Good, IF Deep THEN 3 ELSE 2)
  \cup {Join(<<x, y, x>>) : x \in {Fl("a"), Va("b", <<"1">>), Ar("a", <<"1">>), <<"1">>, Va("k", <<"1">>)},
                            y \in {Fl("b"), Va("a", <<"1">>), <<"1">>, Ar("b", <<"1">>)}}
  \cup {Join(<<<<"1">>, <<"2">>, x, y>>) : x \in {<<"3">>, Fl("a"), Fl("b"), Fl("z")}, y \in {<<"4">>, Fl("a"), Va("b", <<"1">>), Ar("z", <<>>)}}
  \cup {<<>>, <<"1", ",">>, <<"1", ",", "2", ",">>, <<"a", ",">>, <<"a", ",", "b", ",">>, <<"1", ",", ",">>, <<",">>,
        <<"1", ",", "2", "3">>, <<"a", "b">>, <<"1", "a">>, Ar("b", <<"1", "2">>), Ar("c", <<"1", ",", ",">>),
        <<"a", "==", "1">>, <<"=", "1">>, <<"(", "a", ")">>, Ar("a", <<"1", "x">>) \o <<",", "b">>}
Init == \E d \in 2..Len(TheDecls) : m = [ph |-> "pick", d |-> d]
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
