------------------------------- MODULE MC_C07 -------------------------------
(* All balanced token sequences up to a length, over names, values, commas, *)
(* `=` and parentheses, against declarations with nested lists and structs. *)
EXTENDS MCBase
N == IF Deep THEN 7 ELSE 5
\* the nested ones come first, so that MetaT can refer to them
Nested == <<Rec(<<F("a", Opt(IntT)), FU("u", VecT(IntT))>>), Unit>>
Tops == <<
  Rec(<<F("a", Opt(NA(MetaT(1)))), FU("u", Opt(IntT))>>),
  Rec(<<F("a", Opt(NA(Opt(VecT(IntT)))))>>),
  Rec(<<F("a", Opt(NA(IntT))), FU("u", VecT(IntT))>>),
  Tup(<<F("", IntT), F("", IntT), F("", Opt(IntT))>>),
  Rec(<<F("a", NV(Opt(IntT))), FU("u", IntT)>>),
  Rec(<<F("a", Opt(NA(T("TokenStream"))))>>),
  Rec(<<F("r", Map(VecT(IntT))), FU("u", Opt(IntT))>>),
  Rec(<<F("a", Opt(VecT(ExT)))>>),
  Rec(<<F("a", Opt(NA(MetaT(2)))), F("b", FlagT)>>),
  Rec(<<F("a", Opt(NA(Opt(MetaT(1)))))>>),
  Rec(<<FU("u", VecT(MetaT(2)))>>),
  Rec(<<F("a", Opt(NA(T("Pair")))), FU("u", Opt(T("Grp")))>>),
  Tup(<<F("", T("Grp")), F("", Opt(ExT)), F("", VecT(T("Grp")))>>),
  Rec(<<F("a", Opt(IntT)), FU("v", Opt(MetaT(1)))>>),
  Unit>>
\* every other kind of list, with fewer inputs
More == <<
  Rec(<<F("a", NA(Opt(IntT))), F("b", BoolT)>>),
  Rec(<<F("a", Opt(NA(VecT(IntT)))), F("b", Opt(NA(Opt(IntT))))>>),
  Rec(<<F("a", VecT(IntT)), FU("u", VecT(IntT))>>),
  Rec(<<F("r", Map(NA(IntT)))>>),
  Rec(<<F("r", Map(NA(Opt(IntT)))), FU("u", VecT(IntT))>>),
  Rec(<<F("r", Map(NA(VecT(IntT)))), F("a", BoolT)>>),
  Rec(<<F("r", Map(NA(Opt(VecT(IntT)))))>>),
  Rec(<<F("r", Map(NA(MetaT(1))))>>),
  Rec(<<F("r", Map(NV(Opt(IntT)))), FU("u", Opt(IntT))>>),
  Tup(<<F("", MetaT(2)), F("", VecT(IntT))>>),
  Rec(<<F("a", NA(MetaT(1))), F("b", FlagT)>>),
  Tup(<<F("", Opt(IntT)), F("", Opt(IntT)), F("", VecT(IntT))>>)>>
TheDecls == TLCEval(Nested \o Tops \o More)
Plain == {"a", "1", ",", "="}
RECURSIVE Bal(_)
Bal(n) == IF n = 0 THEN {<<>>}
          ELSE LET S == Bal(n - 1) IN
               S \cup {<<x>> \o s : x \in Plain, s \in {t \in S : Len(t) = n - 1}}
                 \cup UNION {{<<"(">> \o s \o <<")">> \o r : s \in {t \in S : Len(t) = k}, r \in {t \in S : Len(t) = n - 2 - k}} :
                               k \in 0..(n - 2)}
Inputs == TLCEval({t \in Bal(N) : TRUE})
\* longer, but only about separators
Seps == LET S == {<<"1">>, <<",">>, <<"a", "(">>, <<")">>} IN {t \in {Flat(x) : x \in SeqsUpTo(S, N + 1)} : Balanced(t)}
\* with other delimiters
Sub(t, o, c) == [i \in 1..Len(t) |-> CASE t[i] = "(" -> o [] t[i] = ")" -> c [] OTHER -> t[i]]
Inner(t, o, c) == LET i == CHOOSE i \in 1..Len(t) : t[i] = "(" IN
                  [j \in 1..Len(t) |-> IF j > i /\ j < Match(t, i) THEN Sub(t, o, c)[j] ELSE t[j]]
Paren == {t \in Bal(N - 1) : \E i \in 1..Len(t) : t[i] = "("}
Square == TLCEval({Sub(t, "[", "]") : t \in Paren} \cup {Sub(t, "{", "}") : t \in {u \in Paren : Len(u) < N - 1}}
                   \cup {Inner(t, "[", "]") : t \in Paren})
Few == TLCEval({t \in Bal(N - 1) : TRUE} \cup {Inner(t, "[", "]") : t \in {u \in Paren : Len(u) < N - 1}})
\* very long lists
Long(n) == LET ones == [i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN ToString(i) ELSE ","]
           IN {Ar("a", ones), Ar("a", Append(ones, ",")), Ar("a", ones) \o <<",", ",">>, Ar("a", [ones EXCEPT ![2 * n - 2] = "x"]), Ar("a", ones \o <<",", ",">>)}
\* a token that separates nothing, in place of another one or in between
Foreign == {";", ":", "->", "#", "$"}
Around == {<<"1">>, <<"a">>, Va("a", <<"1">>), Ar("a", <<"1">>), Ar("a", <<"1", ",", "1">>), Ar("a", <<"a", "=", "1">>), <<"1", ",", "1">>,
           <<"1", ",">>, Va("a", <<"1">>) \o <<",">>, Ar("a", <<"1", ",">>), <<"1", ",">> \o Ar("a", <<"1">>), Ar("a", <<"1">>) \o <<",", "b">>,
           <<"a", ",", "b">>, Ar("a", <<>>), <<"(", "x", ")">>, Ar("a", <<"x", ",", "x">>), <<"1", ",", "1", ",", "1">>}
Odd(t) == {SubSeq(t, 1, i) \o <<x>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), x \in Foreign}
          \cup {SubSeq(t, 1, i) \o <<x>> \o SubSeq(t, i + 2, Len(t)) : i \in 0..(Len(t) - 1), x \in Foreign}
OddOk == TLCEval({t \in UNION {Odd(u) : u \in Around} : Balanced(t)})
InputsOf(d) == OddOk \cup (IF d \in {4, 19} THEN Long(270) ELSE {}) \cup IF d <= Len(Nested \o Tops) THEN Inputs \cup Seps \cup Square ELSE Few \cup Seps
Init == \E d \in (IF Deep THEN 1 ELSE 3)..Len(TheDecls) : m = [ph |-> "pick", d |-> d]
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
