------------------------------- MODULE MC_C09 -------------------------------
(* Diagnostics: (1) all pairs of an unknown name and a set of declared      *)
(* names over a small alphabet; (2) all wrong styles of known names;        *)
(* (3) duplicates, missing parameters and missing unnamed arguments.        *)
EXTENDS MCBase
Alpha == {"a", "b"}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE LET W == Words(n - 1) IN W \cup {c \o w : c \in Alpha, w \in W}
Decl3 == Words(3) \ {""}
W4 == {"abab", "aabb", "baba", "abba"}
Flags(S) == LET s == SetToSeq(S) IN Rec([i \in 1..Len(s) |-> F(s[i], FlagT)])
\* the same names spread over the three styles
Mixed(S) == LET s == SetToSeq(S) IN
            Rec([i \in 1..Len(s) |-> F(s[i], CASE i = 1 -> Opt(VecT(IntT)) [] i = 2 -> FlagT [] i = 3 -> Opt(IntT))])
Sets2 == {S \in SUBSET Decl3 : Cardinality(S) \in 1..2}
Sets3 == {{x, y, z} : x \in {"ab", "aba", "a"}, y \in {"abb", "ba", "b"}, z \in {"bab", "aab", "bb", "aaa"}}
SimDecls == {Tag(<<"sim">>, Mixed(S)) : S \in Sets2} \cup
            (IF Deep THEN {Tag(<<"sim">>, Mixed(S)) : S \in {S \in SUBSET Decl3 : Cardinality(S) = 3}}
             ELSE {Tag(<<"sim">>, Mixed(S)) : S \in Sets3})
            \cup {Tag(<<"sim">>, Mixed({x, y})) : x \in W4, y \in W4}
            \cup {Tag(<<"sim">>, Mixed({"name", "value", x})) : x \in {"args", "nam", "values"}}
\* real names: edits of longer words
Typos == {"nmae", "naem", "nme", "namee", "bame", "valeu", "vlaue", "alue", "args", "arsg", "NAME", "nam"}
\* (2) styles: own styles of `a` x rest styles x another parameter
Own == <<FlagT, BoolT, Opt(IntT), NV(Opt(IntT)), Opt(VecT(IntT)), NA(Opt(IntT)), Opt(NA(IntT))>>
Rests == <<<<>>, <<F("r", Map(IntT))>>, <<F("r", Map(VecT(IntT)))>>, <<F("r", Map(NV(Opt(IntT))))>>, <<F("r", Map(NA(Opt(IntT))))>>>>
StyleDecls ==
  {Tag(<<"style">>, Rec(<<F("a", Own[i])>> \o Rests[j])) : i \in 1..Len(Own), j \in 1..Len(Rests)}
  \cup {Tag(<<"style">>, Rec(<<F("a", Own[i]), F("b", FlagT), F("c", Opt(IntT)), F("d", Opt(VecT(IntT)))>>)) : i \in 1..Len(Own)}
  \cup {Tag(<<"style">>, Rec(<<F("a", Own[i]), FU("u", Opt(IntT)), F("c", Opt(IntT))>>)) : i \in 1..Len(Own)}
  \cup {Tag(<<"style">>, Tup(<<FN("", "a", Own[i]), FN("", "x y", FlagT)>>)) : i \in 1..Len(Own)}
\* (the other kinds, one at a time)
Own2 == <<NV(IntT), NA(IntT), NA(VecT(IntT)), Opt(NV(Opt(IntT))), Opt(NA(Opt(VecT(IntT)))), Opt(NA(Opt(IntT))), StrT>>
Rests2 == <<NV(IntT), NA(IntT), NA(VecT(IntT)), NA(Opt(VecT(IntT)))>>
StyleDecls2 == {Tag(<<"style">>, Rec(<<FN("x", "a", Own2[i]), F("b", Own[i]), FU("u", VecT(IntT))>>)) : i \in 1..Len(Own2)}
                \cup {Tag(<<"style">>, Rec(<<F("r", Map(Rests2[j])), F("b", Own[i])>>)) : i \in {1, 3, 5}, j \in 1..Len(Rests2)}
\* (3) required parameters of every kind, up to three unnamed
Req == <<IntT, NV(IntT), VecT(IntT), NA(IntT), NA(VecT(IntT)), NV(Opt(IntT)), NA(Opt(VecT(IntT)))>>
MissDecls ==
  {Tag(<<"miss">>, Rec(<<F("a", Req[i])>>)) : i \in 1..Len(Req)}
  \cup {Tag(<<"miss">>, Rec(<<FN("r#fn", "type", Req[i]), F("r#in", Req[j])>>)) : i \in 1..Len(Req), j \in 1..Len(Req)}
  \cup {Tag(<<"miss">>, Tup([x \in 1..k |-> F("", IntT)] \o <<FN("", "a", Req[i])>>)) : k \in 1..4, i \in 1..2}
Del(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
Swap(s) == {SubSeq(s, 1, i - 1) \o Ch(s, i + 1) \o Ch(s, i) \o SubSeq(s, i + 2, Len(s)) : i \in 1..(Len(s) - 1)}
\* long names: every edit, and pairs of edits
Long == "abcdefgh"
Alter(s) == Del(s) \cup Swap(s)
             \cup {SubSeq(s, 1, i) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), c \in {"z", "a", "^"}}
             \cup {SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s), c \in {"z", "@"}}
Far1 == {SubSeq(s, 1, Len(s) - 1) : s \in Alter(Long)} \cup {"bacdefhg", "zabcdefghz", "abcdhefg", "bcdefgha", "abcdefghabcdefgh", "hgfedcba"}
LongDecls == {Tag(<<"long">>, Mixed(S)) : S \in {{Long}, {Long, "abcdefg"}, {Long, "abcdefgz"}, {Long, "bacdefgh"}, {Long, "abdcefgh", "z"}}}
\* ... of every length, with edits at the ends and in the middle
Base == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lengths == IF Deep THEN 9..100 ELSE {9, 11, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100}
At3(s) == {1, Len(s) \div 2, Len(s) - 1}
SomeEdits(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in At3(s) \cup {Len(s)}}
   \cup {SubSeq(s, 1, i - 1) \o Ch(s, i + 1) \o Ch(s, i) \o SubSeq(s, i + 2, Len(s)) : i \in At3(s)}
   \cup {SubSeq(s, 1, i) \o "_" \o SubSeq(s, i + 1, Len(s)) : i \in At3(s) \cup {Len(s)}}
   \cup {SubSeq(s, 1, i - 1) \o "_" \o SubSeq(s, i + 1, Len(s)) : i \in At3(s) \cup {Len(s)}}
   \cup {SubSeq(s, 3, Len(s)), SubSeq(s, 1, Len(s) - 2), "_" \o s \o "_"}
LengthDecls == {Tag(<<"length", n>>, Mixed({SubSeq(Base, 1, n), "zz"})) : n \in Lengths}
UniDecls == {Tag(<<"uni">>, Mixed(S)) : S \in {{"^"}, {"n^", "@e"}, {"gr^@e"}, {"a^", "^"}, {"&", "%"}}}
UniWords == {"e", "^", "@^", "ne", "nee", "en", "gr^sse", "gr^@", "gr@^e", "groe@e", "&a", "%^", "a^^", "@", "%%"}
WideDecls == {Tag(<<"wide">>, Rec(Wide(Rotate(Req, i), 12))) : i \in 0..2}
TheDecls == Family(LengthDecls \cup LongDecls \cup UniDecls \cup WideDecls \cup SimDecls \cup StyleDecls \cup StyleDecls2 \cup MissDecls)
InputsOf(d) ==
  CASE TagOf(d)[1] = "sim" ->
         {Fl(w) : w \in Decl3 \cup {"abab", "aaaa", "c", "ac", "cab"}}
           \cup (IF Comp[d].names.flag \cap {"name", "value"} # {} THEN {Fl(w) : w \in Typos} \cup {Va(w, <<"1">>) : w \in Typos} ELSE {})
           \cup {Va("aab", <<"1">>), Ar("ba", <<>>)}
    [] TagOf(d)[1] = "style" ->
         UNION {{Fl(n), Va(n, <<"1">>), Ar(n, <<"1">>), <<n, "1">>, <<n, "[", "]">>, <<n, "==", "1">>} : n \in {"a", "b", "e"}}
           \cup {Join(<<x, x>>) : x \in {Fl("a"), Va("a", <<"1">>), Ar("a", <<"1">>), Va("k", <<"1">>), Ar("k", <<"1">>)}}
           \cup {Join(<<Fl("a"), Va("a", <<"1">>)>>), Join(<<Ar("a", <<"1">>), Fl("b"), Fl("a")>>)}
    [] TagOf(d)[1] = "long" -> {Fl(w) : w \in Alter(Long) \cup Far1}
    [] TagOf(d)[1] = "length" -> {Fl(w) : w \in SomeEdits(SubSeq(Base, 1, TagOf(d)[2]))} \cup {Va(w, <<"1">>) : w \in SomeEdits(SubSeq(Base, 1, TagOf(d)[2]))}
    [] TagOf(d)[1] = "uni" -> {Fl(w) : w \in UniWords} \cup {Va(w, <<"1">>) : w \in UniWords}
    [] TagOf(d)[1] = "wide" ->
         WideLists([k \in 1..Len(Comp[d].ps) |-> IF TakesValue(Comp[d].ps[k].pt) THEN Va(Comp[d].ps[k].name, <<"1">>)
                                                ELSE Ar(Comp[d].ps[k].name, <<"1">>)])
    [] TagOf(d)[1] = "miss" ->
         {<<>>} \cup {Join([x \in 1..k |-> <<"1">>]) : k \in 1..4}
           \cup {<<"in", "=", "1">>, <<"in", "(", "1", ")">>, <<"type", "=", "1">>, <<"type", "(", "1", ")">>, <<"a", "=", "1">>, <<"in">>}

(* The suggestion, declared: one edit away, and closest alone.             *)
OneOff(s, t) ==                          \* insertion, deletion or substitution
  \/ t \in Del(s) \/ s \in Del(t)
  \/ Len(s) = Len(t) /\ Cardinality({i \in 1..Len(s) : Ch(s, i) # Ch(t, i)}) = 1
Rank(s, t) == IF s = t THEN 0 ELSE IF OneOff(s, t) THEN 1 ELSE IF t \in Swap(s) THEN 2 ELSE 9
Suggested(c, w, n) == n \in AllNames(c) /\ Rank(w, n) < 9 /\ \A o \in AllNames(c) \ {n} : Rank(w, n) < Rank(w, o)
C09 ==
  (m.ph = "done" /\ Result.cls = "unknown") =>
  LET c == Comp[m.d]  w == m.toks[Result.at]  S == {n \in AllNames(c) : Suggested(c, w, n)} IN
  /\ \A n \in AllNames(c) : Rank(w, n) = Distance(w, n)
  /\ Result.msg = "cannot find parameter `" \o w \o "` in this scope"
        \o (IF S = {} THEN "" ELSE " (help: a parameter with a similar name exists: `" \o (CHOOSE n \in S : TRUE) \o "`)")
\* The message of a wrong style lists exactly the styles the name may take.
Mentions(msg, x) == \E i \in 0..(Len(msg) - Len(x)) : SubSeq(msg, i + 1, i + Len(x)) = x
C09Style ==
  (m.ph = "done" /\ Result.cls = "style") =>
  LET c == Comp[m.d]  w == m.toks[Result.at]
      exp == SubSeq(Result.msg, 1, Len(Result.msg) - Len(FoundText(StyleAt(m.toks, Result.at, m.e), w)))
  IN \A st \in {"flag", "value", "args"} :
       Mentions(exp, StyleText(st, w)) <=> Owner(c, w, st) # 0
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
