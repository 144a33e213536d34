------------------------------- MODULE MC_C02 -------------------------------
(* Two or three named parameters of every pair of kinds, in field orders    *)
(* that differ from the alphabetical one, named by identifier, raw          *)
(* identifier or attribute; every sub-multiset and order of arguments.      *)
EXTENDS MCBase
Kinds == <<BoolT, FlagT, IntT, Opt(IntT), VecT(IntT), Opt(VecT(IntT)), NV(IntT),
           NV(Opt(IntT)), NA(IntT), NA(Opt(VecT(IntT))), Opt(NV(Opt(IntT)))>>
K == Len(Kinds)
\* two parameters, their names in both orders, as record and as tuple
Pair(i, j, q) ==
  CASE q = 1 -> Rec(<<F("b", Kinds[i]), F("a", Kinds[j])>>)
    [] q = 2 -> Tup(<<FN("", "a", Kinds[i]), FN("", "b", Kinds[j])>>)
    [] q = 3 -> Rec(<<F("r#b", Kinds[i]), FN("b2", "a", Kinds[j])>>)
\* three parameters; field identifiers are permuted against the names
Tri(i, j, k) == Rec(<<FN("a", "c", Kinds[i]), FN("b", "a", Kinds[j]), FN("c", "b", Kinds[k])>>)
Pairs == {<<i, j, q>> : i \in 1..K, j \in 1..K, q \in IF Deep THEN 1..3 ELSE {1}}
           \cup {<<i, (i % K) + 1, q>> : i \in 1..K, q \in 2..3}
Tris == IF Deep THEN {<<i, j, k>> : i \in 1..K, j \in 1..K, k \in {2, 4, 5, 8, 10}}
        ELSE {<<2, 4, 5>>, <<5, 3, 1>>, <<8, 10, 4>>, <<3, 7, 9>>, <<11, 6, 2>>, <<1, 1, 1>>,
              <<4, 4, 4>>, <<2, 3, 5>>, <<10, 8, 3>>}
Shifted(i) == Rotate(Kinds, i)
Wides == {Rec(Wide(Shifted(i), 12)) : i \in {0, 3, 7}} \cup {Rec(Wide(<<FlagT>>, 12) \o <<F("r", Map(NV(Opt(IntT))))>>)}
           \cup {Rec(Wide(<<FlagT, BoolT>>, 12) \o <<F("r", Map(NA(Opt(IntT))))>>)}
           \cup {Tup([i \in 1..11 |-> FN("", WideNames[i], Shifted(5)[i])] \o <<F("", Map(IntT))>>)}
\* names that differ in little: all of them at once, and two by two
Alike == <<"get", "Get", "GET", "_get", "get_", "gets", "r#get", "ge">>
AlikeKinds == <<FlagT, Opt(IntT), BoolT, Opt(VecT(IntT)), Opt(NV(Opt(IntT))), Opt(NA(Opt(IntT))), FlagT, Opt(IntT)>>
Alikes == {Tup([i \in 1..8 |-> FN("", Alike[i], AlikeKinds[i])]), Tup([i \in 1..8 |-> FN("", Alike[9 - i], FlagT)]),
           Rec([i \in 1..6 |-> F(Alike[7 - i], Rotate(AlikeKinds, 1)[i])])}
          \cup {Rec(<<FN("q", Alike[i], FlagT), FN("r", Alike[(i % 8) + 1], IntT)>>) : i \in 1..8}
          \cup {Rec(<<FN("q", Alike[i], FlagT), FN("r", Alike[((i + 2) % 8) + 1], IntT)>>) : i \in 1..8}
\* long names, and names that are near to them: none of these is another's
Long == <<"release", "relative_path", "realm", "releases">>
NearLong == {"rel", "rele", "releas", "relative", "relative_pat", "relative_paths", "relativepath", "relative_Path", "Release", "RELEASE",
             "release_", "_release", "releasee", "path", "ease", "real", "rea", "relam", "realease", "lease"}
Longs == {Rec([i \in 1..4 |-> F(Long[i], <<FlagT, Opt(IntT), Opt(VecT(IntT)), BoolT>>[i])]),
          Tup(<<FN("", "relative_path", Opt(NV(Opt(IntT)))), FN("", "release", FlagT)>>),
          Rec(<<F("realm", FlagT), F("r", Map(NV(Opt(IntT)))), F("release", FlagT)>>)}
\* the other kinds, before and behind one of each style
Rare == {NA(Opt(IntT)), NA(VecT(IntT)), Opt(NA(IntT)), Opt(NA(VecT(IntT))), Opt(NA(Opt(IntT))), Opt(NA(Opt(VecT(IntT)))), Opt(NV(IntT)), StrT, ExT}
Rares == UNION {{Rec(<<F("b", x), F("a", y)>>), Tup(<<FN("", "b", y), FN("", "a", x), F("", Map(NA(Opt(IntT))))>>)} : x \in Rare, y \in {FlagT, Opt(IntT), Opt(VecT(IntT))}}
TheDecls == Family(Longs \cup Rares \cup Alikes \cup Wides \cup {Pair(x[1], x[2], x[3]) : x \in Pairs} \cup {Tri(x[1], x[2], x[3]) : x \in Tris})
\* the well-formed arguments of a parameter
ArgsFor(p) ==
  (IF TakesFlag(p.pt) THEN {Fl(p.name)} ELSE {})
   \cup (IF TakesValue(p.pt) THEN {Va(p.name, <<"1">>)} ELSE {})
   \cup (IF TakesArgs(p.pt) THEN {Ar(p.name, <<"1">>)} ELSE {})
InputsOf(d) ==
  LET c == Comp[d]
      S == UNION {ArgsFor(IF c.ps[k].role = "rest" THEN [c.ps[k] EXCEPT !.name = "z"] ELSE c.ps[k]) : k \in 1..Len(c.ps)}
      ns == SelectSeq(c.ps, LAMBDA p : p.role = "named")
      first == [k \in 1..Len(ns) |-> CHOOSE x \in ArgsFor(ns[k]) : \A y \in ArgsFor(ns[k]) : Len(x) <= Len(y)]
      last == [k \in 1..Len(ns) |-> CHOOSE x \in ArgsFor(ns[k]) : \A y \in ArgsFor(ns[k]) : Len(x) >= Len(y)]
      alike == \E k \in 1..Len(c.ps) : c.ps[k].name \in {"Get", "get", "_get"}
      long == \E k \in 1..Len(c.ps) : c.ps[k].name = "release"
  IN IF long THEN {Join(x) : x \in SeqsUpTo(S, 2)} \cup UNION {{Fl(n), Va(n, <<"1">>)} : n \in NearLong}
                   \cup {Join(<<x, y>>) : x \in S, y \in {Fl(n) : n \in NearLong}}
     ELSE IF alike THEN {Join(x) : x \in SeqsUpTo(S, 2)} \cup {Join(<<x, y>>) : x \in S, y \in UNION {{Fl(n), Va(n, <<"1">>)} : n \in {Alike[i] : i \in 1..8}}}
                   \cup (IF Len(c.ps) > 5 THEN WideLists(first) \cup WideLists(last) ELSE {})
     ELSE IF Len(c.ps) > 5 THEN WideLists(first) \cup WideLists(last) \cup UNION {ArgsFor(ns[k]) : k \in 1..Len(ns)} ELSE Trailing({Join(x) : x \in Arrangements(S, 3)})
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
