------------------------------- MODULE MC_C11 -------------------------------
(* Every spelling of every recognised type, alone and inside one another,   *)
(* and user types of the same names under other paths, in other scopes,     *)
(* as associated types, and with other generic arguments.                   *)
EXTENDS MCBase

IntC == [p |-> <<>>, n |-> "3", a |-> <<>>, q |-> "const"]
Sp(p, q, n, as) == [p |-> p, n |-> n, a |-> as, q |-> q]
PathTails(h) == {SubSeq(h, k, Len(h)) : k \in 1..(Len(h) + 1)}

\* written so that it is recognised
Good(n, as) ==
  UNION {{Sp(p, "", n, as) : p \in PathTails(h)} \cup {Sp(h, "::", n, as), Sp(h, "group", n, as)} : h \in Homes[n]}
  \cup {Sp(<<>>, "group", n, as), Sp(<<>>, "group2", n, as)}
\* written so that it is not, and still a value type
Modules == {"std", "core", "alloc", "option", "vec", "collections", "hash_map", "string", "primitive", "structmeta"}
NearPaths == {<<"near">>, <<"vharness", "near">>, <<"self", "near">>, <<"crate", "near">>,
              <<"near", "option">>, <<"near", "vec">>, <<"near", "collections">>, <<"near", "hash_map">>, <<"near", "string">>,
              <<"near", "primitive">>, <<"near", "structmeta">>, <<"near", "std", "option">>, <<"near", "std", "vec">>,
              <<"near", "core", "option">>, <<"near", "alloc", "vec">>, <<"near", "std", "collections">>,
              <<"near", "std", "collections", "hash_map">>, <<"near", "std", "primitive">>, <<"near", "std", "string">>}
UserPaths(n) == {p \in {<<x>> : x \in Modules} \cup {<<"std", "option">>, <<"std", "vec">>, <<"core", "vec">>, <<"alloc", "option">>,
                     <<"std", "structmeta">>, <<"structmeta", "option">>, <<"alloc", "primitive">>, <<"collections", "option">>,
                     <<"hash_map", "collections">>, <<"std", "hash_map">>, <<"core", "collections">>, <<"alloc", "collections">>,
                     <<"core", "string">>, <<"option", "option">>, <<"std", "std", "option">>, <<"structmeta", "structmeta">>} :
                   \A h \in Homes[n] : ~IsSuffix(p, h)}
Few(S) == IF Deep THEN S ELSE {<<"near">>, <<"near", "option">>, <<"near", "std", "vec">>, <<"near", "structmeta">>} \cap S
Near(n, as, paths) == {Sp(p, "", n, as) : p \in paths} \cup {Sp(<<"vharness", "near">>, "::", n, as), Sp(<<"near">>, "group", n, as)}
User(n, as) == {Sp(p, "user", n, as) : p \in UserPaths(n)}
Assoc(n, as) == {Sp(<<IF n \in {"Option"} THEN "option" ELSE IF n = "Vec" THEN "vec" ELSE IF n = "HashMap" THEN "collections"
                      ELSE IF n = "bool" THEN "primitive" ELSE "structmeta">>, "qself", n, as), Sp(<<>>, "param", n, as), Sp(<<"T">>, "param2", n, as)}
OtherArgs(n) ==
  CASE n = "HashMap" -> {Sp(<<>>, "more", n, <<T("LitStr"), StrT, IntT>>), Sp(<<>>, "fewer", n, <<IntT>>), Sp(<<>>, "fewer", n, <<>>),
                         Sp(<<>>, "more", n, <<Sp(<<>>, "", "String", <<IntT>>), IntT, IntT>>)}
    [] n \in {"Flag", "bool"} -> {Sp(<<>>, "more", n, <<IntT>>)}
    [] OTHER -> {Sp(<<>>, "more", n, <<StrT, IntT>>), Sp(<<>>, "fewer", n, <<>>), Sp(<<>>, "constant", n, <<IntC>>)}

Args(n) == CASE n \in {"bool", "Flag"} -> <<>> [] n = "HashMap" -> <<T("String"), IntT>> [] OTHER -> <<IntT>>
Names == {"Option", "Vec", "bool", "Flag", "NameValue", "NameArgs", "HashMap"}
GoodOf(n) == Good(n, Args(n))
Bad(n) == Near(n, Args(n), NearPaths) \cup User(n, Args(n)) \cup Assoc(n, Args(n)) \cup OtherArgs(n)
\* maps whose key is no String
BadKeys == {Sp(p, "", "HashMap", <<k, IntT>>) : p \in {<<"near">>}, k \in {T("LitStr"), Sp(<<"near">>, "", "String", <<>>)}}
  \cup {Sp(<<mo>>, "user", "HashMap", <<k, IntT>>) : mo \in {"collections", "hash_map"},
            k \in {T("LitStr"), IntT, Sp(<<"near">>, "", "String", <<>>), Sp(<<"near">>, "group", "String", <<>>), Opt(T("String"))}}

All == UNION {GoodOf(n) \cup Bad(n) : n \in Names} \cup BadKeys
\* (the other field is spelled so that no scope changes it)
B == Sp(<<"std", "option">>, "::", "Option", <<IntT>>)
Alone == {Rec(<<F("a", t), F("b", B)>>) : t \in All}
\* unnamed: Option and Vec change the role, the others are not allowed when recognised
NoNames == 
  {[shape |-> "tup", filter |-> FALSE, fields |-> <<F("", t), FN("", "b", Sp(<<"structmeta">>, "::", "Flag", <<>>))>>] :
      t \in GoodOf("Option") \cup GoodOf("Vec") \cup UNION {Bad(n) : n \in Names} \cup BadKeys}
\* inside one another: the outer one plain
Inner(n) == Good(n, <<IntT>>) \cup Near(n, <<IntT>>, Few(NearPaths))
Nested ==
  {NA(t) : t \in Inner("Option") \cup Inner("Vec")} \cup {NV(t) : t \in Inner("Option") \cup Near("Vec", <<IntT>>, Few(NearPaths))}
  \cup {Opt(t) : t \in Inner("Vec") \cup Inner("NameValue") \cup Inner("NameArgs") \cup Near("Flag", <<>>, Few(NearPaths)) \cup Near("bool", <<>>, Few(NearPaths))}
  \cup {NA(T1("Option", t)) : t \in Inner("Vec")} \cup {Opt(NA(T1("Option", t))) : t \in Inner("Vec")}
  \cup {Opt(NV(t)) : t \in Inner("Option")}
  \cup {T2("HashMap", k, IntT) : k \in Good("String", <<>>)}
  \cup {Map(t) : t \in Inner("Vec") \cup Inner("NameValue") \cup Inner("NameArgs")} \cup {Map(NV(t)) : t \in Inner("Option")}
  \cup {Map(NA(Opt(t))) : t \in Inner("Vec")}
  \* ... and the outer one spelled out, too
  \cup {Sp(<<"structmeta">>, "::", "NameArgs", <<Sp(<<"std", "option">>, "", "Option", <<t>>)>>) : t \in Good("Vec", <<IntT>>)}
  \cup {Sp(h, "", "HashMap", <<k, Sp(<<"structmeta">>, "group", "NameValue", <<Sp(<<"option">>, "", "Option", <<IntT>>)>>)>>) :
          h \in UNION {PathTails(x) : x \in Homes.HashMap}, k \in Good("String", <<>>)}
\* a map that is given a name is a named parameter of that (user) type, and no rest parameter
NamedMaps ==
  {Rec(<<FN(id, "k", t), F("b", B)>>) : id \in {"a", "k"},
     t \in {Sp(<<mo>>, "user", "HashMap", <<k, IntT>>) : mo \in {"collections", "hash_map"}, k \in Good("String", <<>>)}}
  \cup {Rec(<<FN("a", "k", Sp(<<"collections">>, "user", "HashMap", <<T("String"), IntT>>)), F("b", Map(IntT))>>)}
  \cup {[shape |-> "tup", filter |-> FALSE, fields |->
            <<FN("", "a", Sp(<<"collections">>, "user", "HashMap", <<T("String"), IntT>>)), FN("", "b", Sp(<<"structmeta">>, "::", "Flag", <<>>))>>]}
NestedDecls == {Rec(<<F("a", t), F("b", B)>>) : t \in Nested}

TheDecls == Family(Alone \cup NoNames \cup NestedDecls \cup NamedMaps)
Forms == {Fl("a"), Va("a", <<"1">>), Ar("a", <<"1">>), Ar("a", <<"1", ",", "2">>), Ar("a", <<>>), <<"1">>, Fl("k"), Va("k", <<"1">>),
          Ar("k", <<"1", ",", "2">>), <<"1", ",", "2">>, Va("b", <<"2">>)}
InputsOf(d) == {<<>>} \cup Forms \cup {Join(<<x, y>>) : x \in {Fl("a"), Va("a", <<"1">>), Ar("a", <<"1">>), <<"1">>}, y \in {Va("b", <<"2">>), Fl("b"), Fl("k"), Ar("a", <<"2">>)}}
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m

\* the derive's matcher (segment by segment from the end) is the suffix relation
MatcherIsSuffix == \A i \in 1..Len(Decls) : \A k \in 1..Len(Decls[i].fields) : \A n \in DOMAIN Homes :
  LET t == Decls[i].fields[k].ty IN Recognised(t, n) = MatcherRecognised(t, n)
\* no declaration of the family is illegal
NoBad == \A i \in 1..Len(Decls) : \A k \in 1..Len(Comp[i].ps) : Comp[i].ps[k].role # "bad"
\* all spellings of one recognised type mean the same
SameMeaning == \A n \in Names : \A t, u \in GoodOf(n) :
   LET x == ParamOf(F("a", t))  y == ParamOf(F("a", u))
   IN x.role = y.role /\ x.opt = y.opt /\ x.pt.k = y.pt.k /\ x.pt.vec = y.pt.vec
\* and no spelling that is not recognised means anything but a value
BadMeansValue == \A n \in Names : \A t \in Bad(n) : LET x == ParamOf(F("a", t)) IN x.role = "named" /\ x.pt.k = "value" /\ ~x.pt.vec /\ ~x.opt
ASSUME MatcherIsSuffix /\ NoBad /\ SameMeaning /\ BadMeansValue
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
