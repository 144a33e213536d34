------------------------------- MODULE MC_C21 -------------------------------
(* Arguments of which parts come from macro fragments.                      *)
EXTENDS MCBase, Invisible

Nested == <<Rec(<<F("a", Opt(IntT)), FU("u", VecT(IntT))>>), Unit>>
Tops == <<
  Rec(<<F("a", Opt(NA(MetaT(1)))), FU("u", Opt(IntT))>>),
  Rec(<<F("a", Opt(NA(Opt(VecT(IntT))))), FU("u", VecT(ExT))>>),
  Rec(<<F("a", NA(IntT)), F("b", FlagT)>>),
  Tup(<<F("", IntT), F("", Opt(IdT)), F("", VecT(T("Grp")))>>),
  Rec(<<F("a", NV(Opt(IntT))), FU("u", ExT), FU("v", Opt(ExT))>>),
  Rec(<<F("r", Map(VecT(IntT))), F("a", BoolT), FU("u", Opt(ExT))>>),
  Rec(<<F("r", Map(NV(Opt(ExT)))), F("b", Opt(StrT))>>),
  Rec(<<F("a", Opt(NA(Opt(MetaT(1))))), F("b", Opt(ExT))>>),
  Rec(<<F("a", Opt(VecT(ExT))), F("b", NV(ExT))>>),
  Rec(<<F("a", Opt(T("LitBool"))), F("b", Opt(NA(T("Pair")))), FU("u", VecT(IdT))>>),
  Filtered(Rec(<<F("a", FlagT), F("b", Opt(NV(Opt(IntT)))), FU("u", VecT(ExT))>>)),
  Rec(<<F("a", Opt(NA(T("TokenStream")))), F("r", Map(NA(Opt(IdT)))), FU("u", Opt(T("AnyIdent")))>>)>>
TheDecls == TLCEval(Nested \o Tops)
V == {<<"1">>, <<"x">>, <<"-", "1">>, <<"x", "(", "1", ")">>, <<"(", "x", ")">>, <<"1", "-", "x">>}
Args == {<<"a">>, <<"b">>, <<"A">>, <<"type">>, <<"'s">>, <<"a", "(", ")">>, <<"a", "(", "1", ",", "1", ")">>, <<"a", "(", "a", "=", "1", ")">>,
         <<"b", "(", "x", ",", "y", ")">>, <<"z", "=", "'s">>, <<"a", "=", "true">>, <<"a", "[", "1", "]">>, <<"a", "(", "1", ",", ")">>}
          \cup V \cup {<<n, "=">> \o v : n \in {"a", "b", "z"}, v \in V} \cup {<<n, "(">> \o v \o <<")">> : n \in {"a", "z"}, v \in V}
Firsts == {<<"1">>, <<"b">>, <<"a", "=", "1">>, <<"z", "(", "1", ")">>, <<"x">>}
\* the fragments: arguments, values and names with their list
ArgOf(t) == {<<i, j>> : i \in {k \in 1..Len(t) : k = 1 \/ t[k - 1] = ","}, j \in {k \in 2..(Len(t) + 1) : k = Len(t) + 1 \/ t[k] = ","}}
Frags(t) == {x \in ArgOf(t) \cup {<<y[1] + 2, y[2]>> : y \in {z \in ArgOf(t) : z[2] > z[1] + 2 /\ t[z[1] + 1] = "="}} :
              x[1] < x[2] /\ Balanced(SubSeq(t, x[1], x[2] - 1)) /\ \A i \in x[1]..(x[2] - 1) : t[i] = "," => \E g \in Groups(t) : x[1] <= g[1] /\ g[2] <= x[2] /\ g[1] < i /\ i < g[2]}
Inputs == TLCEval(Args \cup {Join(<<x, y>>) : x \in Firsts, y \in IF Deep THEN Args ELSE {z \in Args : Len(z) < 5}}
                    \cup (IF Deep THEN {Join(<<x, y, z>>) : x \in Firsts, y \in Firsts, z \in Args} ELSE {}))
Init == \E d \in 3..Len(TheDecls) : m = [ph |-> "pick", d |-> d]
Pick == m.ph = "pick" /\ \E t \in Inputs : \E w \in Wraps(t, Frags(t)) : m' = Start(m.d, t, 1, Len(t) + 1) @@ [g |-> w]
Spec == Init /\ [][Pick \/ Running]_m
EmitG == m.ph = "done" => PrintT("@V " \o ToJson(Vector @@ [g |-> m.g]))
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
