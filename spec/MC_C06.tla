------------------------------- MODULE MC_C06 -------------------------------
(* Every combination of declared styles (by a parameter or by a rest map),  *)
(* of unnamed parameters (none, optional, variadic; of three value types)   *)
(* and of the filter; every way an argument can start.                      *)
EXTENDS MCBase
\* styles declared: a set of fields giving exactly those styles
NamedFor(st) ==
  CASE st = {} -> <<>>
    [] st = {"flag"} -> <<F("a", FlagT)>>
    [] st = {"value"} -> <<F("a", Opt(IntT))>>
    [] st = {"args"} -> <<F("a", Opt(VecT(IntT)))>>
    [] st = {"flag", "value"} -> <<F("a", Opt(NV(Opt(IntT))))>>
    [] st = {"flag", "args"} -> <<F("a", Opt(NA(Opt(VecT(IntT)))))>>
    [] st = {"value", "args"} -> <<F("a", Opt(IntT)), F("b", Opt(VecT(IntT)))>>
    [] st = {"flag", "value", "args"} -> <<F("a", Opt(NV(Opt(IntT)))), F("b", Opt(VecT(IntT)))>>
RestFor(st) ==
  CASE st = {} -> <<>>
    [] st = {"value"} -> <<F("r", Map(IntT))>>
    [] st = {"args"} -> <<F("r", Map(VecT(IntT)))>>
    [] st = {"flag", "value"} -> <<F("r", Map(NV(Opt(IntT))))>>
    [] st = {"flag", "args"} -> <<F("r", Map(NA(Opt(VecT(IntT)))))>>
    [] OTHER -> <<>>
Styles == SUBSET {"flag", "value", "args"}
UnnamedFor(u) ==
  CASE u = 0 -> <<>>
    [] u = 1 -> <<FU("u", Opt(ExT))>>
    [] u = 2 -> <<FU("u", VecT(ExT))>>
    [] u = 3 -> <<FU("u", Opt(IdT)), FU("w", Opt(ExT))>>
    [] u = 4 -> <<FU("q", IntT)>>
    [] u = 5 -> <<FU("q", ExT), FU("u", Opt(ExT))>>
    [] u = 6 -> <<FU("u", VecT(T("TokenStream")))>>
    [] u = 7 -> <<FU("u", VecT(T("AnyIdent")))>>
Filter(fl, d) == IF fl THEN Filtered(d) ELSE d
TheDecls == Family(
  {Filter(fl, Rec(UnnamedFor(u) \o NamedFor(st))) : fl \in BOOLEAN, u \in 0..5, st \in Styles}
  \cup {Filter(fl, Rec(NamedFor(st) \o UnnamedFor(u) \o RestFor(rt))) :
           fl \in BOOLEAN, u \in (IF Deep THEN 0..5 ELSE {0, 1}), st \in (IF Deep THEN Styles ELSE {{}, {"flag"}, {"args"}}), rt \in Styles}
  \cup {Rec(UnnamedFor(u) \o NamedFor(st)) : u \in 6..7, st \in Styles})
Idents == {"a", "b", "z", "type", "self", "r#a", "A", "fooBar", "x1", "_", "^", "a@", "%", "r#^", "&"}
Follow == {<<>>, <<"=", "1">>, <<"=~", "-", "1">>, <<"==", "1">>, <<"=>", "1">>, <<"(", "1", ")">>, <<"(", ")">>,
           <<"[", "1", "]">>, <<"1">>, <<"=", "=", "1">>, <<"(", "1", ")", "(", ")">>, <<"(", "1", ")", "==", "1">>, <<"=">>,
           <<"=~", "!", "a">>, <<"=~", "*", "a">>, <<"=", "*", "1">>, <<"!", "(", "1", ")">>, <<"!", "1">>, <<"*", "1">>, <<"*">>}
FollowS == {<<>>, <<"=", "1">>, <<"=~", "-", "1">>, <<"(", "1", ")">>, <<"==", "1">>}
Starts == {<<"1">>, <<"(", "1", ")">>, <<"'s">>, <<"-", "a">>, <<"=", "1">>, <<"(", ")">>, <<"[", "a", "]">>, <<"==", "a">>, <<"!", "a">>, <<"*", "a">>}
Args == {<<i>> \o f : i \in {"a", "z", "type"}, f \in Follow}
         \cup {<<i>> \o f : i \in Idents, f \in FollowS} \cup Starts
InputsOf(d) ==
  LET q == Comp[d].req # <<>> IN
  IF q THEN {<<"1", ",">> \o x : x \in Args} \cup Args
  ELSE Args \cup {x \o <<",">> : x \in {<<"a">>, <<"z">>, <<"type">>, <<"A">>}}
       \cup (IF Deep THEN {Join(<<x, y>>) : x \in Args, y \in {<<"a">>, <<"z", "=", "1">>, <<"1">>}}
                               \cup {Join(<<y, x>>) : x \in Args, y \in {<<"a">>, <<"z", "=", "1">>, <<"1">>}}
             ELSE {Join(<<<<"1">>, <<i>> \o f>>) : i \in {"a", "type"}, f \in FollowS})
\* C06, as an invariant: how the machine treats the argument at hand is the rule.
Rule ==
  m.ph = "arg" =>
    LET c == Comp[m.d]
        p == m.p
        named == /\ IsIdent(m.toks[p]) \/ IsRaw(m.toks[p])
                 /\ c.filter => SnakeOk(m.toks[p])
                 /\ \E st \in {"flag", "value", "args"} :
                      /\ CASE st = "flag" -> p + 1 = m.e \/ m.toks[p + 1] = ","
                           [] st = "value" -> p + 1 < m.e /\ IsEq(m.toks[p + 1])
                           [] st = "args" -> p + 1 < m.e /\ m.toks[p + 1] = "("
                      /\ StyleDeclared(c, st) \/ ~HasOptionalUnnamed(c)
    IN /\ G_Name(m) => named
       /\ named => ~G_NotName(m)
       /\ HasOptionalUnnamed(c) /\ ~named => G_NotName(m)
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
