------------------------------- MODULE MC_C03 -------------------------------
(* The table "type x style": every supported parameter type, as a field,    *)
(* inside Option and as the value type of a rest map, alone and next to     *)
(* other parameters, against every form an argument can take.               *)
EXTENDS MCBase
\* The documented table, written out: type, styles, and for each style the
\* variant of the value (none of this is derived from Types.tla).
Row(t, f, v, a) == [t |-> t, f |-> f, v |-> v, a |-> a]
Table == <<
  Row(IntT,               FALSE, TRUE,  FALSE),
  Row(StrT,               FALSE, TRUE,  FALSE),
  Row(ExT,                FALSE, TRUE,  FALSE),
  Row(VecT(IntT),         FALSE, FALSE, TRUE),
  Row(NV(IntT),           FALSE, TRUE,  FALSE),
  Row(NV(Opt(IntT)),      TRUE,  TRUE,  FALSE),
  Row(NA(IntT),           FALSE, FALSE, TRUE),
  Row(NA(Opt(IntT)),      TRUE,  FALSE, TRUE),
  Row(NA(VecT(IntT)),     FALSE, FALSE, TRUE),
  Row(NA(Opt(VecT(IntT))),TRUE,  FALSE, TRUE)>>
FlagTable == <<Row(BoolT, TRUE, FALSE, FALSE), Row(FlagT, TRUE, FALSE, FALSE)>>
\* role of the type: 1 the field itself, 2 inside Option, 3 rest map, 4 flag types
Rows == {<<i, r>> : i \in 1..Len(Table), r \in 1..3} \cup {<<i, 4>> : i \in 1..2}
RowOf(x) == IF x[2] = 4 THEN FlagTable[x[1]] ELSE Table[x[1]]
FieldTy(x) == CASE x[2] \in {1, 4} -> RowOf(x).t [] x[2] = 2 -> Opt(RowOf(x).t)
                [] x[2] = 3 -> Map(RowOf(x).t)
\* contexts: alone; tuple; next to an optional unnamed parameter; next to
\* parameters of all three styles
Ctx(x, q) ==
  LET f == F("a", FieldTy(x))
      tf == IF x[2] = 3 THEN [f EXCEPT !.id = ""] ELSE FN("", "a", FieldTy(x))
  IN CASE q = 1 -> Rec(<<f>>)
       [] q = 2 -> Tup(<<tf>>)
       [] q = 3 -> Rec(<<f, FU("u", Opt(IntT))>>)
       [] q = 4 -> Rec(<<F("p", Opt(IntT)), f, F("q", Opt(VecT(IntT))), F("s", FlagT)>>)
All == {<<x, q>> : x \in Rows, q \in 1..4}
TheDecls == Family({Tag(x, Ctx(x[1], x[2])) : x \in All})
Forms == {Fl("a"), Va("a", <<"1">>), Va("a", <<"'s">>), Va("a", <<>>), Va("a", <<"(", "1", ")">>),
          Va("a", <<"-", "1">>), <<"a", "=~", "-", "1">>, <<"a", "=~", "!", "x">>, <<"a", "=~", "*", "x">>, Va("a", <<"!", "x">>), Va("a", <<"x", "*", "1">>), Va("a", <<"x", "!", "[", ",", "]">>), Va("a", <<"1", "1">>),
          Ar("a", <<>>), Ar("a", <<"1">>), Ar("a", <<"1", ",", "2">>), Ar("a", <<"1", ",">>),
          Ar("a", <<",">>), Ar("a", <<"x">>), Ar("a", <<"1", "1">>),
          <<"a", "[", "1", "]">>, <<"a", "{", "1", "}">>, <<"a", "1">>, <<"a", "==", "1">>,
          <<"a", "=>", "1">>, <<"a", "(", "1", ")", "(", "1", ")">>, <<"a", "(", ")", "=", "1">>,
          <<"(", "a", ")">>, <<"=", "1">>}
InputsOf(d) ==
  LET q == TagOf(d)[2] IN
  Forms \cup {f \o <<",">> : f \in Forms}
    \cup (IF q = 4 THEN {<<"s", ",">> \o f : f \in Forms} \cup {f \o <<",", "p", "=", "1">> : f \in Forms} ELSE {})
    \cup (IF q = 3 THEN {<<"1", ",">> \o f : f \in Forms} ELSE {})
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m

(* C03 by the table: a single argument `a`, `a = 1`, `a(1)` is accepted iff *)
(* the row has that style, and the value has the variant of that style.     *)
Inner(x, v) ==       \* the value of the parameter itself
  CASE x[2] \in {1, 4} -> v
    [] x[2] = 2 -> v.xs[1]
    [] x[2] = 3 -> v.xs[1].xs[1]
Variant(t, v, style) ==
  LET o == t.n \in {"NameValue", "NameArgs"} /\ IsOption(t.a[1]) IN
  CASE t.n = "bool" -> v = VBool(TRUE)
    [] t.n = "Flag" -> v.k = "flag" /\ v.at # 0
    [] t.n = "NameValue" -> v.k = "nv" /\ v.xs[1].k = (IF style = "f" THEN "none" ELSE IF o THEN "some" ELSE "tok")
    [] t.n = "NameArgs"  -> v.k = "na" /\ v.xs[1].k \in (IF style = "f" THEN {"none"} ELSE IF o THEN {"some"} ELSE {"tok", "list"})
    [] t.n = "Vec" -> v.k = "list"
    [] OTHER -> v.k = "tok"
FieldNo(q) == IF q = 4 THEN 2 ELSE 1
ByTable ==
  m.ph = "done" =>
  LET x == TagOf(m.d)[1]  r == RowOf(x)  q == TagOf(m.d)[2]
      v == Result.v.xs[FieldNo(q)]
      val == <<IF r.t = StrT THEN "'s" ELSE "1">>
      Case(form, has, style) ==
        m.toks = form =>
          IF has THEN Result.ok /\ Variant(r.t, Inner(x, v), style)
          \* context 3 can still read `a` etc. as an unnamed value, but LitInt does not
          ELSE ~Result.ok
  IN /\ Case(Fl("a"), r.f, "f") /\ Case(Va("a", val), r.v, "v") /\ Case(Ar("a", <<"1">>), r.a, "a")
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
