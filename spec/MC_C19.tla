------------------------------- MODULE MC_C19 -------------------------------
(* Structs of all kinds of parameters, in every scope and with every kind   *)
(* of generic parameter in the place of their value types.                  *)
EXTENDS MCBase, Context

Ctx(s, b, d) == d @@ [ctx |-> [scope |-> s, bound |-> b]]
MarkD(mk, d) ==
  LET r[i \in 0..Len(d.fields)] == IF i = 0 THEN <<<<>>, 0>>
        ELSE LET x == MarkTy(d.fields[i].ty, mk, r[i - 1][2])
             IN <<Append(r[i - 1][1], [d.fields[i] EXCEPT !.ty = x[1]]), x[2]>>
  IN [d EXCEPT !.fields = r[Len(d.fields)][1]]

\* declarations that others refer to by number
Lead == <<Ctx("shadow", "inline", MarkD(<<"gen">>, Rec(<<F("a", IntT), F("b", Opt(IntT))>>))),
          Ctx("block", "where", MarkD(<<"lt">>, Tup(<<F("", IntT), F("", VecT(IdT))>>)))>>
Templates == <<
  Tup(<<F("", IntT), F("", IdT), F("", Opt(IntT)), F("", VecT(IntT))>>),
  Tup(<<F("", Opt(IdT)), F("", Opt(IntT)), FN("", "type", VecT(IntT))>>),
  Rec(<<F("a", IntT), F("r#type", Opt(IdT)), F("f", FlagT), F("g", BoolT)>>),
  Rec(<<FU("u", IntT), F("a", VecT(IntT)), F("r#fn", Opt(VecT(IdT))), FU("v", VecT(IntT))>>),
  Rec(<<F("a", NV(IntT)), F("b", Opt(NV(Opt(IntT)))), F("c", NA(Opt(IntT)))>>),
  Rec(<<F("a", NA(VecT(IntT))), F("b", NA(Opt(VecT(IdT)))), FN("c", "x", Opt(NA(IntT)))>>),
  Filtered(Rec(<<F("m", Map(IntT)), FU("u", Opt(IdT)), F("f", Opt(NA(Opt(VecT(IntT)))))>>)),
  Rec(<<F("m", Map(NV(Opt(IntT)))), F("f", FlagT)>>),
  Rec(<<F("a", NA(MetaT(1))), F("b", Opt(NA(Opt(MetaT(2))))), F("c", Opt(IntT))>>),
  Rec(<<F("m", Map(NA(MetaT(1)))), FU("u", IntT)>>)>>
\* quick: the bounds take turns; thorough: every combination
TheCombos == {<<t, k, s, b>> \in (1..Len(Templates)) \X (1..Len(Markings)) \X (1..Len(Scopes)) \X (1..Len(Bounds)) :
                Deep \/ b = ((t + k + s) % Len(Bounds)) + 1}
Ordered == Family(TheCombos)
TheDecls == TLCEval(Lead \o [i \in 1..Len(Ordered) |-> LET c == Ordered[i] IN
               Ctx(Scopes[c[3]], Bounds[c[4]], MarkD(Markings[c[2]], Templates[c[1]])) @@ [tag |-> c[1]]])

InputsOf(t) ==
  LET a == Fl("a")  av == Va("a", <<"1">>)  aa == Ar("a", <<"1">>)  aaa == Ar("a", <<"1", ",", "2">>)
      b == Fl("b")  bv == Va("b", <<"1">>)  ba == Ar("b", <<"x">>)  c == Ar("c", <<"1">>)  one == <<"1">>  x == <<"x">>  f == Fl("f")
  IN {<<>>} \cup
  (CASE t = 1 -> {Join(<<one, x>>), Join(<<one, x, one>>), Join(<<one, x, one, one, one>>), Join(<<one, x, x>>), one, Join(<<one, x, one, x>>)}
     [] t = 2 -> {x, Join(<<x, one>>), Join(<<x, one, one>>), Join(<<x, Ar("type", one)>>), Join(<<Ar("type", one), x>>), Fl("type"), one}
     [] t = 3 -> {av, Join(<<av, f, Fl("g")>>), Join(<<av, Va("type", x)>>), Join(<<av, Va("r#type", x)>>), Join(<<av, av>>), a, Va("a", x), Join(<<av, <<"f", "=", "1">>>>), Va("b", one), one}
     [] t = 4 -> {Join(<<one, aaa>>), Join(<<one, one, one, aa>>), Join(<<one, aa, one>>), Join(<<one, aa, Ar("fn", x)>>), Join(<<one, aa, Fl("fn")>>), one, Join(<<one, aa, aa>>), Join(<<x, aa>>)}
     [] t = 5 -> {Join(<<av, c>>), Join(<<av, b, Fl("c")>>), Join(<<av, bv, c>>), c, Join(<<av, b>>), Join(<<av, c, c>>), Join(<<a, c>>), Join(<<av, Va("c", one)>>), Join(<<av, b, bv, c>>)}
     [] t = 6 -> {Join(<<aa, ba>>), Join(<<aaa, b>>), Join(<<aa, b, Ar("x", one)>>), aa, b, Join(<<aa, b, c>>), Join(<<aa, Ar("b", one)>>), Join(<<aa, b, b>>)}
     [] t = 7 -> {x, Join(<<x, av>>), Join(<<av, bv>>), Join(<<av, av>>), f, Join(<<x, Ar("f", one)>>), Va("Abc", one), a, Join(<<av, x>>), Va("a", x)}
     [] t = 8 -> {a, Join(<<a, bv>>), Join(<<f, a>>), Join(<<a, a>>), Join(<<f, f>>), aa, one, Va("f", one), Va("a", x)}
     [] t = 9 -> {Ar("a", av), Join(<<Ar("a", Join(<<av, bv>>)), b>>), Join(<<Ar("a", av), Ar("b", Join(<<one, x>>)), Va("c", one)>>), Ar("a", <<>>), Ar("a", Va("a", x)), Join(<<Ar("a", av), Ar("b", x)>>), b, av}
     [] t = 10 -> {one, Join(<<one, Ar("a", av), Ar("b", av)>>), Join(<<one, Ar("a", av), Ar("a", av)>>), Join(<<one, Ar("a", x)>>), Ar("a", av), Join(<<one, av>>)})
Init == \E d \in (Len(Lead) + 1)..Len(TheDecls) : m = [ph |-> "pick", d |-> d]
Pick == m.ph = "pick" /\ \E t \in InputsOf(TagOf(m.d)) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m

\* The derive makes the same of a declaration and of the bare one.
BareP(x) == [x EXCEPT !.pt.ty = BareTy(@)]
BareD(d) == [d EXCEPT !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ty = BareTy(@)]]]
ContextFree == \A i \in 1..Len(TheDecls) : LET c == Comp[i] IN
  Compile(BareD(Decls[i])) = [c EXCEPT !.ps = [k \in 1..Len(@) |-> BareP(@[k])]]
ASSUME ContextFree
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
