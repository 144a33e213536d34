------------------------------ MODULE MC_C19T ------------------------------
(* Structs and enums with all kinds of fields, in every scope and with      *)
(* every kind of generic parameter in the place of their leaf types.        *)
EXTENDS TreeBase, Context

Ctx(s, b, d) == d @@ [ctx |-> [scope |-> s, bound |-> b]]
\* peeked and `any` fields keep their types: a type parameter cannot be peeked
Keeps(f) == f.peek \/ f.any \/ OpensGroup(f)
MarkV(mk, v, k0) ==
  LET r[i \in 0..Len(v.fields)] == IF i = 0 THEN <<<<>>, k0>>
        ELSE LET x == IF Keeps(v.fields[i]) THEN <<v.fields[i].ty, r[i - 1][2]>> ELSE MarkTy(v.fields[i].ty, mk, r[i - 1][2])
             IN <<Append(r[i - 1][1], [v.fields[i] EXCEPT !.ty = x[1]]), x[2]>>
  IN [v EXCEPT !.fields = r[Len(v.fields)][1]]
MarkD(mk, d) == [d EXCEPT !.variants = [i \in 1..Len(@) |-> MarkV(mk, @[i], i - 1)]]
Named(names, v) == [v EXCEPT !.shape = "rec", !.fields = [i \in 1..Len(@) |-> Idd(names[i], @[i])]]

P(f) == Peek(f)
Lead == <<Ctx("all", "where", MarkD(<<"gen">>, Struct(TupV(<<Fd(IdT), Fd(ArrowT), Fd(IntT)>>)))),
          Ctx("block", "inline", MarkD(<<"lt", "gen">>, Enum(<<TupV(<<P(Fd(FnT)), Fd(IdT)>>), TupV(<<Fd(IntT)>>)>>)))>>
\* (SelfT stands for the declaration itself; its number is filled in)
SelfT == [p |-> <<>>, n |-> "@", a |-> <<0>>, q |-> "self"]
Templates == <<
  Struct(TupV(<<Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Fd(IntT), Sym(<<")">>, Fd(OptSemi))>>)),
  Struct(Named(<<"r#type", "input", "tokens", "r#fn">>, TupV(<<Sym(<<"[">>, Fd(MacroT)), Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Sym(<<")", "]">>, Fd(IntT))>>))),
  Struct(TupV(<<Fd(IdT), Sym(<<"{">>, Fd(BraceT)), Term(Fd(Punct(IntT, CommaT)))>>)),
  Struct(RecV(<<AnyF(Fd(IdT)), Fd(Box(IntT)), Sym(<<"(">>, Fd(MacroT)), AnyF(Term(Fd(Punct(IdT, PlusT))))>>)),
  Enum(<<TupV(<<P(Fd(IdT)), Fd(IntT)>>), RecV(<<P(Sym(<<"(">>, Fd(ParenT))), Fd(IdT), Sym(<<")">>, Fd(IntT))>>), TupV(<<Fd(IntT), Fd(StrT)>>)>>),
  Enum(<<TupV(<<Fd(IdT), Sym(<<"[">>, Fd(MacroT)), Fd(IntT)>>), TupV(<<Fd(IdT), Fd(IntT)>>), UnitV>>),
  Enum(<<Named(<<"r#type", "input", "fork">>, TupV(<<Fd(FnT), Fd(IdT), Fd(IntT)>>)), TupV(<<P(Fd(IntT)), P(AnyF(Fd(IdT)))>>), TupV(<<Fd(IdT)>>)>>),
  Enum(<<TupV(<<P(Fd(IntT))>>), TupV(<<Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Term(Fd(Punct(SelfT, CommaT)))>>)>>),
  Enum(<<TupV(<<Sym(<<"[">>, Fd(BracketT)), Fd(Box(SelfT)), Sym(<<"]">>, Fd(OptSemi))>>), TupV(<<Fd(IdT)>>)>>),
  Struct(TupV(<<Fd(IdT), Sym(<<"{">>, Fd(MacroT)), Term(Fd(Punct(SelfT, SemiT)))>>)),
  Struct(RecV(<<Fd(NodeT(1)), Sym(<<"(">>, Fd(ParenT)), Fd(NodeT(2)), Sym(<<")">>, Fd(Box(IdT)))>>)),
  Enum(<<>>)>>
TheCombos == {<<t, k, s, b>> \in (1..Len(Templates)) \X (1..Len(Markings)) \X (1..Len(Scopes)) \X (1..Len(Bounds)) :
                (t = 12 => k = 1) /\ (Deep \/ b = ((t + k + s) % Len(Bounds)) + 1)}
Ordered == Family(TheCombos)
RECURSIVE SelfTy(_, _)
SelfTy(t, n) == IF t.n = "@" THEN IF t.a = <<0>> THEN [t EXCEPT !.a = <<n>>] ELSE t
                ELSE [t EXCEPT !.a = [i \in 1..Len(@) |-> SelfTy(@[i], n)]]
SelfIs(d, n) == [d EXCEPT !.variants = [v \in 1..Len(@) |-> [@[v] EXCEPT !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ty = SelfTy(@, n)]]]]]
Onlies == <<"", "", "Parse", "ToTokens">>
WithOnly(c, d) == LET o == Onlies[((c[2] + 2 * c[3]) % Len(Onlies)) + 1] IN IF o = "" \/ c[1] = 11 THEN d ELSE d @@ [only |-> o]
TheDecls == TLCEval(Lead \o [i \in 1..Len(Ordered) |-> LET c == Ordered[i] IN
               WithOnly(c, SelfIs(Ctx(Scopes[c[3]], Bounds[c[4]], MarkD(Markings[c[2]], Templates[c[1]])), i + Len(Lead))) @@ [tag |-> c[1], form |-> c[3] % 3]])
Has(d, o) == IF "only" \in DOMAIN Decls[d] THEN Decls[d].only = o ELSE TRUE

Shortest(S) == CHOOSE x \in S : \A y \in S : Len(y) <= Len(x)
FewEdits(z) == {InsTree(z, i, <<"1">>) : i \in 0..Len(z)} \cup (IF z = <<>> \/ z[1] \in Opens THEN {} ELSE {Tail(z)})
Inputs(d) == IF Decls[d].variants = <<>> THEN {<<>>, <<"x">>} ELSE LET X == DeclTexts(d, 1) IN X \cup (IF Deep THEN Edits(Shortest(X)) ELSE FewEdits(Shortest(X)))
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\
          \/ Has(m.d, "Parse") /\ \E t \in Inputs(m.d) : Picked(t)
          \/ Has(m.d, "ToTokens") /\ \E v \in DeclValues(m.d, 1) : PickedV(Pool, v)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
