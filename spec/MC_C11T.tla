------------------------------ MODULE MC_C11T ------------------------------
(* Every spelling of MacroDelimiter in fields that open a group, and user   *)
(* types of that name (an alias of Paren) under other paths.                *)
EXTENDS TreeBase

Sp(p, q) == [p |-> p, n |-> "MacroDelimiter", a |-> <<>>, q |-> q]
Good == {Sp(<<>>, ""), Sp(<<"syn">>, ""), Sp(<<"syn">>, "::"), Sp(<<>>, "group"), Sp(<<"syn">>, "group"), Sp(<<"syn">>, "group2")}
Bad == {Sp(p, "") : p \in {<<"near">>, <<"vharness", "near">>, <<"near", "syn">>, <<"near", "std", "syn">>, <<"structmeta">>, <<"core">>}}
        \cup {Sp(<<"vharness", "near">>, "::"), Sp(<<"near">>, "group"), Sp(<<"near", "syn">>, "group2"), Sp(<<"syn">>, "qself")}
\* (structmeta and core: modules of the harness in the scope of the declaration)
Scoped(t) == IF t.p \in {<<"structmeta">>, <<"core">>} THEN [t EXCEPT !.q = "user"] ELSE t
P(f) == Peek(f)
Shapes(t) ==
  {Struct(RecV(<<Sym(<<"(">>, Fd(t)), Fd(IntT), Sym(<<")">>, Fd(IdT))>>)),
   Struct(TupV(<<Fd(IdT), Sym(<<"(">>, Fd(t)), Fd(OptSemi)>>)),
   Struct(TupV(<<Sym(<<"[">>, Fd(BracketT)), Sym(<<"(">>, Fd(t)), Fd(IdT), Sym(<<")", "]", "(">>, Fd(t)), Fd(IntT)>>)),
   Enum(<<TupV(<<P(Fd(IntT)), Sym(<<"(">>, Fd(t)), Fd(IdT)>>), TupV(<<Sym(<<"(">>, Fd(t)), Fd(IntT)>>), TupV(<<Fd(IdT)>>)>>)}
\* the brackets and braces need the recognised type
Shapes2(t) == {Struct(RecV(<<Sym(<<c>>, Fd(t)), Fd(IntT), Sym(<<CloseOf(c), "(">>, Fd(t)), Fd(IdT)>>)) : c \in {"[", "{"}}
TheDecls == Family(UNION {Shapes(Scoped(t)) : t \in Good \cup Bad} \cup UNION {Shapes2(t) : t \in Good})

\* the matching inputs of the declaration read with the recognised type: all delimiters
Wide(d) == [d EXCEPT !.variants = [v \in 1..Len(@) |-> [@[v] EXCEPT !.fields =
             [i \in 1..Len(@) |-> IF @[i].ty.n = "MacroDelimiter" THEN [@[i] EXCEPT !.ty = MacroT] ELSE @[i]]]]]
WideTexts(d) == LET w == Wide(Decls[d]) IN UNION {FieldsTexts(w.variants[v].fields, Layout(w.variants[v].fields), 1, <<>>, 1) : v \in 1..Len(w.variants)}
Inputs(d) == LET X == WideTexts(d) IN X \cup Edits(CHOOSE x \in X : \A y \in X : Len(y) <= Len(x))
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\
          \/ \E t \in Inputs(m.d) : Picked(t)
          \/ \E v \in DeclValues(m.d, 1) : PickedV(Pool, v)
Spec == Init /\ [][Pick \/ Running]_m

MatcherIsSuffix == \A t \in Good \cup Bad : Recognised(t, "MacroDelimiter") = MatcherRecognised(t, "MacroDelimiter")
GoodAreRecognised == (\A t \in Good : IsMacro(t)) /\ (\A t \in Bad : ~IsMacro(Scoped(t)))
ASSUME MatcherIsSuffix /\ GoodAreRecognised
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
