------------------------------- MODULE MC_C20 -------------------------------
(* Positions: the grammars, enums and structs whose parsed values are       *)
(* printed again, token by token from where they were; and, for the faulty  *)
(* inputs, where the error is.                                               *)
EXTENDS TreeGrammar

\* (the numbers are those of Grammar)
Bodies == <<
  TupV(<<P(Fd(FnT)), Sym(<<"(">>, Fd(MacroT)), Fd(IdT), Sym(<<")">>, Fd(ArrowT)), Fd(OptSemi)>>),
  RecV(<<P(Sym(<<"{">>, Fd(BraceT))), Sym(<<"[">>, Fd(BracketT)), Fd(T("TokenStream")), Sym(<<"]", "}">>, Fd(IdT))>>),
  TupV(<<P(AnyF(Fd(IdT))), P(Sym(<<"[", "]">>, Fd(BracketT))), Sym(<<"{", "}">>, Fd(MacroT)), Fd(OptSemi)>>),
  RecV(<<P(Fd(IntT)), Fd(NodeT(3)), Sym(<<"(">>, Fd(ParenT)), AnyF(Term(Fd(Punct(IdT, ArrowT))))>>),
  TupV(<<Sym(<<"(">>, Fd(ParenT)), Fd(Box(NodeT(8))), Sym(<<")">>, Fd(NodeT(5)))>>),
  TupV(<<P(Fd(T("LitStr"))), Sym(<<"[">>, Fd(MacroT)), Sym(<<"(">>, Fd(MacroT)), Fd(T("Pair")), Sym(<<")", "]", "{", "}">>, Fd(BraceT)), Fd(T("Grp"))>>)>>
Enums == [k \in 1..Len(Bodies) |-> Enum(<<Bodies[k], Bodies[(k % Len(Bodies)) + 1]>>)]
Plain_ == [k \in 1..Len(Bodies) |-> Struct([Bodies[k] EXCEPT !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.peek = FALSE]]])]
Rest == SubSeq(StructDecls, Len(Lead) + 1, Len(StructDecls))
Own == Grammar \o Enums \o Plain_ \o <<Enum(Bodies)>>
TheDecls == TLCEval(Own \o (IF Deep THEN Rest ELSE SelectSeq(Rest, LAMBDA d : Len(d.variants[1].fields) \in {1, 2, 4, 5})))
Inputs(d) == LET X == DeclTexts(d, 2) IN
  IF Deep \/ (d <= Len(Own) /\ Cardinality(X) < 60) THEN X \cup UNION {Edits(x) : x \in X}
  ELSE IF d <= Len(Own) THEN X
  ELSE X \cup Edits(CHOOSE x \in X : \A y \in X : Len(y) <= Len(x))
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\ \E t \in Inputs(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
