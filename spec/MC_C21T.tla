------------------------------ MODULE MC_C21T ------------------------------
(* The grammars, enums and structs of C20 with parts of the input hidden.   *)
EXTENDS TreeGrammar, Invisible

Bodies == <<
  TupV(<<P(Fd(FnT)), Sym(<<"(">>, Fd(MacroT)), Fd(IdT), Sym(<<")">>, Fd(ArrowT)), Fd(OptSemi)>>),
  RecV(<<P(Sym(<<"{">>, Fd(BraceT))), Sym(<<"[">>, Fd(BracketT)), Fd(T("TokenStream")), Sym(<<"]", "}">>, Fd(IdT))>>),
  TupV(<<P(AnyF(Fd(IdT))), P(Sym(<<"[", "]">>, Fd(BracketT))), P(Fd(IntT)), Sym(<<"{", "}">>, Fd(MacroT)), Fd(OptSemi)>>),
  TupV(<<Fd(IdT), Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Fd(IntT)>>),
  TupV(<<P(Fd(IdT)), P(Fd(IntT)), Fd(T("Expr"))>>),
  RecV(<<Fd(IntT), Fd(NodeT(3)), Sym(<<"(">>, Fd(ParenT)), AnyF(Term(Fd(Punct(IdT, ArrowT))))>>)>>
Enums == [k \in 1..Len(Bodies) |-> Enum(<<Bodies[k], Bodies[(k % Len(Bodies)) + 1], UnitV>>)]
Rest == SubSeq(StructDecls, Len(Lead) + 1, Len(StructDecls))
Own == Grammar \o Enums \o <<Enum(Bodies)>>
TheDecls == TLCEval(Own \o SelectSeq(Rest, LAMBDA d : IF Deep THEN TRUE ELSE Len(d.variants[1].fields) \in {1, 4}))
Matching(d) == DeclTexts(d, IF Deep \/ d > Len(Own) THEN 2 ELSE 1)
Inputs(d) == LET X == Matching(d) IN
  IF Cardinality(X) > 60 THEN X
  ELSE X \cup UNION {Edits(x) : x \in {CHOOSE x \in X : \A y \in X : Len(y) <= Len(x)}}
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\ \E t \in Inputs(m.d) : \E w \in Wraps(t, {}) : m' = Start(m.d, t, 1, Len(t) + 1) @@ [g |-> w]
Spec == Init /\ [][Pick \/ Running]_m
EmitG == m.ph = "done" => PrintT("@V " \o ToJson(Vector @@ [g |-> m.g]))
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
