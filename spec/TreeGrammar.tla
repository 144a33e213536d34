---------------------------- MODULE TreeGrammar ----------------------------
(* Small grammars: nested, recursive and mutually recursive declarations.  *)
EXTENDS StructFamily

P(f) == Peek(f)
\* the numbers below are those of this list
Grammar == <<
  \* 1: S-expressions
  Enum(<<TupV(<<P(Fd(IdT))>>), TupV(<<P(Fd(IntT))>>),
         RecV(<<P(Sym(<<"(">>, Fd(ParenT))), Term(Fd(Punct(NodeT(1), CommaT)))>>)>>),
  \* 2: binary trees, boxed, without peek: leaves are tried last
  Enum(<<TupV(<<Sym(<<"[">>, Fd(BracketT)), Fd(Box(NodeT(2))), Fd(SemiT), Fd(Box(NodeT(2)))>>), TupV(<<Fd(IdT)>>)>>),
  \* 3: a typed parameter, 4: a function with a list of them
  Struct(RecV(<<Fd(IdT), Fd(ArrowT), AnyF(Fd(IdT))>>)),
  Struct(TupV(<<Fd(FnT), Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Term(Fd(Punct(NodeT(3), CommaT))), Sym(<<")">>, Fd(OptSemi)),
                Sym(<<"{">>, Fd(BraceT)), Fd(IdT), Sym(<<"}">>, Fd(OptSemi))>>)),
  \* 5: macro call
  Struct(RecV(<<Fd(IdT), Fd(PlusT), Sym(<<"(">>, Fd(MacroT)), Fd(T("TokenStream")), Sym(<<")">>, Fd(OptSemi))>>)),
  \* 6: nested groups, closing implicitly, in an enum that peeks
  Enum(<<TupV(<<P(Fd(FnT)), Sym(<<"[">>, Fd(BracketT)), Sym(<<"(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(IntT))>>),
         TupV(<<P(Fd(IdT)), Sym(<<"{">>, Fd(MacroT)), Fd(NodeT(2))>>)>>),
  \* 7: mutual recursion through 8
  Enum(<<TupV(<<P(Fd(IntT))>>), TupV(<<P(Fd(IdT)), Fd(Box(NodeT(8)))>>)>>),
  Struct(TupV(<<Sym(<<"(">>, Fd(ParenT)), Fd(NodeT(7)), Sym(<<")", "[">>, Fd(BracketT)), Term(Fd(Punct(NodeT(7), PlusT)))>>)),
  \* 9: keywords in lists
  Struct(TupV(<<AnyF(Term(Fd(Punct(IdT, CommaT))))>>)),
  Struct(TupV(<<Sym(<<"{">>, Fd(MacroT)), AnyF(Term(Fd(Punct(IdT, PlusT)))), Sym(<<"}">>, Fd(T("Expr")))>>))>>
=============================================================================
