------------------------------- MODULE MC_C13 -------------------------------
(* Enums: all pairs of variant bodies from a menu (and triples from a      *)
(* smaller one); inputs: all short sequences of token trees and the texts  *)
(* of the variants followed by one tree.                                   *)
EXTENDS TreeBase

P(f) == Peek(f)
Small == <<
  TupV(<<Fd(IntT)>>),
  TupV(<<Fd(IdT), Fd(IntT)>>),
  TupV(<<P(Fd(FnT)), Fd(IdT)>>),
  TupV(<<P(Fd(IdT)), P(Fd(IntT))>>),
  TupV(<<P(Sym(<<"(">>, Fd(ParenT))), Fd(IdT)>>),
  RecV(<<Sym(<<"(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(SemiT))>>)>>
Menu == Small \o <<
  UnitV,
  TupV(<<Fd(IdT)>>),
  TupV(<<Fd(IdT), Fd(SemiT)>>),
  RecV(<<P(AnyF(Fd(IdT))), Fd(IdT)>>),
  TupV(<<P(Fd(SemiT)), P(Fd(SemiT)), P(Fd(IdT))>>),
  TupV(<<P(Fd(IdT)), P(AnyF(Fd(IdT))), P(Sym(<<"(">>, Fd(ParenT)))>>),
  TupV(<<P(Sym(<<"{">>, Fd(BraceT))), Sym(<<"}">>, Fd(IdT))>>),
  TupV(<<P(Fd(IdT)), P(Sym(<<"(", ")">>, Fd(ParenT))), P(Fd(SemiT))>>),
  TupV(<<P(Sym(<<"(", ")">>, Fd(ParenT))), P(Sym(<<"[", "]">>, Fd(BracketT))), P(AnyF(Fd(IdT))), Fd(OptSemi)>>),
  RecV(<<P(Sym(<<"{", "}">>, Fd(BraceT))), P(Fd(IntT)), Fd(IdT)>>),
  TupV(<<Fd(OptSemi), Fd(IdT)>>),
  TupV(<<Sym(<<"[">>, Fd(MacroT)), Fd(OptSemi)>>),
  TupV(<<Term(Fd(Punct(IdT, SemiT)))>>),
  RecV(<<P(Fd(IntT)), Fd(NodeT(1))>>),
  TupV(<<Fd(NodeT(3)), Fd(OptSemi)>>),
  TupV(<<Fd(T("Pair")), Fd(SemiT)>>),
  TupV(<<P(Fd(ArrowT)), P(Fd(IdT))>>),
  RecV(<<Fd(T("Grp")), Fd(OptSemi)>>),
  TupV(<<P(Fd(T("LitBool"))), P(Fd(ArrowT)), P(Fd(ArrowT)), Fd(IdT)>>),
  TupV(<<P(Fd(IdT)), Sym(<<"(">>, Fd(ParenT)), Fd(NodeT(2))>>)>>
Lead == <<Struct(TupV(<<Fd(IdT), Fd(SemiT)>>)),
          Struct(RecV(<<Fd(OptSemi), Fd(IntT)>>)),
          Enum(<<TupV(<<P(Fd(FnT)), Fd(IntT)>>), TupV(<<Fd(IdT), Fd(IdT)>>)>>),
          Enum(<<>>),
          Enum(<<TupV(<<Fd(NodeT(4))>>), RecV(<<Sym(<<"(">>, Fd(ParenT)), Fd(NodeT(4)), Sym(<<")">>, Fd(IdT))>>), TupV(<<Fd(IdT), Fd(OptSemi)>>)>>)>>
\* (sequences rather than sets: TLC cannot order bodies that refer to other declarations)
All2(M) == [k \in 1..(Len(M) * Len(M)) |-> <<M[((k - 1) \div Len(M)) + 1], M[((k - 1) % Len(M)) + 1]>>]
All3(M) == LET n == Len(M) IN
  [k \in 1..(n * n * n) |-> <<M[((k - 1) \div (n * n)) + 1], M[(((k - 1) \div n) % n) + 1], M[((k - 1) % n) + 1]>>]
Enums(bs) == [k \in 1..Len(bs) |-> Enum(bs[k])]
Long == [k \in 1..Len(All2(Small)) |-> LET x == All2(Small)[k] IN Enum(<<TupV(<<P(Fd(IdT)), Fd(IntT)>>), x[1], x[2], UnitV>>)]
          \o [k \in 1..Len(All3(Small)) |-> LET x == All3(Small)[k] IN
                Enum(<<x[1], TupV(<<P(Fd(IntT)), P(Fd(IntT))>>), x[2], UnitV, x[3]>>)]
Some(s, n) == [k \in 1..(Len(s) \div n) |-> s[(n * k) - (k % n)]]        \* one in n, in varying places
TheDecls == TLCEval(Lead \o [k \in 1..Len(Menu) |-> Enum(<<Menu[k]>>)] \o Enums(All2(Menu)) \o Enums(All3(Small))
                      \o (IF Deep THEN Long ELSE Some(Long, 4)))
Pieces == {<<"x">>, <<"1">>, <<"fn">>, <<";">>, <<"(", "x", ")">>, <<"{", "}">>, <<"[", "]">>, <<"(", ")">>}
Short == {Flat(s) : s \in SeqsUpTo(Pieces, 2)}
           \cup {Flat(s) : s \in [1..3 -> IF Deep THEN Pieces ELSE {<<"x">>, <<"1">>, <<";">>, <<"(", "x", ")">>}]}
Ends == {<<>>, <<"x">>, <<"1">>}
Groups == {<<"x", "(", ")", ";">>, <<"x", "(", ")", "x">>, <<"(", ")", "[", "]", "fn">>, <<"(", ")", "[", "]", "x", ";">>,
           <<"(", ")", "x", "fn">>, <<"x", "(", ")">>, <<"{", "}", "1", "x">>, <<"{", "x", "}", "1", "x">>, <<"{", "}", "x", "x">>}
Inputs(d) == Short \cup Groups \cup {t \o e : t \in DeclTexts(d, 2), e \in Ends}
Init == PickInit((Len(Lead) - 2)..Len(Decls))
Pick == m.ph = "pick" /\ \E t \in Inputs(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
