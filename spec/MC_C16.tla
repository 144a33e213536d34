------------------------------- MODULE MC_C16 -------------------------------
(* any and terminated on every field of some declarations, written in every *)
(* equivalent way; each declaration has a twin without any.                  *)
EXTENDS TreeBase

P(f) == Peek(f)
A(b, f) == IF b THEN AnyF(f) ELSE f
L(t, s) == Term(Fd(Punct(t, s)))
Shapes(x, y) == <<
  Struct(TupV(<<A(x, Fd(IdT))>>)),
  Struct(RecV(<<A(x, Fd(IdT)), A(y, Fd(IdT))>>)),
  Struct(TupV(<<A(x, L(IdT, CommaT))>>)),
  Struct(TupV(<<A(x, Fd(IdT)), A(y, L(IdT, CommaT))>>)),
  Struct(RecV(<<Sym(<<"(">>, Fd(ParenT)), A(x, L(IdT, CommaT)), Sym(<<")">>, A(y, Fd(IdT)))>>)),
  Struct(RecV(<<Sym(<<"(">>, Fd(ParenT)), A(x, L(IdT, SemiT)), Sym(<<")", "[">>, Fd(BracketT)), A(y, L(IdT, CommaT)), Sym(<<"]">>, Fd(IdT))>>)),
  Struct(TupV(<<Fd(OptSemi), A(x, Fd(IdT)), Sym(<<"{">>, Fd(MacroT)), A(y, Fd(IdT)), L(IntT, SemiT)>>)),
  Enum(<<TupV(<<A(x, P(Fd(IdT))), L(IntT, CommaT)>>), TupV(<<P(Fd(FnT)), A(y, Fd(IdT))>>), TupV(<<Fd(FnT), A(y, L(IdT, CommaT))>>)>>),
  Enum(<<TupV(<<P(Fd(IdT)), A(x, P(Fd(IdT)))>>), TupV(<<A(y, P(Fd(IdT))), P(Fd(CommaT)), L(IdT, CommaT)>>), UnitV>>),
  Enum(<<TupV(<<A(x, Fd(IdT))>>), RecV(<<A(y, L(IdT, CommaT))>>)>>),
  Struct(TupV(<<L(NodeT(1), SemiT)>>)),
  Struct(TupV(<<Sym(<<"(">>, Fd(ParenT)), L(NodeT(2), CommaT), Sym(<<")">>, L(IntT, PlusT))>>))>>
K == Len(Shapes(TRUE, TRUE))
\* block b: the declarations with the any's of bits x, y (b = 0: none) in the way f of writing attributes
Block(x, y, f) == [i \in 1..K |-> Shapes(x, y)[i] @@ [form |-> f]]
TheDecls == TLCEval(
  Block(FALSE, FALSE, 0) \o Block(TRUE, FALSE, 1) \o Block(FALSE, TRUE, 2) \o Block(TRUE, TRUE, 3)
    \o Block(TRUE, TRUE, 0) \o Block(TRUE, TRUE, 4) \o Block(TRUE, TRUE, 5) \o Block(TRUE, TRUE, 2)
    \o Block(FALSE, FALSE, 3) \o Block(TRUE, FALSE, 5))
Twin(d) == ((d - 1) % K) + 1
Units == {"x", "fn", "self", "_", "r#fn", ",", ";", "1"}
Inner == {<<>>, <<"x">>, <<"fn">>, <<"x", ",">>, <<"fn", ",", "type">>, <<"x", ",", ",", "x">>, <<",">>,
          <<"x", ";", "fn">>, <<"x", ";", "fn", ";">>, <<"1", ";", "1">>, <<"fn", "1", ";">>}
Outer == {<<>>, <<"x">>, <<"fn">>, <<";", "x">>, <<"type", "1">>}
Inputs(d) ==
  SeqsUpTo(Units, IF Deep THEN 4 ELSE 3)
    \cup {<<"x", ",", "fn", ",">>, <<"x", ",", "x", ",", "r#fn">>, <<"fn", ",", "_", ",", "x", ",">>, <<"x", ",", "fn", ";", "x">>}
    \cup (IF Twin(d) \in {5, 6, 7, 12}
          THEN UNION {{<<"(">> \o i \o <<")">> \o o, <<"{">> \o i \o <<"}">> \o o, o \o <<"[">> \o i \o <<"]">>} : i \in Inner, o \in Outer}
                 \cup {<<"(">> \o i \o <<")", "[">> \o j \o <<"]">> \o o : i, j \in Inner, o \in {<<"x">>, <<"fn">>, <<>>}}
          ELSE {})
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\ \E t \in Inputs(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m

\* any makes no difference for an input without keywords ...
C16Plain == AtDone((\A i \in 1..Len(m.toks) : m.toks[i] \notin Keywords) => Parse(Twin(m.d), m.toks) = Result)
\* ... and otherwise only lets keywords stand where identifiers may:
\* what a declaration without any accepts, it accepts with the same value.
AsIdents(t) == [i \in 1..Len(t) |-> IF t[i] \in Keywords THEN "x" ELSE t[i]]
C16Names == AtDone((Result.ok /\ Decls[m.d].kind = "struct") =>
              LET r == Parse(m.d, AsIdents(m.toks)) IN r.ok /\ r.v = Result.v)
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
