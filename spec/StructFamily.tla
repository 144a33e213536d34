---------------------------- MODULE StructFamily ----------------------------
(* Structs: all short field lists over values, openers, closers, and their  *)
(* combinations on one field.                                                *)
EXTENDS TreeBase

Del(c) == CASE c = "(" -> ParenT [] c = "[" -> BracketT [] c = "{" -> BraceT
\* fields that open a group (after closing `pre`), and fields that do not
Openers(pre) == {Sym(pre \o <<c>>, Fd(Del(c))) : c \in Opens}
                  \cup {Sym(pre \o <<c>>, Fd(MacroT)) : c \in {"(", "["}}
Empties(pre) == {Sym(pre \o <<c, CloseOf(c)>>, Fd(Del(c))) : c \in {"(", "{"}} \cup {Sym(pre \o <<"[", "]">>, Fd(MacroT))}
Values(pre) == {Sym(pre, Fd(t)) : t \in {IdT, OptSemi}}
Closers1 == {<<")">>, <<"]">>, <<"}">>}
Closers2 == {<<")", "]">>, <<"]", ")">>, <<"}", ")">>, <<")", ")">>, <<"}", "]">>}
Closers3 == {x \o y : x \in Closers1, y \in Closers2}
Plain  == Openers(<<>>) \cup Empties(<<>>) \cup Values(<<>>)
AfterC == UNION {Openers(c) \cup Empties(c) \cup Values(c) : c \in Closers1}
After2 == UNION {Values(c) \cup {Sym(c \o <<"(">>, Fd(ParenT))} : c \in Closers2}
Two == {s \in [1..2 -> Plain \cup AfterC] : Nests(s)}
Small == Openers(<<>>) \cup Values(<<>>)
Three == {s \in {<<a, b, c>> : a \in Small, b \in Small, c \in Values(<<>>) \cup AfterC} : Nests(s) /\ \E i \in 1..3 : s[i].sym # <<>>}
ThreeB == {s \in {<<a, b, c>> : a \in Openers(<<>>), b \in Openers(<<>>), c \in After2} : Nests(s)}
Four == {s \in {<<a, b, c, d>> : a \in Openers(<<>>), b \in {Fd(IdT), Sym(<<"{">>, Fd(BraceT))},
                                 c \in {Sym(<<")", "[">>, Fd(BracketT)), Sym(<<"}">>, Fd(IdT)), Sym(<<"]">>, Fd(OptSemi))},
                                 d \in UNION {Values(x) : x \in Closers1}} : Nests(s)}
\* several groups closed, and another one opened, by one field
Reopen == {s \in {<<a, b, c, d, e>> :
                 a \in {Sym(<<o>>, Fd(Del(o))) : o \in Opens}, b \in {Sym(<<"(">>, Fd(ParenT)), Sym(<<"[">>, Fd(MacroT))},
                 c \in {Sym(<<o>>, Fd(Del(o))) : o \in {"(", "{"}},
                 d \in UNION {{Sym(x \o <<"{">>, Fd(BraceT)), Sym(x \o <<"[">>, Fd(MacroT)), Sym(x \o <<"(", ")">>, Fd(ParenT)), Sym(x, Fd(IdT))} :
                             x \in Closers2 \cup Closers3},
                 e \in {Fd(IdT)}} : Nests(s)}
Five == {s \in {<<a, b, c, d, e>> : a \in Openers(<<>>), b \in Small, c \in Small, d \in Values(<<>>) \cup UNION {Values(x) : x \in Closers1},
                                    e \in UNION {Values(x) : x \in Closers1 \cup Closers2}} : Nests(s)}
\* groups inside each other, left open, closed by one field, closed one by one
DeepOpen(i, ch) == LET c == <<"(", "[", "{">>[((i + ch) % 3) + 1] IN Sym(<<c>>, IF (i + ch) % 4 = 1 /\ c # "{" THEN Fd(MacroT) ELSE Fd(Del(c)))
DeepSym(i, ch) == <<"(", "[", "{">>[((i + ch) % 3) + 1]
Nest_(n, ch) == [i \in 1..n |-> DeepOpen(i, ch)] \o <<Fd(IdT)>>
ClosersOf(n, ch) == [i \in 1..n |-> CloseOf(DeepSym(n + 1 - i, ch))]
Deepest == UNION {{Nest_(n, ch), Nest_(n, ch) \o <<Sym(ClosersOf(n, ch), Fd(IdT))>>, Nest_(n, ch) \o <<Sym(SubSeq(ClosersOf(n, ch), 1, n - 1), Fd(OptSemi))>>,
                   Nest_(n, ch) \o [i \in 1..n |-> Sym(<<ClosersOf(n, ch)[i]>>, Fd(IF i % 2 = 1 THEN IdT ELSE OptSemi))]} :
                     n \in IF Deep THEN 4..9 ELSE {4, 5, 7}, ch \in 0..(IF Deep THEN 3 ELSE 1)}
OneField == {<<f>> : f \in Plain \cup {Fd(IntT), Fd(StrT), Fd(T("TokenStream")), Fd(T("Expr")), Fd(T("LitBool")), Fd(T("Pair")), Fd(T("Grp")), Fd(CommaT), Fd(ArrowT), Fd(FnT)}}
Lists == {<<>>} \cup OneField \cup Two \cup Three \cup ThreeB \cup Four \cup Reopen \cup Deepest \cup (IF Deep THEN Five ELSE {})

\* hand picked: other leaf types in groups, nested types, several groups
Extra == <<
  TupV(<<Sym(<<"(">>, Fd(ParenT)), Fd(T("TokenStream")), Sym(<<")">>, Fd(SemiT))>>),
  TupV(<<Fd(IdT), Sym(<<"[">>, Fd(MacroT)), Fd(T("Expr")), Fd(CommaT), Fd(T("Expr"))>>),
  RecV(<<Sym(<<"{">>, Fd(BraceT)), Sym(<<"[">>, Fd(BracketT)), Sym(<<"(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(IdT)), Sym(<<"]">>, Fd(IdT)), Sym(<<"}">>, Fd(IdT))>>),
  RecV(<<Sym(<<"(">>, Fd(ParenT)), Fd(IdT), Sym(<<")", "(">>, Fd(ParenT)), Fd(IdT), Sym(<<")", "(">>, Fd(ParenT)), Fd(IdT)>>),
  TupV(<<Sym(<<"(">>, Fd(ParenT)), Sym(<<"(">>, Fd(ParenT)), Sym(<<"(">>, Fd(MacroT)), Sym(<<")", ")">>, Fd(OptSemi)), Sym(<<")">>, Fd(OptSemi))>>),
  TupV(<<Fd(FnT), Fd(IdT), Sym(<<"(">>, Fd(ParenT)), Sym(<<")">>, Fd(ArrowT)), Fd(IdT), Sym(<<"{">>, Fd(BraceT)), Fd(T("TokenStream"))>>),
  TupV(<<Sym(<<"(">>, Fd(ParenT)), Fd(T("Pair")), Sym(<<")">>, Fd(T("Grp")))>>),
  RecV(<<Fd(T("Grp")), Sym(<<"(">>, Fd(MacroT)), Fd(T("Grp")), Fd(CommaT), Fd(T("Pair")), Sym(<<")">>, Fd(T("LitBool")))>>)>>
Nested == <<   \* refer to Extra by number: they stay first
  TupV(<<Fd(NodeT(1)), Fd(NodeT(4))>>),
  TupV(<<Sym(<<"[">>, Fd(BracketT)), Fd(NodeT(2)), Sym(<<"]">>, Fd(Box(NodeT(1))))>>),
  RecV(<<Fd(IdT), Sym(<<"(">>, Fd(MacroT)), Fd(NodeT(5)), Fd(OptSemi)>>)>>
Lead == [i \in 1..(Len(Extra) + Len(Nested)) |->
           Struct(IF i <= Len(Extra) THEN Extra[i] ELSE Nested[i - Len(Extra)])]
StructDecls == TLCEval(LET fam == Family({Form(IF Cardinality({i \in 1..Len(fs) : fs[i].sym # <<>>}) % 2 = 0 THEN 0 ELSE 2,
                            Struct(IF fs = <<>> THEN UnitV ELSE IF Len(fs) % 2 = 0 THEN RecV(fs) ELSE TupV(fs))) : fs \in Lists})
                    IN Lead \o fam)
=============================================================================
