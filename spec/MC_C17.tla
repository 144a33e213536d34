------------------------------- MODULE MC_C17 -------------------------------
(* Declarations for derive(Parse) and derive(ToTokens): all short sequences *)
(* of symbols in every distribution over fields, all placements of peek,    *)
(* all short attribute arguments.                                           *)
EXTENDS LegalTree, SequencesExt, Json

CONSTANT Deep

IdT == T("Ident")
IntT == T("LitInt")
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Str(cs) == LET c[i \in 0..Len(cs)] == IF i = 0 THEN "'" ELSE c[i - 1] \o cs[i] IN c[Len(cs)]
Del(c) == CASE c = "(" -> T("Paren") [] c = "[" -> T("Bracket") [] c = "{" -> T("Brace")
\* a type that fits the symbols of a field: nothing else than these may make rustc complain
OpensOf(cs) == {cs[i] : i \in {j \in 1..Len(cs) : cs[j] \in Opens}}
TypeFor(cs) == LET o == OpensOf(cs) IN
  IF o = {} THEN IdT ELSE IF Cardinality(o) = 1 THEN Del(CHOOSE c \in o : TRUE) ELSE T("MacroDelimiter")
SymField(cs) == AFd(TypeFor(cs), IF cs = <<>> THEN <<>> ELSE <<TA(<<Str(cs)>>)>>)
St(der, fs) == [der |-> der, item |-> "struct", attrs |-> <<>>, variants |-> <<[shape |-> "tup", fields |-> fs]>>]
En(der, vs) == [der |-> der, item |-> "enum", attrs |-> <<>>, variants |-> [i \in 1..Len(vs) |-> [shape |-> "tup", fields |-> vs[i]]]]
\* one field opening a group directly inside a group it opened itself: rustc decides (Parse)
Stacked(cs) == \E i, j \in 1..Len(cs) : i < j /\ cs[i] \in Opens /\ cs[j] \in Opens /\ \A n \in i..j : cs[n] \in Opens
Fit(der, fs) == der = "ToTokens" \/ \A i \in 1..Len(fs) : ~Stacked(CharsOf(fs[i]))

\* A. sequences of symbols: on one field, one per field, or cut in the middle
Syms4 == SeqsUpTo({"(", ")", "[", "]"}, IF Deep THEN 5 ELSE 4)
Syms3 == SeqsUpTo({"(", ")", "[", "]", "{", "}", "x"}, 3)
Cuts(s) == {<<SymField(s)>>, <<SymField(s), SymField(<<>>)>>, [i \in 1..Len(s) |-> SymField(<<s[i]>>)],
            <<SymField(SubSeq(s, 1, Len(s) \div 2)), SymField(<<>>), SymField(SubSeq(s, Len(s) \div 2 + 1, Len(s)))>>}
SymbolLists == UNION {Cuts(s) : s \in Syms4 \cup Syms3}
OddChars == {<<AFd(IF x = "'" THEN IdT ELSE T("Paren"), <<TA(<<x>>)>>)>> : x \in {"'( ", "' (", "'(x", "'<", "'()", "'", "'(\"", "',"}}
              \cup {<<AFd(T("Paren"), <<TA(<<"'(", ",", x>>)>>), AFd(IdT, <<TA(<<y>>), TA(<<z>>)>>)>> : x \in {"'", "')", "']"}, y \in {"'", "')", "'>"}, z \in {"'", "'}"}}
\* (in enums every variant starts with no open group)
TwoVariants == {<<a, b>> : a \in {<<SymField(<<"(">>)>>, <<SymField(<<"(">>), SymField(<<")">>)>>, <<>>},
                           b \in {<<SymField(<<")">>)>>, <<SymField(<<"(">>), SymField(<<"]">>)>>, <<SymField(<<"[", "]">>)>>, <<SymField(<<"x">>)>>}}
SymbolItems ==
  {d \in {St(der, fs) : der \in {"Parse", "ToTokens"}, fs \in SymbolLists \cup OddChars} : Fit(d.der, d.variants[1].fields)}
    \cup {En(der, vs) : der \in {"Parse", "ToTokens"}, vs \in TwoVariants \cup {<<b[2], b[1]>> : b \in TwoVariants}}

\* B. peek
Pk(cs, as) == [SymField(cs) EXCEPT !.attrs = @ \o <<PA(<<"peek">>)>>]
PeekKinds == {SymField(<<>>), Pk(<<>>, 0), SymField(<<"(">>), Pk(<<"(">>, 0), SymField(<<")">>), Pk(<<")">>, 0)}
MoreKinds == PeekKinds \cup {Pk(<<"(", ")">>, 0), SymField(<<")", "(">>), Pk(<<")", "(">>, 0), Pk(<<"[">>, 0), SymField(<<"]">>)}
PeekBodies == SeqsUpTo(MoreKinds, 2) \cup SeqsUpTo(PeekKinds, IF Deep THEN 4 ELSE 3)
                \cup SeqsUpTo({Pk(<<>>, 0), Pk(<<"(">>, 0), Pk(<<")">>, 0)}, IF Deep THEN 6 ELSE 5)
\* (a second peek argument, in another attribute, changes nothing)
Twice(f) == [f EXCEPT !.attrs = <<PA(<<"peek", ",", "peek">>)>> \o @]
PeekItems ==
  {En("Parse", <<b>>) : b \in PeekBodies} \cup {En("Parse", <<a, b>>) : a, b \in SeqsUpTo({SymField(<<>>), Pk(<<>>, 0), Pk(<<"(">>, 0)}, 2)}
    \cup {St("Parse", b) : b \in SeqsUpTo(MoreKinds, 2)} \cup {St("ToTokens", [i \in 1..Len(b) |-> [b[i] EXCEPT !.attrs = SelectSeq(@, LAMBDA a : a.path = "to_tokens")]]) : b \in SeqsUpTo(MoreKinds, 2)}
    \cup {En("Parse", <<[i \in 1..Len(b) |-> Twice(b[i])]>>) : b \in SeqsUpTo({Pk(<<>>, 0), Pk(<<"(">>, 0)}, 4)}

\* C. arguments of the attributes
PToks == {"any", "peek", "terminated", "dump", "foo", ",", "'(", "()"}
TToks == {"'(", "'[", "dump", ",", "any", "1", "()", "'"}
PLists == SeqsUpTo(PToks, IF Deep THEN 4 ELSE 3) \cup {<<"any", ",">> \o x : x \in SeqsUpTo(PToks, 2)}
TLists == {t \in SeqsUpTo(TToks, IF Deep THEN 4 ELSE 3) : ~\E i, j \in 1..Len(t) : i < j /\ t[i] \in {"'(", "'["} /\ t[j] \in {"'(", "'["}}
PunctT == T2("Punct", IdT, T("Comma"))
HasTok(t, x) == \E i \in 1..Len(t) : t[i] = x
ArgItems ==
  {St("Parse", <<AFd(IF HasTok(t, "terminated") THEN PunctT ELSE IdT, <<PA(t)>>)>>) : t \in PLists}
    \cup {St(der, <<AFd(IF HasTok(t, "'(") THEN T("Paren") ELSE IF HasTok(t, "'[") THEN T("Bracket") ELSE IdT, <<TA(t)>>)>>) :
             der \in {"Parse", "ToTokens"}, t \in TLists}
    \* on the item: its own attribute and the other one
    \cup {[St("Parse", <<AFd(IdT, <<>>)>>) EXCEPT !.attrs = <<PA(t)>>] : t \in SeqsUpTo(PToks, 2)}
    \cup {[En("ToTokens", <<<<AFd(IdT, <<>>)>>>>) EXCEPT !.attrs = <<TA(t)>>] : t \in SeqsUpTo(TToks, 2)}
    \cup {[St("Parse", <<AFd(IdT, <<>>)>>) EXCEPT !.attrs = <<TA(t)>>] : t \in {<<"foo">>, <<"dump">>, <<"'(">>}}
    \cup {[St("Parse", <<AFd(IdT, <<>>)>>) EXCEPT !.attrs = <<PA(t), PA(u)>>] : t, u \in {<<>>, <<"dump">>, <<"foo">>, <<"any", ",">>}}
Form(path, f) == [path |-> path, form |-> f, toks |-> <<>>]
FormItems ==
  {[St(x.der, <<AFd(IdT, <<>>)>>) EXCEPT !.attrs = <<Form(x.path, f)>>] : f \in {"path", "nv"},
      x \in {[der |-> "Parse", path |-> "parse"], [der |-> "ToTokens", path |-> "to_tokens"]}}
   \cup {St(x.der, <<AFd(IntT, <<>>), AFd(IdT, <<Form(x.path, f)>>)>>) : f \in {"path", "nv"},
      x \in {[der |-> "Parse", path |-> "parse"], [der |-> "Parse", path |-> "to_tokens"], [der |-> "ToTokens", path |-> "to_tokens"]}}
\* D. item kinds
Unions == {[der |-> der, item |-> "union", attrs |-> as, variants |-> <<[shape |-> "rec", fields |-> <<[id |-> "a", ty |-> IntT, attrs |-> <<>>]>>]>>] :
              der \in {"Parse", "ToTokens"}, as \in {<<>>, <<PA(<<"dump">>)>>, <<TA(<<"dump">>)>>, <<PA(<<"foo">>)>>, <<TA(<<"foo">>)>>}}
Usable(d) == \A i \in 1..Len(d.attrs) : d.der = "Parse" \/ d.attrs[i].path = "to_tokens"
Empty == {x \in {[der |-> der, item |-> "enum", attrs |-> as, variants |-> <<>>] :
              der \in {"Parse", "ToTokens"}, as \in {<<>>, <<PA(<<"foo">>)>>, <<PA(<<"dump">>)>>, <<TA(<<"dump">>)>>, <<TA(<<"foo">>)>>}} : Usable(x)}
           \cup {[der |-> der, item |-> "struct", attrs |-> <<>>, variants |-> <<[shape |-> "unit", fields |-> <<>>]>>] : der \in {"Parse", "ToTokens"}}
TheItems == TLCEval(SetToSeq(SymbolItems \cup PeekItems \cup ArgItems \cup FormItems \cup {d \in Unions : Usable(d)} \cup Empty))
Emit == m.ph = "done" => PrintT("@V " \o ToJson(Vector))
ASSUME PrintT("@D " \o ToJson(Items))
=============================================================================
