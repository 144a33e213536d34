------------------------------ MODULE TreeBase ------------------------------
(* Helpers shared by the bounded families of the Parse/ToTokens properties. *)
EXTENDS TreeSpec, SequencesExt

CONSTANT Deep          \* TRUE in the thorough tier

IntT == T("LitInt")  StrT == T("LitStr")  IdT == T("Ident")
CommaT == T("Comma") SemiT == T("Semi")   PlusT == T("Plus")  FnT == T("FnKw") ArrowT == T("Arrow")
OptSemi == T1("Option", SemiT)
Box(t) == T1("Box", t)

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Tag(x, d) == d @@ [tag |-> x]
Form(k, d) == d @@ [form |-> k]
Family(S) == TLCEval(SetToSeq(S))

\* whether the symbols of a field list nest (from the stack of closers owed)
\* (no RECURSIVE operators here: TLC would evaluate the families that use them again and again)
Nests(fs) ==
  LET cat[i \in 0..Len(fs)] == IF i = 0 THEN <<>> ELSE cat[i - 1] \o fs[i].sym
      cs == cat[Len(fs)]
      bad == <<"bad">>
      st[i \in 0..Len(cs)] ==
        IF i = 0 THEN <<>>
        ELSE LET q == st[i - 1] IN
             IF q = bad THEN bad
             ELSE IF cs[i] \in Opens THEN <<CloseOf(cs[i])>> \o q
             ELSE IF q # <<>> /\ Head(q) = cs[i] THEN Tail(q) ELSE bad
  IN st[Len(cs)] # bad

\* Some token sequences of a value of each type.
RECURSIVE LeafTexts(_, _), FieldsTexts(_, _, _, _, _), DeclTexts(_, _)
LeafTexts(ty, n) ==
  CASE ty.n = "Ident"  -> {<<"x">>}
    [] ty.n = "AnyIdent" -> {<<"fn">>, <<"x">>}
    [] ty.n = "LitInt" -> {<<"1">>}
    [] ty.n = "LitStr" -> {<<"'s">>}
    [] ty.n = "LitBool" -> {<<"true">>}
    [] ty.n = "Pair" -> {<<"x", ",", "y">>}
    [] ty.n = "Grp" -> {<<"(", "x", ")">>}
    [] ty.n = "Expr"   -> {<<"x">>, <<"x", "(", "1", ")">>}
    [] ty.n = "TokenStream" -> {<<>>, <<"x", ";", "(", ")">>}
    [] ty.n = "Option" -> {<<>>, <<TokTypes[ty.a[1].n]>>}
    [] ty.n \in DOMAIN TokTypes -> {<<TokTypes[ty.n]>>}
    [] ty.n = "Box" -> LeafTexts(ty.a[1], n)
    [] ty.n = "@" -> IF n = 0 THEN {} ELSE DeclTexts(ty.a[1], n - 1)
    [] ty.n = "Punct" -> LET X == LeafTexts(ty.a[1], n)  c == TokTypes[ty.a[2].n] IN
         {<<>>} \cup X \cup {x \o <<c>> : x \in X} \cup {x \o <<c>> \o y : x, y \in X} \cup {x \o <<c>> \o y \o <<c>> : x, y \in X}
FieldsTexts(fs, lay, j, opened, n) ==
  IF j > Len(lay) THEN {<<>>}
  ELSE LET it == lay[j] IN
  CASE it.k = "open" ->
         UNION {{<<o>> \o r : r \in FieldsTexts(fs, lay, j + 1, <<CloseOf(o)>> \o opened, n)} :
                  o \in IF IsMacro(fs[it.i].ty) THEN Opens ELSE {it.c}}
    [] it.k = "close" -> {<<Head(opened)>> \o r : r \in FieldsTexts(fs, lay, j + 1, Tail(opened), n)}
    [] it.k = "value" ->
         LET X == LeafTexts(IF fs[it.i].term
                            THEN [fs[it.i].ty EXCEPT !.a[1] = IdentAs(fs[it.i].any, @)]
                            ELSE IdentAs(fs[it.i].any, fs[it.i].ty), n)
             R == FieldsTexts(fs, lay, j + 1, opened, n)
         IN {x \o r : x \in X, r \in R}
VariantTexts(v, n) == FieldsTexts(v.fields, Layout(v.fields), 1, <<>>, n)
DeclTexts(d, n) == UNION {VariantTexts(Decls[d].variants[v], n) : v \in 1..Len(Decls[d].variants)}

\* All inputs that differ from t by one token tree removed, inserted or one delimiter changed.
Trees == {<<"x">>, <<"1">>, <<";">>, <<",">>, <<"(", ")">>}
InsTree(t, i, x) == SubSeq(t, 1, i) \o x \o SubSeq(t, i + 1, Len(t))
WithoutTok(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Edits(t) ==
  {InsTree(t, i, x) : i \in 0..Len(t), x \in Trees}
   \cup {WithoutTok(t, i) : i \in {j \in 1..Len(t) : t[j] \notin Opens \cup Closes}}
   \cup {WithoutTok(WithoutTok(t, Match(t, i)), i) : i \in {j \in 1..Len(t) : t[j] \in Opens}}   \* unwrap
   \cup {SubSeq(t, 1, i - 1) \o SubSeq(t, Match(t, i) + 1, Len(t)) : i \in {j \in 1..Len(t) : t[j] \in Opens}}
   \cup UNION {{[t EXCEPT ![i] = o, ![Match(t, i)] = CloseOf(o)] : o \in Opens} : i \in {j \in 1..Len(t) : t[j] \in Opens}}
   \cup {[t EXCEPT ![i] = x] : i \in {j \in 1..Len(t) : t[j] \notin Opens \cup Closes}, x \in {"x", "1", "fn"}}

\* Values of each type over a token pool, for printing.
Pool == <<"x", "y", "z", "1", "2", "'s", ";", ",", "+", "fn", "type", "->", "(", ")", "[", "]", "{", "}", "true", "y", ",", "x", "(", "y", ")", "x", ";", "(", "1", ")">>
At(x) == CHOOSE i \in 1..Len(Pool) : Pool[i] = x /\ \A j \in 1..(i - 1) : Pool[j] # x
Tk(x) == VTok(At(x), At(x) + 1)
Dl(c) == VDel(At(c), At(c) + 1)
Alternating(X, S, n) ==      \* lists with up to n items, with and without a trailing separator
  LET RECURSIVE L(_)
      L(k) == IF k = 0 THEN {<<>>}
              ELSE LET R == L(k - 1) IN {<<x>> : x \in X} \cup {<<x, c>> \o r : x \in X, c \in S, r \in R}
  IN L(n)
RECURSIVE LeafValues(_, _), DeclValues(_, _), VariantValues(_, _), FieldValues(_, _, _)
LeafValues(ty, n) ==
  CASE ty.n = "Ident"  -> {Tk("x"), Tk("y")}
    [] ty.n = "AnyIdent" -> {Tk("x"), Tk("fn")}
    [] ty.n = "LitInt" -> {Tk("1"), Tk("2")}
    [] ty.n = "LitStr" -> {Tk("'s")}
    [] ty.n = "LitBool" -> {Tk("true")}
    [] ty.n = "Pair" -> {VTok(At("true") + 1, At("true") + 4)}
    [] ty.n = "Grp" -> {VTok(At("true") + 4, At("true") + 7)}
    [] ty.n = "Expr"   -> {Tk("x"), Tk("2")}
    [] ty.n = "TokenStream" -> {VTok(1, 1), VTok(Len(Pool) - 4, Len(Pool) + 1), Tk("y")}
    [] ty.n = "Option" -> {VNone} \cup {VSome(v) : v \in LeafValues(ty.a[1], n)}
    [] ty.n \in DOMAIN TokTypes -> {Tk(TokTypes[ty.n])}
    [] ty.n = "Paren" -> {Dl("(")} [] ty.n = "Bracket" -> {Dl("[")} [] ty.n = "Brace" -> {Dl("{")}
    [] ty.n = "MacroDelimiter" -> IF IsMacro(ty) THEN {Dl(c) : c \in Opens} ELSE {Dl("(")}
    [] ty.n = "Box" -> LeafValues(ty.a[1], n)
    [] ty.n = "@" -> IF n = 0 THEN {} ELSE DeclValues(ty.a[1], n - 1)
    [] ty.n = "Punct" -> LET X == LeafValues(ty.a[1], n)  S == LeafValues(ty.a[2], n)
                         IN {VPunct(xs) : xs \in Alternating(X, S, 2)}
FieldValues(fs, i, n) ==
  IF i > Len(fs) THEN {<<>>}
  ELSE LET f == fs[i]
           X == LeafValues(IF ~f.any THEN f.ty
                           ELSE IF f.term THEN [f.ty EXCEPT !.a[1] = T("AnyIdent")] ELSE T("AnyIdent"), n)
           R == FieldValues(fs, i + 1, n)
       IN {<<x>> \o r : x \in X, r \in R}
VariantValues(v, n) == FieldValues(v.fields, 1, n)
DeclValues(d, n) == UNION {{VNode(v, xs) : xs \in VariantValues(Decls[d].variants[v], n)} : v \in 1..Len(Decls[d].variants)}

PickInit(S) == \E d \in S : m = [ph |-> "pick", d |-> d]
Picked(t) == m.ph = "pick" /\ m' = Start(m.d, t, 1, Len(t) + 1)
PickedV(t, v) == m.ph = "pick" /\ m' = EStart(m.d, t, v)
Running == m.ph # "pick" /\ Next
=============================================================================
