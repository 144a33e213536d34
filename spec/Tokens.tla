------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* The input alphabet of all machines: a program fragment is a flat        *)
(* sequence of tokens (strings); groups are flattened into their opening   *)
(* and closing symbols.  Rendering (done by the driver) is                 *)
(*   - `'s`  stands for the string literal "s",                            *)
(*   - a token ending in `~` is written without white space before the     *)
(*     next one (`=~` `-` is `=-`), `==` and `=>` are single tokens,       *)
(*   - all others are written as they are, separated by one blank.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
          "r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
          "R","S","T","U","V","W","X","Y","Z"}
\* Letters beyond ASCII (TLC's strings are bytes when states are stored, so they are
\* written ^ @ % & here, and rendered as \u00e9 \u00df \u00c9 \u540d).
LowerX == {"^", "@"}
UpperX == {"%", "&"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}

\* Characters of a string.
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

Opens  == {"(", "[", "{"}
Closes == {")", "]", "}"}
CloseOf(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}"
OpenOf(c)  == CASE c = ")" -> "(" [] c = "]" -> "[" [] c = "}" -> "{"

IsIdent(t) == Len(t) > 0 /\ Ch(t, 1) \in (Lower \cup Upper \cup {"_"} \cup LowerX \cup UpperX)
IsRaw(t)   == Len(t) > 2 /\ SubSeq(t, 1, 2) = "r#"
IsInt(t)   == Len(t) > 0 /\ Ch(t, 1) \in Digit
IsStr(t)   == Len(t) > 0 /\ Ch(t, 1) = "'"

\* Identifier tokens that are not identifiers for Rust's grammar.
Keywords == {"_", "abstract", "as", "async", "await", "become", "box", "break",
   "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false",
   "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match",
   "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self",
   "self", "static", "struct", "super", "trait", "true", "try", "type",
   "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"}
IsPlainIdent(t) == IsIdent(t) /\ t \notin Keywords
IsName(t) == IsPlainIdent(t) \/ IsRaw(t)
\* Keywords that are expressions on their own.
ExprKeywords == {"self", "Self", "super", "crate", "true", "false", "_"}

IsEq(t) == t \in {"=", "=~"}

\* Matching closer of the opener at position i (flat sequences are balanced).
RECURSIVE MatchFrom(_, _, _)
MatchFrom(toks, i, depth) ==
  IF i > Len(toks) THEN Len(toks) + 1
  ELSE IF toks[i] \in Opens THEN MatchFrom(toks, i + 1, depth + 1)
  ELSE IF toks[i] \in Closes
       THEN IF depth = 1 THEN i ELSE MatchFrom(toks, i + 1, depth - 1)
       ELSE MatchFrom(toks, i + 1, depth)
Match(toks, i) == MatchFrom(toks, i, 0)

\* The position after the token tree that starts at p.
AfterTree(toks, p) == IF toks[p] \in Opens THEN Match(toks, p) + 1 ELSE p + 1

RECURSIVE BalancedFrom(_, _, _)
BalancedFrom(toks, i, stack) ==
  IF i > Len(toks) THEN stack = <<>>
  ELSE IF toks[i] \in Opens THEN BalancedFrom(toks, i + 1, <<CloseOf(toks[i])>> \o stack)
  ELSE IF toks[i] \in Closes
       THEN stack # <<>> /\ Head(stack) = toks[i] /\ BalancedFrom(toks, i + 1, Tail(stack))
       ELSE BalancedFrom(toks, i + 1, stack)
Balanced(toks) == BalancedFrom(toks, 1, <<>>)

-----------------------------------------------------------------------------
(* Results of reading one value at a position inside [p, e).               *)
Read(q)  == [ok |-> TRUE,  q |-> q]
NoRead   == [ok |-> FALSE, q |-> 0]

(***************************************************************************)
(* The part of Rust's expression grammar the inputs use:                   *)
(*   Assign  := Cmp ( '=' Assign )?                                        *)
(*   Cmp     := Sub ( '==' Sub )?              (not associative)           *)
(*   Sub     := Unary ( ('-' | '*') Unary )*                               *)
(*   Unary   := ('-' | '!' | '*') Unary | Postfix                          *)
(*   Postfix := Atom ( '(' Expr,* ')' | '[' Expr ']' )*                    *)
(*   Atom    := int | str | ident | ident '{' ident,* '}'                  *)
(*            | '(' Expr,* ')' | '[' Expr,* ']' | ident '!' group          *)
(***************************************************************************)
RECURSIVE StructFields(_, _, _)
StructFields(toks, p, e) ==
  IF p >= e THEN TRUE
  ELSE IF ~(IsPlainIdent(toks[p]) \/ IsRaw(toks[p])) THEN FALSE
  ELSE IF p + 1 = e THEN TRUE
  ELSE toks[p + 1] = "," /\ StructFields(toks, p + 2, e)
RECURSIVE ReadExpr(_, _, _), ReadCmp(_, _, _), ReadSub(_, _, _), ReadUnary(_, _, _),
          ReadPostfix(_, _, _), ReadExprList(_, _, _)
ReadExprList(toks, p, e) ==        \* the whole of [p, e) as Expr,*
  IF p >= e THEN TRUE
  ELSE LET r == ReadExpr(toks, p, e) IN
       IF ~r.ok THEN FALSE
       ELSE IF r.q = e THEN TRUE
       ELSE IF toks[r.q] = "," THEN ReadExprList(toks, r.q + 1, e)
       ELSE FALSE
ReadPostfix(toks, q, e) ==
  IF q < e /\ toks[q] = "("
  THEN LET c == Match(toks, q) IN
       IF ReadExprList(toks, q + 1, c) THEN ReadPostfix(toks, c + 1, e) ELSE NoRead
  ELSE IF q < e /\ toks[q] = "["
  THEN LET c == Match(toks, q)
           r == ReadExpr(toks, q + 1, c)
       IN IF r.ok /\ r.q = c THEN ReadPostfix(toks, c + 1, e) ELSE NoRead
  ELSE Read(q)
ReadUnary(toks, p, e) ==
  IF p >= e THEN NoRead
  ELSE IF toks[p] \in {"-", "!", "*"} THEN ReadUnary(toks, p + 1, e)
  ELSE IF IsInt(toks[p]) \/ IsStr(toks[p]) \/ IsRaw(toks[p])
          \/ IsPlainIdent(toks[p]) \/ toks[p] \in ExprKeywords
       THEN IF p + 1 < e /\ toks[p + 1] = "{" /\ ~IsInt(toks[p]) /\ ~IsStr(toks[p]) /\ toks[p] \notin {"true", "false", "_"}
            THEN LET c == Match(toks, p + 1) IN
                 IF StructFields(toks, p + 2, c) THEN ReadPostfix(toks, c + 1, e) ELSE NoRead
            ELSE IF p + 1 < e /\ toks[p + 1] = "!" /\ ~IsInt(toks[p]) /\ ~IsStr(toks[p]) /\ toks[p] \notin {"true", "false", "_"}
            THEN IF p + 2 < e /\ toks[p + 2] \in Opens THEN ReadPostfix(toks, Match(toks, p + 2) + 1, e) ELSE NoRead
            ELSE ReadPostfix(toks, p + 1, e)
  ELSE IF toks[p] \in {"(", "["}
       THEN LET c == Match(toks, p) IN
            IF ReadExprList(toks, p + 1, c) THEN ReadPostfix(toks, c + 1, e) ELSE NoRead
  ELSE NoRead
ReadSub(toks, p, e) ==
  LET l == ReadUnary(toks, p, e) IN
  IF l.ok /\ l.q < e /\ toks[l.q] \in {"-", "*"} THEN ReadSub(toks, l.q + 1, e) ELSE l
ReadCmp(toks, p, e) ==
  LET l == ReadSub(toks, p, e) IN
  IF ~l.ok THEN NoRead
  ELSE IF l.q < e /\ toks[l.q] = "=="
       THEN LET r == ReadSub(toks, l.q + 1, e) IN
            IF ~r.ok THEN NoRead
            ELSE IF r.q < e /\ toks[r.q] = "==" THEN NoRead ELSE r
       ELSE l
ReadExpr(toks, p, e) ==
  LET l == ReadCmp(toks, p, e) IN
  IF ~l.ok THEN NoRead
  ELSE IF l.q < e /\ IsEq(toks[l.q]) THEN ReadExpr(toks, l.q + 1, e) ELSE l

\* Reading a leaf value type named `ty` (a type the derives know nothing about).
ReadLeaf(ty, toks, p, e) ==
  CASE ty \in {"LitInt", "MyInt"} ->
         IF p < e /\ IsInt(toks[p]) THEN Read(p + 1)
         ELSE IF p + 1 < e /\ toks[p] = "-" /\ IsInt(toks[p + 1]) THEN Read(p + 2)
         ELSE NoRead
    [] ty = "LitStr"  -> IF p < e /\ IsStr(toks[p]) THEN Read(p + 1) ELSE NoRead
    [] ty = "Ident"   -> IF p < e /\ (IsPlainIdent(toks[p]) \/ IsRaw(toks[p]))
                         THEN Read(p + 1) ELSE NoRead
    [] ty = "AnyIdent"-> IF p < e /\ (IsIdent(toks[p]) \/ IsRaw(toks[p]))
                         THEN Read(p + 1) ELSE NoRead
    [] ty = "Expr"    -> ReadExpr(toks, p, e)
    [] ty = "TokenStream" -> Read(e)
    [] ty = "LitBool" -> IF p < e /\ toks[p] \in {"true", "false"} THEN Read(p + 1) ELSE NoRead
    \* user types: two identifiers with a comma between them; a parenthesised identifier
    [] ty = "Pair" -> IF p + 2 < e /\ IsName(toks[p]) /\ toks[p + 1] = "," /\ IsName(toks[p + 2])
                      THEN Read(p + 3) ELSE NoRead
    [] ty = "Grp"  -> IF p < e /\ toks[p] = "(" /\ Match(toks, p) = p + 2 /\ IsName(toks[p + 1])
                      THEN Read(p + 3) ELSE NoRead

Leaves == {"LitInt", "LitStr", "Ident", "AnyIdent", "Expr", "TokenStream", "LitBool", "Pair", "Grp"}
\* Leaf types that may read across a comma.
GreedyLeaves == {"TokenStream", "Pair"}
=============================================================================
