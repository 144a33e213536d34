------------------------------ MODULE LegalTree ------------------------------
(***************************************************************************)
(* #[derive(Parse)] and #[derive(ToTokens)] as checkers of declarations: a *)
(* small-step machine that reads the attributes token by token and keeps   *)
(* the stack of open groups and what was peeked (parse.rs, to_tokens.rs    *)
(* code_from_fields; to_tokens_attribute.rs), and independently of it what *)
(* a legal declaration is.                                                 *)
(*                                                                         *)
(* A declaration:                                                          *)
(*   [der |-> "Parse"|"ToTokens", item |-> "struct"|"enum"|"union",        *)
(*    attrs |-> <<attribute>>,                                             *)
(*    variants |-> <<[shape, fields |-> <<[id, ty, attrs]>>]>>]            *)
(* an attribute: [path |-> "parse"|"to_tokens",                            *)
(*   form |-> "list"|"path"|"nv", toks |-> <<token>>]                      *)
(* Field number n of the item counts through all variants.                 *)
(***************************************************************************)
EXTENDS Types

CONSTANT Items
VARIABLE m

PA(toks) == [path |-> "parse", form |-> "list", toks |-> toks]
TA(toks) == [path |-> "to_tokens", form |-> "list", toks |-> toks]
AFd(t, as) == [id |-> "", ty |-> t, attrs |-> as]
StrOf(t) == SubSeq(t, 2, Len(t))

ParseArgs == {"any", "peek", "terminated", "dump"}
\* the derive reads its own attribute on the item; on fields Parse reads both
OwnPath(d) == IF d.der = "Parse" THEN "parse" ELSE "to_tokens"
ReadsAttr(d, a) == a.path = "to_tokens" \/ d.der = "Parse"

(***************************************************************************)
(* The machine.                                                            *)
(*   ph   "item" | "attr" | "arg" | "sep" | "sym" | "field" | "variant"    *)
(*        | "end" | "done"                                                 *)
(*   v, k variant and field (v = 0: the item itself);  a, p attribute,     *)
(*        token;  s, c: string and character of the attribute being read   *)
(*   strs the strings of the attribute;  st the closers owed, innermost    *)
(*        first;  root: whether the field touches the outermost level      *)
(*   peek whether the field is peeked;  free: whether an outermost field   *)
(*        was not;  peeks: the fields peeked;  dump                        *)
(***************************************************************************)
Running(d) == [d |-> d, ph |-> "item", v |-> 0, k |-> 0, a |-> 1, p |-> 1, s |-> 1, c |-> 1, strs |-> <<>>, st |-> <<>>,
               root |-> TRUE, peek |-> FALSE, free |-> FALSE, peeks |-> <<>>, dump |-> FALSE,
               out |-> [v |-> "running", at |-> <<0, 0>>, c |-> ""]]
Item == Items[m.d]
Fields == Item.variants[m.v].fields
Attrs == IF m.v = 0 THEN Item.attrs ELSE Fields[m.k].attrs
Attr == Attrs[m.a]
MyAttr == IF m.v = 0 THEN Attr.path = OwnPath(Item) ELSE ReadsAttr(Item, Attr)
Tok == IF m.p <= Len(Attr.toks) THEN Attr.toks[m.p] ELSE ""
Reject(at, why) == m' = [m EXCEPT !.ph = "done", !.out = [v |-> "reject", at |-> at, c |-> why]]
Here == <<m.v, m.k>>
Go(f) == m' = f
NextAttr(f) == Go([f EXCEPT !.ph = "attr", !.a = @ + 1, !.p = 1, !.strs = <<>>])

IsItem    == m.ph = "item" /\ Go([m EXCEPT !.ph = "attr"])
SkipAttr  == m.ph = "attr" /\ m.a <= Len(Attrs) /\ ~MyAttr /\ NextAttr(m)
BadForm   == m.ph = "attr" /\ m.a <= Len(Attrs) /\ MyAttr /\ Attr.form # "list" /\ Reject(Here, "form")
OpenAttr  == m.ph = "attr" /\ m.a <= Len(Attrs) /\ MyAttr /\ Attr.form = "list" /\ Go([m EXCEPT !.ph = "arg"])
\* one argument
Took(f)   == Go([f EXCEPT !.ph = "sep", !.p = @ + 1])
ArgStr    == m.ph = "arg" /\ Attr.path = "to_tokens" /\ IsStr(Tok) /\ Took([m EXCEPT !.strs = Append(@, StrOf(Tok))])
ArgDump   == m.ph = "arg" /\ Tok = "dump" /\ Took([m EXCEPT !.dump = @ \/ m.v = 0])
ArgPeek   == m.ph = "arg" /\ Attr.path = "parse" /\ Tok = "peek" /\ Took([m EXCEPT !.peek = TRUE])
ArgOther  == m.ph = "arg" /\ Attr.path = "parse" /\ Tok \in {"any", "terminated"} /\ Took(m)
ArgBad    == /\ m.ph = "arg" /\ m.p <= Len(Attr.toks)
             /\ IF Attr.path = "parse" THEN Tok \notin ParseArgs ELSE ~IsStr(Tok) /\ Tok # "dump"
             /\ Reject(Here, "arg")
Comma     == m.ph = "sep" /\ Tok = "," /\ Go([m EXCEPT !.ph = "arg", !.p = @ + 1])
NoComma   == m.ph = "sep" /\ m.p <= Len(Attr.toks) /\ Tok # "," /\ Reject(Here, "comma")
CloseAttr == m.ph \in {"arg", "sep"} /\ m.p > Len(Attr.toks) /\ Go([m EXCEPT !.ph = "sym", !.s = 1, !.c = 1])
\* the symbols of the attribute (of a field), character by character
AtSym     == m.ph = "sym" /\ m.v > 0 /\ m.s <= Len(m.strs)
Char      == Ch(m.strs[m.s], m.c)
InStr     == AtSym /\ m.c <= Len(m.strs[m.s])
NextStr   == AtSym /\ m.c > Len(m.strs[m.s]) /\ Go([m EXCEPT !.s = @ + 1, !.c = 1])
SymOpen   == InStr /\ Char \in Opens /\ Go([m EXCEPT !.st = <<CloseOf(Char)>> \o @, !.c = @ + 1])
SymClose  == InStr /\ Char \in Closes /\ m.st # <<>> /\ Head(m.st) = Char
               /\ Go([m EXCEPT !.st = Tail(@), !.root = @ \/ Len(m.st) = 1, !.c = @ + 1])
SymWrong  == InStr /\ Char \in Closes /\ m.st # <<>> /\ Head(m.st) # Char /\ Reject(Here, "mismatch")
SymNone   == InStr /\ Char \in Closes /\ m.st = <<>> /\ Reject(Here, "unopened")
SymBad    == InStr /\ Char \notin Opens \cup Closes /\ Reject(Here, "symbol")
SymEnd    == m.ph = "sym" /\ (m.v = 0 \/ m.s > Len(m.strs)) /\ NextAttr(m)
\* after the attributes
NoAttr    == m.ph = "attr" /\ m.a > Len(Attrs) /\ m.v > 0 /\ Go([m EXCEPT !.ph = "field"])
IsUnion   == m.ph = "attr" /\ m.a > Len(Attrs) /\ m.v = 0 /\ Item.item = "union" /\ Reject(<<0, 0>>, "union")
Peeks     == Item.der = "Parse" /\ Item.item = "enum"
EnterField(f) == Go([f EXCEPT !.ph = IF f.k <= Len(Item.variants[f.v].fields) THEN "attr" ELSE "variant",
                              !.a = 1, !.p = 1, !.strs = <<>>, !.root = f.st = <<>>, !.peek = FALSE])
EnterVariant(f) == IF f.v <= Len(Item.variants)
                   THEN EnterField([f EXCEPT !.k = 1, !.st = <<>>, !.free = FALSE, !.peeks = <<>>])
                   ELSE Go([f EXCEPT !.ph = "end"])
Begin     == m.ph = "attr" /\ m.a > Len(Attrs) /\ m.v = 0 /\ Item.item # "union" /\ EnterVariant([m EXCEPT !.v = 1, !.peek = FALSE])
PeekIn    == m.ph = "field" /\ Peeks /\ m.peek /\ ~m.root /\ Reject(Here, "peek inside")
PeekLate  == m.ph = "field" /\ Peeks /\ m.peek /\ m.root /\ m.free /\ Reject(Here, "peek late")
PeekOk    == m.ph = "field" /\ Peeks /\ m.peek /\ m.root /\ ~m.free
               /\ EnterField([m EXCEPT !.k = @ + 1, !.peeks = Append(@, m.k)])
NoPeek    == m.ph = "field" /\ ~(Peeks /\ m.peek) /\ EnterField([m EXCEPT !.k = @ + 1, !.free = @ \/ m.root])
TooMany   == m.ph = "variant" /\ Len(m.peeks) > 3 /\ Reject(<<m.v, m.peeks[4]>>, "peeks")
NextVar   == m.ph = "variant" /\ Len(m.peeks) <= 3 /\ EnterVariant([m EXCEPT !.v = @ + 1])
Accept    == m.ph = "end" /\ m' = [m EXCEPT !.ph = "done", !.out = [v |-> IF m.dump THEN "dump" ELSE "ok", at |-> <<0, 0>>, c |-> ""]]

Next == \/ IsItem \/ SkipAttr \/ BadForm \/ OpenAttr \/ ArgStr \/ ArgDump \/ ArgPeek \/ ArgOther \/ ArgBad \/ Comma \/ NoComma \/ CloseAttr
        \/ NextStr \/ SymOpen \/ SymClose \/ SymWrong \/ SymNone \/ SymBad \/ SymEnd
        \/ NoAttr \/ IsUnion \/ Begin \/ PeekIn \/ PeekLate \/ PeekOk \/ NoPeek \/ TooMany \/ NextVar \/ Accept
Spec == (\E d \in 1..Len(Items) : m = Running(d)) /\ [][Next]_m

-----------------------------------------------------------------------------
(* What is legal, without the machine.                                     *)
Pieces(toks) ==
  LET cuts == {i \in 1..Len(toks) : toks[i] = ","}
      start(i) == i = 1 \/ (i - 1) \in cuts
      piece(i) == LET ends == {j \in i..Len(toks) : j \in cuts} \cup {Len(toks) + 1}
                  IN SubSeq(toks, i, (CHOOSE j \in ends : \A x \in ends : j <= x) - 1)
  IN {piece(i) : i \in {j \in 1..Len(toks) : start(j)}}
Good(a) == a.form = "list" /\ \A t \in Pieces(a.toks) :
             Len(t) = 1 /\ (IF a.path = "parse" THEN t[1] \in ParseArgs ELSE t[1] = "dump" \/ IsStr(t[1]))
Has(as, x) == \E i \in 1..Len(as) : as[i].path = "parse" /\ \E j \in 1..Len(as[i].toks) : as[i].toks[j] = x

\* the symbols of a variant up to its field k, as <<field, character>>
CharsOf(f) ==
  LET ofAttr(a) == LET c[i \in 0..Len(a.toks)] ==
                         IF i = 0 THEN <<>> ELSE IF IsStr(a.toks[i]) THEN c[i - 1] \o Chars(StrOf(a.toks[i])) ELSE c[i - 1]
                   IN IF a.path = "to_tokens" /\ Good(a) THEN c[Len(a.toks)] ELSE <<>>
      s[i \in 0..Len(f.attrs)] == IF i = 0 THEN <<>> ELSE s[i - 1] \o ofAttr(f.attrs[i])
  IN s[Len(f.attrs)]
Symbols(fs, k) ==
  LET s[i \in 0..k] == IF i = 0 THEN <<>> ELSE s[i - 1] \o [j \in 1..Len(CharsOf(fs[i])) |-> <<i, CharsOf(fs[i])[j]>>]
  IN s[k]
\* [i..j] is a sequence of complete groups
RECURSIVE Complete(_, _, _)
Complete(s, i, j) ==
  \/ i > j
  \/ s[i][2] \in Opens /\ \E n \in (i + 1)..j : s[n][2] = CloseOf(s[i][2]) /\ Complete(s, i + 1, n - 1) /\ Complete(s, n + 1, j)
SymbolOk(s, n) ==
  \/ s[n][2] \in Opens
  \/ s[n][2] \in Closes /\ \E i \in 1..(n - 1) : s[i][2] = OpenOf(s[n][2]) /\ Complete(s, i + 1, n - 1)
SymbolFault(fs, k) == LET s == Symbols(fs, k) IN \E n \in 1..Len(s) : s[n][1] = k /\ ~SymbolOk(s, n)
Depth(s, n) == Cardinality({i \in 1..n : s[i][2] \in Opens}) - Cardinality({i \in 1..n : s[i][2] \in Closes})
\* a field is at the outermost level if no group is open before, between or after its symbols
Outermost(fs, k) == LET s == Symbols(fs, k)  n == Len(Symbols(fs, k - 1)) IN \E i \in n..Len(s) : Depth(s, i) = 0
Peeked(fs, k) == Has(fs[k].attrs, "peek")
PeekFault(fs, k) ==
  /\ Peeked(fs, k)
  /\ \/ ~Outermost(fs, k)
     \/ \E j \in 1..(k - 1) : Outermost(fs, j) /\ ~Peeked(fs, j)
     \/ Cardinality({j \in 1..k : Peeked(fs, j)}) > 3
FieldFault(d, v, k) ==
  LET it == Items[d]  fs == it.variants[v].fields  as == fs[k].attrs IN
  \/ \E i \in 1..Len(as) : ReadsAttr(it, as[i]) /\ ~Good(as[i])
  \/ SymbolFault(fs, k)
  \/ it.der = "Parse" /\ it.item = "enum" /\ PeekFault(fs, k)
ItemFault(d) == LET it == Items[d] IN
  it.item = "union" \/ \E i \in 1..Len(it.attrs) : it.attrs[i].path = OwnPath(it) /\ ~Good(it.attrs[i])
Blame(d) ==
  (IF ItemFault(d) THEN {<<0, 0>>} ELSE {})
    \cup UNION {{<<v, k>> : k \in {x \in 1..Len(Items[d].variants[v].fields) : FieldFault(d, v, x)}} : v \in 1..Len(Items[d].variants)}
Dumps(d) == LET it == Items[d] IN
  \E i \in 1..Len(it.attrs) : it.attrs[i].path = OwnPath(it) /\ \E j \in 1..Len(it.attrs[i].toks) : it.attrs[i].toks[j] = "dump"
Verdict(d) == IF Blame(d) # {} THEN "reject" ELSE IF Dumps(d) THEN "dump" ELSE "ok"

Guards == <<ENABLED IsItem, ENABLED SkipAttr, ENABLED BadForm, ENABLED OpenAttr, ENABLED ArgStr, ENABLED ArgDump, ENABLED ArgPeek, ENABLED ArgOther,
            ENABLED ArgBad, ENABLED Comma, ENABLED NoComma, ENABLED CloseAttr, ENABLED NextStr, ENABLED SymOpen, ENABLED SymClose, ENABLED SymWrong,
            ENABLED SymNone, ENABLED SymBad, ENABLED SymEnd, ENABLED NoAttr, ENABLED IsUnion, ENABLED Begin, ENABLED PeekIn, ENABLED PeekLate,
            ENABLED PeekOk, ENABLED NoPeek, ENABLED TooMany, ENABLED NextVar, ENABLED Accept>>
Deterministic == LET g == Guards IN Cardinality({i \in 1..Len(g) : g[i]}) = (IF m.ph = "done" THEN 0 ELSE 1)
C17 == m.ph = "done" => /\ m.out.v = Verdict(m.d)
                        /\ m.out.v = "reject" => m.out.at \in Blame(m.d)
\* both derives judge the groups alike
Alike == m.ph = "done" /\ m.out.v # "reject" =>
  \A v \in 1..Len(Item.variants) : \A k \in 1..Len(Item.variants[v].fields) : ~SymbolFault(Item.variants[v].fields, k)
Vector == [d |-> m.d, v |-> m.out.v, c |-> m.out.c, at |-> m.out.at, blame |-> Blame(m.d)]
=============================================================================
