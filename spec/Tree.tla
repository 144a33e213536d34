-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* #[derive(Parse)] and #[derive(ToTokens)]: the parser and the printer    *)
(* they generate, each as a deterministic small-step machine with one      *)
(* action per step of the generated code (parse.rs, to_tokens.rs).         *)
(*                                                                         *)
(* A declaration:                                                          *)
(*   [kind |-> "struct" | "enum",                                          *)
(*    variants |-> <<[shape |-> "rec" | "tup" | "unit", fields]>>]         *)
(* (a struct has exactly one "variant"); a field:                          *)
(*   [id, ty, sym, any, term, peek]                                        *)
(*   sym: the characters given to #[to_tokens("..")] as a sequence;        *)
(*   any, term, peek: BOOLEAN, from #[parse(..)].                          *)
(* Types are written as in Types.tla; the ones known here are listed in    *)
(* ReadTy.                                                                 *)
(***************************************************************************)
EXTENDS Types

CONSTANT Decls

\* field constructors
Fd(ty)       == [id |-> "", ty |-> ty, sym |-> <<>>, any |-> FALSE, term |-> FALSE, peek |-> FALSE]
Sym(s, f)    == [f EXCEPT !.sym = s]
AnyF(f)      == [f EXCEPT !.any = TRUE]
Term(f)      == [f EXCEPT !.term = TRUE]
Peek(f)      == [f EXCEPT !.peek = TRUE]
Idd(id, f)   == [f EXCEPT !.id = id]
TupV(fs)     == [shape |-> "tup", fields |-> fs]
RecV(fs)     == [shape |-> "rec", fields |-> [i \in 1..Len(fs) |-> Idd(<<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "s", "t", "u">>[i], fs[i])]]
UnitV        == [shape |-> "unit", fields |-> <<>>]
Struct(v)    == [kind |-> "struct", variants |-> <<v>>]
Enum(vs)     == [kind |-> "enum", variants |-> vs]
NodeT(i)     == [p |-> <<>>, n |-> "@", a |-> <<i>>, q |-> ""]
Punct(t, s)  == T2("Punct", t, s)

ParenT == T("Paren")   BracketT == T("Bracket")   BraceT == T("Brace")
MacroT == T("MacroDelimiter")
IsMacro(ty) == IsMacroDelimiter(ty)

\* The token types Token![..], by the name used for them here.
TokTypes == [Comma |-> ",", Semi |-> ";", Plus |-> "+", FnKw |-> "fn", TypeKw |-> "type", Arrow |-> "->"]

Opening(c) == c \in Opens
Closing(c) == c \in Closes
OpensGroup(f) == \E i \in 1..Len(f.sym) : Opening(f.sym[i])

(***************************************************************************)
(* Values: as in Meta.tla, plus                                            *)
(*   del   a delimiter token: s, e = its opening and closing token         *)
(*   punct a Punctuated: items and separators alternating                  *)
(*   node  a value of a derived type: s = the variant, xs = the fields     *)
(***************************************************************************)
Val(k, s, e, xs) == [k |-> k, s |-> s, e |-> e, xs |-> xs]
VTok(s, e)   == Val("tok", s, e, <<>>)
VDel(s, e)   == Val("del", s, e, <<>>)
VNone        == Val("none", 0, 0, <<>>)
VSome(v)     == Val("some", 0, 0, <<v>>)
VPunct(xs)   == Val("punct", 0, 0, xs)
VNode(v, xs) == Val("node", v, 0, xs)
VUnset       == Val("unset", 0, 0, <<>>)

Ok(v, q, left)  == [ok |-> TRUE, cls |-> "", at |-> 0, v |-> v, q |-> q, left |-> left]
\* at: the token the error is located at, 0 if that is not specified; Len+1 at the end
\* q: the position of the input afterwards, after a failure only where it is specified
Fail(cls, at)   == [ok |-> FALSE, cls |-> cls, at |-> at, v |-> VUnset, q |-> 0, left |-> 0]
First(l1, l2)   == IF l1 # 0 THEN l1 ELSE l2

-----------------------------------------------------------------------------
(* Parsing.  A state m of the parser of one type:                          *)
(*   d, toks, p0, e0   declaration, input, where the value starts, and the *)
(*                     end of the group it is read from                    *)
(*   ph     "variant" | "sym" | "read" | "close" | "ok" | "fail" | "done"  *)
(*   v      variant being tried;  fork: on a fork of the input             *)
(*   forked whether an earlier variant was tried on a fork                 *)
(*   f, s   current field and symbol                                       *)
(*   p      cursor;  gs: open groups, innermost last, [at, end]            *)
(*   dl     the delimiter token of the current field (its last opener)     *)
(*   vals   the fields read so far;  left: first token left in a group     *)
(*   err, out                                                              *)
(***************************************************************************)
NoVal == VUnset
Start(d, toks, p, e) ==
  [d |-> d, toks |-> toks, p0 |-> p, e0 |-> e,
   ph |-> IF Decls[d].kind = "enum" THEN "variant" ELSE "sym",
   v |-> 1, fork |-> FALSE, forked |-> FALSE,
   f |-> 1, s |-> 1, p |-> p, gs |-> <<>>, dl |-> NoVal,
   vals |-> <<>>, left |-> 0, err |-> Fail("", 0), out |-> Fail("running", 0)]

RECURSIVE Run(_), Step(_), ReadTy(_, _, _, _), ReadPunct(_, _, _, _, _, _, _)

ROk(q, v, left) == [ok |-> TRUE, q |-> q, v |-> v, left |-> left, at |-> 0]
RErr(at)        == [ok |-> FALSE, q |-> 0, v |-> VUnset, left |-> 0, at |-> at]

\* A plain value (no `any`, no `terminated`).
ReadTy(ty, toks, p, e) ==
  CASE ty.n = "@" ->
         LET o == Run(Start(ty.a[1], toks, p, e)).out IN
         IF o.ok THEN ROk(o.q, o.v, o.left) ELSE RErr(o.at)
    [] ty.n = "Box" -> ReadTy(ty.a[1], toks, p, e)
    [] ty.n = "Option" ->                    \* syn: Option<Token>
         IF p < e /\ toks[p] = TokTypes[ty.a[1].n] THEN ROk(p + 1, VSome(VTok(p, p + 1)), 0)
         ELSE ROk(p, VNone, 0)
    [] ty.n \in DOMAIN TokTypes ->
         IF p < e /\ toks[p] = TokTypes[ty.n] THEN ROk(p + 1, VTok(p, p + 1), 0) ELSE RErr(p)
    [] OTHER ->
         LET r == ReadLeaf(ty.n, toks, p, e) IN
         IF r.ok THEN ROk(r.q, VTok(p, r.q), 0)
         ELSE RErr(IF ty.n \in {"Expr", "Pair", "Grp"} \/ (p < e /\ toks[p] = "-") THEN 0 ELSE p)

\* Punctuated<item, sep>: the whole of [p, e).
ReadPunct(item, sep, toks, p, e, acc, left) ==
  IF p >= e THEN ROk(p, VPunct(acc), left)
  ELSE LET r == ReadTy(item, toks, p, e) IN
       IF ~r.ok THEN r
       ELSE IF r.q >= e THEN ROk(r.q, VPunct(Append(acc, r.v)), First(left, r.left))
       ELSE LET t == ReadTy(sep, toks, r.q, e) IN
            IF ~t.ok THEN t
            ELSE ReadPunct(item, sep, toks, t.q, e, acc \o <<r.v, t.v>>, First(left, r.left))

IdentAs(any, ty) == IF any /\ ty.n = "Ident" THEN T("AnyIdent") ELSE ty
ReadField(f, toks, p, e) ==
  IF f.term THEN ReadPunct(IdentAs(f.any, f.ty.a[1]), f.ty.a[2], toks, p, e, <<>>, 0)
  ELSE ReadTy(IdentAs(f.any, f.ty), toks, p, e)

Variant(m)  == Decls[m.d].variants[m.v]
Fields(m)   == Variant(m).fields
Field(m)    == Fields(m)[m.f]
Limit(m)    == IF m.gs = <<>> THEN m.e0 ELSE m.gs[Len(m.gs)].end

\* Peeking: the n-th peek of a variant looks at the n-th token tree (punctuation of two
\* characters is two of them, and nothing that is peeked starts at the second one).
Wide2 == {"->", "==", "=>"}
RECURSIVE SkipTrees(_, _, _, _)
SkipTrees(toks, p, e, n) ==
  IF n = 0 \/ p >= e THEN p
  ELSE IF toks[p] \in Wide2 THEN IF n = 1 THEN e ELSE SkipTrees(toks, p + 1, e, n - 2)
  ELSE SkipTrees(toks, AfterTree(toks, p), e, n - 1)
PeekTy(f, toks, p, e) ==
  IF p >= e THEN FALSE
  ELSE CASE f.ty.n = "Paren"   -> toks[p] = "("
         [] f.ty.n = "Bracket" -> toks[p] = "["
         [] f.ty.n = "Brace"   -> toks[p] = "{"
         [] OTHER -> ReadTy(IdentAs(f.any, f.ty), toks, p, e).ok
PeekFields(v) == SelectSeq(v.fields, LAMBDA f : f.peek)
PeeksMatch(v, toks, p, e) ==
  LET ps == PeekFields(v) IN
  \A k \in 1..Len(ps) : PeekTy(ps[k], toks, SkipTrees(toks, p, e, k - 1), e)

NVariants(m) == Len(Decls[m.d].variants)
Enter(m) == [m EXCEPT !.ph = "sym", !.f = 1, !.s = 1, !.p = m.p0, !.gs = <<>>, !.vals = <<>>,
                      !.left = 0, !.dl = NoVal]

\* Choosing a variant ---------------------------------------------------------
AtVariant(m) == m.ph = "variant" /\ m.v <= NVariants(m)
G_PeekHit(m)  == AtVariant(m) /\ PeekFields(Variant(m)) # <<>> /\ PeeksMatch(Variant(m), m.toks, m.p0, m.e0)
E_PeekHit(m)  == [Enter(m) EXCEPT !.fork = FALSE]
G_PeekMiss(m) == AtVariant(m) /\ PeekFields(Variant(m)) # <<>> /\ ~PeeksMatch(Variant(m), m.toks, m.p0, m.e0)
E_PeekMiss(m) == [m EXCEPT !.v = @ + 1]
G_Direct(m)   == AtVariant(m) /\ PeekFields(Variant(m)) = <<>> /\ m.v = NVariants(m) /\ ~m.forked
E_Direct(m)   == [Enter(m) EXCEPT !.fork = FALSE]
G_Fork(m)     == AtVariant(m) /\ PeekFields(Variant(m)) = <<>> /\ ~(m.v = NVariants(m) /\ ~m.forked)
E_Fork(m)     == [Enter(m) EXCEPT !.fork = TRUE, !.forked = TRUE]
G_NoVariant(m) == m.ph = "variant" /\ m.v > NVariants(m)
E_NoVariant(m) == [m EXCEPT !.ph = "done", !.out = [Fail("none", 0) EXCEPT !.q = m.p0]]   \* nothing consumed

\* The symbols of a field -------------------------------------------------------
AtSym(m, Test(_)) == m.ph = "sym" /\ m.f <= Len(Fields(m)) /\ m.s <= Len(Field(m).sym) /\ Test(Field(m).sym[m.s])
GroupHere(m) ==                              \* the group at the cursor is one the field accepts
  LET c == Field(m).sym[m.s] IN
  /\ m.p < Limit(m)
  /\ IF IsMacro(Field(m).ty) THEN m.toks[m.p] \in Opens ELSE m.toks[m.p] = c
G_Open(m) == AtSym(m, Opening) /\ GroupHere(m)
E_Open(m) == LET c == Match(m.toks, m.p) IN
  [m EXCEPT !.gs = Append(@, [at |-> m.p, end |-> c]), !.dl = VDel(m.p, c), !.p = @ + 1, !.s = @ + 1]
G_NoGroup(m) == AtSym(m, Opening) /\ ~GroupHere(m)
E_NoGroup(m) == [m EXCEPT !.ph = "fail", !.err = Fail("delim", m.p)]
G_Close(m) == AtSym(m, Closing)
E_Close(m) == LET g == m.gs[Len(m.gs)] IN
  [m EXCEPT !.gs = SubSeq(@, 1, Len(@) - 1), !.p = g.end + 1, !.s = @ + 1,
            !.left = First(@, IF m.p < g.end THEN m.p ELSE 0)]

\* The value of a field -----------------------------------------------------------
AtValue(m) == m.ph = "sym" /\ m.f <= Len(Fields(m)) /\ m.s > Len(Field(m).sym)
NextField(m, v) == [m EXCEPT !.vals = Append(@, v), !.f = @ + 1, !.s = 1, !.dl = NoVal]
G_Delimiter(m) == AtValue(m) /\ OpensGroup(Field(m))
E_Delimiter(m) == NextField(m, m.dl)
G_Read(m) == AtValue(m) /\ ~OpensGroup(Field(m))
E_Read(m) ==
  LET r == ReadField(Field(m), m.toks, m.p, Limit(m)) IN
  IF r.ok THEN [NextField(m, r.v) EXCEPT !.p = r.q, !.left = First(@, r.left)]
  ELSE [m EXCEPT !.ph = "fail", !.err = Fail("value", r.at)]

\* The end of the fields -------------------------------------------------------------
AtEnd(m) == m.ph = "sym" /\ m.f > Len(Fields(m))
G_Unwind(m) == AtEnd(m) /\ m.gs # <<>>       \* groups still open close at the end
E_Unwind(m) == LET g == m.gs[Len(m.gs)] IN
  [m EXCEPT !.gs = SubSeq(@, 1, Len(@) - 1), !.p = g.end + 1,
            !.left = First(@, IF m.p < g.end THEN m.p ELSE 0)]
G_Finish(m) == AtEnd(m) /\ m.gs = <<>>
E_Finish(m) == [m EXCEPT !.ph = "done", !.out = Ok(VNode(m.v, m.vals), m.p, m.left)]
G_NextVariant(m) == m.ph = "fail" /\ m.fork  \* the fork is thrown away
E_NextVariant(m) == [m EXCEPT !.ph = "variant", !.v = @ + 1, !.p = m.p0, !.left = 0, !.vals = <<>>,
                              !.gs = <<>>, !.f = 1, !.s = 1, !.dl = NoVal, !.fork = FALSE]
G_Failure(m) == m.ph = "fail" /\ ~m.fork
\* The location of the failure is specified if the variant was final: that of a struct, or chosen by peeking.
Committed(m) == Decls[m.d].kind = "struct" \/ PeekFields(Variant(m)) # <<>>
E_Failure(m) == [m EXCEPT !.ph = "done", !.out = IF Committed(m) THEN m.err ELSE Fail(m.err.cls, 0)]

Step(m) ==
  CASE G_PeekHit(m)     -> E_PeekHit(m)
    [] G_PeekMiss(m)    -> E_PeekMiss(m)
    [] G_Direct(m)      -> E_Direct(m)
    [] G_Fork(m)        -> E_Fork(m)
    [] G_NoVariant(m)   -> E_NoVariant(m)
    [] G_Open(m)        -> E_Open(m)
    [] G_NoGroup(m)     -> E_NoGroup(m)
    [] G_Close(m)       -> E_Close(m)
    [] G_Delimiter(m)   -> E_Delimiter(m)
    [] G_Read(m)        -> E_Read(m)
    [] G_Unwind(m)      -> E_Unwind(m)
    [] G_Finish(m)      -> E_Finish(m)
    [] G_NextVariant(m) -> E_NextVariant(m)
    [] G_Failure(m)     -> E_Failure(m)
Run(m) == IF m.ph = "done" THEN m ELSE Run(Step(m))

\* What the caller sees: the whole input has to be consumed.
Observe(o, toks) ==
  IF ~o.ok THEN o
  ELSE IF o.left # 0 THEN Fail("leftover", 0)
  ELSE IF o.q <= Len(toks) THEN Fail("rest", 0) ELSE o
Parse(d, toks) == Observe(Run(Start(d, toks, 1, Len(toks) + 1)).out, toks)

-----------------------------------------------------------------------------
(* Printing.  A state of the printer of one value:                         *)
(*   ph "emit"|"emitted", d, toks (where the value's tokens are), val      *)
(*   f, s   current field and symbol                                       *)
(*   scopes stack of [del, ts]: the token streams being filled, the        *)
(*          outermost first; del: the delimiter that will surround it      *)
(***************************************************************************)
EStart(d, toks, v) ==
  [ph |-> "emit", d |-> d, toks |-> toks, val |-> v, f |-> 1, s |-> 1,
   scopes |-> <<[del |-> VUnset, ts |-> <<>>]>>, out |-> <<>>, src |-> <<>>]
EFields(m) == Decls[m.d].variants[m.val.s].fields
EField(m)  == EFields(m)[m.f]

RECURSIVE ERun(_), EStep(_), EmitTy(_, _, _)
EmitTy(ty, toks, v) ==
  CASE v.k = "none"  -> <<>>
    [] v.k = "some"  -> EmitTy(ty.a[1], toks, v.xs[1])
    [] v.k = "tok"   -> [i \in 1..(v.e - v.s) |-> v.s + i - 1]
    [] v.k = "del"   -> <<v.s, v.e>>
    [] v.k = "punct" -> LET RECURSIVE Cat(_)
                            Cat(i) == IF i > Len(v.xs) THEN <<>>
                                      ELSE EmitTy(ty.a[IF i % 2 = 1 THEN 1 ELSE 2], toks, v.xs[i]) \o Cat(i + 1)
                        IN Cat(1)
    [] v.k = "node"  -> LET i == IF ty.n = "Box" THEN ty.a[1].a[1] ELSE ty.a[1]
                        IN ERun(EStart(i, toks, v)).src

Push(ss, ts) == [ss EXCEPT ![Len(ss)].ts = @ \o ts]
Surrounded(sc) == <<sc.del.s>> \o sc.ts \o <<sc.del.e>>
Pop(m) == LET n == Len(m.scopes) IN Push(SubSeq(m.scopes, 1, n - 1), Surrounded(m.scopes[n]))

EAtSym(m, Test(_)) == m.ph = "emit" /\ m.f <= Len(EFields(m)) /\ m.s <= Len(EField(m).sym) /\ Test(EField(m).sym[m.s])
G_EOpen(m)  == EAtSym(m, Opening)
E_EOpen(m)  == [m EXCEPT !.scopes = Append(@, [del |-> m.val.xs[m.f], ts |-> <<>>]), !.s = @ + 1]
G_EClose(m) == EAtSym(m, Closing)
E_EClose(m) == [m EXCEPT !.scopes = Pop(m), !.s = @ + 1]
G_EValue(m) == m.ph = "emit" /\ m.f <= Len(EFields(m)) /\ m.s > Len(EField(m).sym)
E_EValue(m) ==
  [m EXCEPT !.f = @ + 1, !.s = 1,
            !.scopes = IF OpensGroup(EField(m)) THEN @
                       ELSE Push(@, EmitTy(EField(m).ty, m.toks, m.val.xs[m.f]))]
G_EUnwind(m) == m.ph = "emit" /\ m.f > Len(EFields(m)) /\ Len(m.scopes) > 1
E_EUnwind(m) == [m EXCEPT !.scopes = Pop(m)]
G_EFinish(m) == m.ph = "emit" /\ m.f > Len(EFields(m)) /\ Len(m.scopes) = 1
E_EFinish(m) == LET src == m.scopes[1].ts IN
  [m EXCEPT !.ph = "emitted", !.src = src, !.out = [i \in 1..Len(src) |-> m.toks[src[i]]]]
EStep(m) ==
  CASE G_EOpen(m)   -> E_EOpen(m)
    [] G_EClose(m)  -> E_EClose(m)
    [] G_EValue(m)  -> E_EValue(m)
    [] G_EUnwind(m) -> E_EUnwind(m)
    [] G_EFinish(m) -> E_EFinish(m)
ERun(m) == IF m.ph = "emitted" THEN m ELSE ERun(EStep(m))
PrintOf(d, toks, v) == ERun(EStart(d, toks, v)).out
\* where the printed tokens come from
SourceOf(d, toks, v) == ERun(EStart(d, toks, v)).src
=============================================================================
