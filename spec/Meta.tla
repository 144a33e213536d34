-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* #[derive(StructMeta)]: what the derive computes from a declaration, and *)
(* the parser it generates, as a deterministic small-step machine with one *)
(* action per decision of the generated code                               *)
(* (struct_meta.rs Params::build, helpers.rs try_parse_name).              *)
(*                                                                         *)
(* A declaration:                                                          *)
(*   [shape |-> "rec" | "tup" | "unit", filter |-> BOOLEAN,                *)
(*    fields |-> <<[id, name, unnamed, ty]>>]                              *)
(*   id: field identifier ("" in tuples), name: from                       *)
(*   #[struct_meta(name = "..")] ("" = none), unnamed: from                *)
(*   #[struct_meta(unnamed)].                                              *)
(***************************************************************************)
EXTENDS Types

CONSTANT Decls        \* sequence of declarations; nested ones refer to it

F(id, t)       == [id |-> id, name |-> "", unnamed |-> FALSE, ty |-> t]
FN(id, nm, t)  == [id |-> id, name |-> nm, unnamed |-> FALSE, ty |-> t]
FU(id, t)      == [id |-> id, name |-> "", unnamed |-> TRUE, ty |-> t]
Rec(fs)        == [shape |-> "rec", filter |-> FALSE, fields |-> fs]
Tup(fs)        == [shape |-> "tup", filter |-> FALSE, fields |-> fs]
Unit           == [shape |-> "unit", filter |-> FALSE, fields |-> <<>>]
Filtered(d)    == [d EXCEPT !.filter = TRUE]
\* A value type that is itself a struct deriving StructMeta: declaration number i.
MetaT(i)       == [p |-> <<>>, n |-> "@", a |-> <<i>>, q |-> ""]

Unraw(s) == IF IsRaw(s) THEN SubSeq(s, 3, Len(s)) ELSE s

(***************************************************************************)
(* Field classification (struct_meta.rs Param::from_field).                *)
(*   role: "req" | "opt" | "var" (unnamed), "named", "rest", "bad"         *)
(***************************************************************************)
ParamOf(f) ==
  LET isMap == f.name = "" /\ IsMap(f.ty)
      isOpt == ~isMap /\ IsOption(f.ty)
      ty    == IF isMap THEN f.ty.a[2] ELSE IF isOpt THEN f.ty.a[1] ELSE f.ty
      pt    == ParamType(ty, ~isMap /\ ~isOpt)
      name  == IF f.unnamed THEN "" ELSE IF f.name # "" THEN f.name ELSE Unraw(f.id)
      role  == IF isMap THEN "rest"
               ELSE IF name # "" THEN "named"
               ELSE IF pt.k # "value" \/ (isOpt /\ pt.vec) THEN "bad"
               ELSE IF pt.vec THEN "var" ELSE IF isOpt THEN "opt" ELSE "req"
  IN [role |-> role, name |-> name, pt |-> pt, opt |-> isOpt]

Params(d) == [i \in 1..Len(d.fields) |-> ParamOf(d.fields[i])]

FilterIdx(ps, Test(_)) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : Test(ps[i]))

\* Everything the generated code knows (struct_meta.rs Params::from_fields / build).
Compile(d) ==
  LET ps    == Params(d)
      named == FilterIdx(ps, LAMBDA x : x.role = "named")
      rest  == FilterIdx(ps, LAMBDA x : x.role = "rest")
      var   == FilterIdx(ps, LAMBDA x : x.role = "var")
      opt   == FilterIdx(ps, LAMBDA x : x.role = "opt")
      stys(st) == {ps[i].name : i \in {j \in 1..Len(ps) :
                       ps[j].role = "named" /\ Takes(ps[j].pt, st)}}
      restTakes(st) == rest # <<>> /\ Takes(ps[rest[1]].pt, st)
  IN [ps     |-> ps,
      req    |-> FilterIdx(ps, LAMBDA x : x.role = "req"),
      opt    |-> opt,
      var    |-> IF var = <<>> THEN 0 ELSE var[1],
      named  |-> named,
      rest   |-> IF rest = <<>> THEN 0 ELSE rest[1],
      names  |-> [flag |-> stys("flag"), value |-> stys("value"), args |-> stys("args")],
      restTakes |-> [flag |-> restTakes("flag"), value |-> restTakes("value"),
                     args |-> restTakes("args")],
      noUnnamed |-> opt = <<>> /\ var = <<>>,
      filter |-> d.filter]

Comp == LET ds == Decls IN TLCEval([i \in 1..Len(ds) |-> Compile(ds[i])])

(***************************************************************************)
(* Values.  Token positions are indices into the whole input; `at` is the  *)
(* position of the name token that set a Flag / NameValue / NameArgs.      *)
(* (All kinds have the same fields, so that values can be compared.)       *)
(***************************************************************************)
Val(k, s, e, at, xs) == [k |-> k, s |-> s, e |-> e, at |-> at, xs |-> xs]
VTok(s, e)    == Val("tok", s, e, 0, <<>>)
VNone         == Val("none", 0, 0, 0, <<>>)
VSome(v)      == Val("some", 0, 0, 0, <<v>>)
VList(vs)     == Val("list", 0, 0, 0, vs)
VBool(b)      == Val(IF b THEN "true" ELSE "false", 0, 0, 0, <<>>)
VFlag(at)     == Val("flag", 0, 0, at, <<>>)           \* at = 0: not set
VNv(at, v)    == Val("nv", 0, 0, at, <<v>>)
VNa(at, v)    == Val("na", 0, 0, at, <<v>>)
VEntry(at, v) == Val("entry", 0, 0, at, <<v>>)         \* a rest entry, key = token `at`
VMap(es)      == Val("map", 0, 0, 0, es)
VMeta(vs)     == Val("meta", 0, 0, 0, vs)
VUnset        == Val("unset", 0, 0, 0, <<>>)

\* Outcome of a parse.  at = 0: position not specified.
\* alt: all messages that may be given (several missing parameters: one is reported).
Ok(v, left)          == [ok |-> TRUE, cls |-> "", at |-> left, msg |-> "", alt |-> {}, v |-> v]
FailAny(cls, at, ms) == [ok |-> FALSE, cls |-> cls, at |-> at, msg |-> CHOOSE x \in ms : TRUE,
                         alt |-> ms, v |-> VUnset]
Fail(cls, at, msg)   == [ok |-> FALSE, cls |-> cls, at |-> at, msg |-> msg, alt |-> {}, v |-> VUnset]

(***************************************************************************)
(* Similar names (helpers.rs distance, find_similar_name).                 *)
(***************************************************************************)
RECURSIVE CommonFrom(_, _, _)
CommonFrom(a, b, i) ==                     \* length of the common prefix
  IF i <= Len(a) /\ i <= Len(b) /\ Ch(a, i) = Ch(b, i) THEN CommonFrom(a, b, i + 1)
  ELSE i - 1
RECURSIVE CommonEnd(_, _, _, _)
CommonEnd(a, b, start, n) ==               \* ... of the common suffix after `start`
  IF start + n < Len(a) /\ start + n < Len(b)
     /\ Ch(a, Len(a) - n) = Ch(b, Len(b) - n)
  THEN CommonEnd(a, b, start, n + 1) ELSE n
Far == 9
RECURSIVE Distance(_, _)
Distance(a, b) ==
  IF Len(a) > Len(b) THEN Distance(b, a)
  ELSE IF Len(a) + 1 < Len(b) THEN Far
  ELSE LET st == CommonFrom(a, b, 1)
           en == CommonEnd(a, b, st, 0)
       IN IF Len(a) = Len(b)
          THEN IF st + en = Len(a) THEN 0
               ELSE IF st + en + 1 = Len(a) THEN 1
               ELSE IF st + en + 2 = Len(a) /\ Ch(a, st + 1) = Ch(b, st + 2)
                       /\ Ch(a, st + 2) = Ch(b, st + 1) THEN 2
               ELSE Far
          ELSE IF st + en = Len(a) THEN 1 ELSE Far
AllNames(c) == c.names.flag \cup c.names.value \cup c.names.args
Similar(c, name) ==
  LET near == {n \in AllNames(c) : Distance(name, n) # Far}
      best == {n \in near : \A m \in near : Distance(name, n) <= Distance(name, m)}
  IN IF Cardinality(best) = 1 THEN CHOOSE n \in best : TRUE ELSE ""

SnakeOk(s) == \A i \in 1..Len(s) : Ch(s, i) \in (Lower \cup Digit \cup {"_"})

(***************************************************************************)
(* try_parse_name: the decision at the start of an argument.               *)
(* Result: kind "named" (style, target field or 0 = rest), "unnamed", or   *)
(* an error.                                                               *)
(***************************************************************************)
StyleAt(toks, p, e) ==                    \* the shape that follows the identifier
  IF p + 1 >= e \/ toks[p + 1] = "," THEN "flag"
  ELSE IF IsEq(toks[p + 1]) THEN "value"
  ELSE IF toks[p + 1] = "(" THEN "args"
  ELSE "none"
FieldOf(c, name, style) ==
  LET s == {i \in 1..Len(c.ps) : c.ps[i].role = "named" /\ c.ps[i].name = name
                                  /\ Takes(c.ps[i].pt, style)}
  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
MayStyle(c, st) == c.names[st] # {} \/ c.restTakes[st]

StyleText(st, name) ==
  CASE st = "flag"  -> "flag `" \o name \o "`"
    [] st = "value" -> "`" \o name \o " = ...`"
    [] st = "args"  -> "`" \o name \o "(...)`"
FoundText(st, name) ==
  CASE st = "none"  -> ""
    [] st = "flag"  -> ", found `" \o name \o "`"
    [] st = "value" -> ", found `" \o name \o " = ...`"
    [] st = "args"  -> ", found `" \o name \o "`(...)"
RECURSIVE JoinOr(_, _)
JoinOr(xs, i) ==
  IF i > Len(xs) THEN ""
  ELSE (IF i = 1 THEN "" ELSE IF i = Len(xs) THEN " or " ELSE ", ") \o xs[i] \o JoinOr(xs, i + 1)

Named(style, fld)  == [k |-> "named", style |-> style, fld |-> fld, err |-> Fail("", 0, "")]
Unnamed            == [k |-> "unnamed", style |-> "", fld |-> 0, err |-> Fail("", 0, "")]
NameErr(err)       == [k |-> "error", style |-> "", fld |-> 0, err |-> err]

Decide(c, toks, p, e) ==
  LET t      == IF p < e THEN toks[p] ELSE ""
      isName == IsIdent(t) \/ IsRaw(t)
      shape  == StyleAt(toks, p, e)
      \* the shape counts only if some parameter has that style or nothing can be unnamed
      style  == IF shape # "none" /\ (c.noUnnamed \/ MayStyle(c, shape)) THEN shape ELSE "none"
      fld    == IF style = "none" THEN 0 ELSE FieldOf(c, t, style)
      exp    == SelectSeq(<<"flag", "value", "args">>,
                          LAMBDA st : c.restTakes[st] \/ FieldOf(c, t, st) # 0)
      sim    == Similar(c, t)
      tooMany == Fail("surplus", p,
                   IF MayStyle(c, "flag") \/ MayStyle(c, "value") \/ MayStyle(c, "args")
                   THEN "too many unnamed arguments." ELSE "too many arguments.")
  IN IF isName /\ (c.filter => SnakeOk(t))
     THEN IF style # "none" /\ fld # 0 THEN Named(style, fld)
          ELSE IF style # "none" /\ c.restTakes[style] THEN Named(style, 0)
          ELSE IF style # "none" \/ c.noUnnamed
               THEN IF exp # <<>>
                    THEN NameErr(Fail("style", p,
                           "expected "
                           \o JoinOr([i \in 1..Len(exp) |-> StyleText(exp[i], t)], 1)
                           \o FoundText(style, t)))
                    ELSE NameErr(Fail("unknown", p,
                           "cannot find parameter `" \o t \o "` in this scope"
                           \o (IF sim = "" THEN "" ELSE
                               " (help: a parameter with a similar name exists: `" \o sim \o "`)")))
               ELSE Unnamed
     ELSE IF c.noUnnamed THEN NameErr(tooMany) ELSE Unnamed

(***************************************************************************)
(* The machine.  A state m:                                                *)
(*   d, toks      declaration number and input                             *)
(*   p, e         cursor and end of the group being parsed                 *)
(*   ph           "req" | "loop" | "arg" | "named" | "unnamed" | "done"    *)
(*   i            required arguments read so far / unnamed_index           *)
(*   next, used   is_next, named_used                                      *)
(*   slots        per field: VUnset, or what its temporary holds           *)
(*   dec          the decision of try_parse_name (phase "named")           *)
(*   at           position of the name (phase "named")                     *)
(*   left         first token left over inside some parentheses (0: none)  *)
(*   out          the outcome (phase "done")                               *)
(***************************************************************************)
Start(d, toks, p, e) ==
  LET c == Comp[d] IN
  [d |-> d, toks |-> toks, p |-> p, e |-> e,
   ph |-> IF c.req = <<>> THEN "loop" ELSE "req",
   i |-> 0, next |-> FALSE, used |-> FALSE,
   slots |-> [k \in 1..Len(c.ps) |->
               CASE c.ps[k].role = "var"  -> VList(<<>>)
                 [] c.ps[k].role = "rest" -> VMap(<<>>)
                 [] OTHER -> VUnset],
   dec |-> Unnamed, at |-> 0, left |-> 0, out |-> Fail("running", 0, "")]

Done(m, o) == [m EXCEPT !.ph = "done", !.out = o]

RECURSIVE Run(_), Step(_), ReadValue(_, _, _, _), ReadItems(_, _, _, _, _, _)

\* Reading one value of type ty inside [p, e): [ok, q, v, left] or [.., err].
RVOk(q, v, left)  == [ok |-> TRUE, q |-> q, v |-> v, left |-> left, err |-> Fail("", 0, "")]
RVErr(err)        == [ok |-> FALSE, q |-> 0, v |-> VUnset, left |-> 0, err |-> err]
Later(l1, l2)     == IF l1 # 0 THEN l1 ELSE l2

ReadValue(ty, toks, p, e) ==
  IF ty.n = "@" THEN                       \* a nested StructMeta struct reads up to the end
    LET o == Run(Start(ty.a[1], toks, p, e)).out IN
    IF o.ok THEN RVOk(e, o.v, o.at) ELSE RVErr(o)
  ELSE
    LET r == ReadLeaf(ty.n, toks, p, e) IN
    IF r.ok THEN RVOk(r.q, VTok(p, r.q), 0)
    ELSE RVErr(Fail("value", IF p >= e THEN e ELSE 0, ""))

\* Punctuated::parse_terminated of the whole of [p, e).
ReadItems(ty, toks, p, e, acc, left) ==
  IF p >= e THEN RVOk(e, VList(acc), left)
  ELSE LET r == ReadValue(ty, toks, p, e) IN
       IF ~r.ok THEN r
       ELSE IF r.q >= e THEN RVOk(e, VList(Append(acc, r.v)), Later(left, r.left))
       ELSE IF toks[r.q] = ","
            THEN ReadItems(ty, toks, r.q + 1, e, Append(acc, r.v), Later(left, r.left))
            ELSE RVErr(Fail("comma", r.q, "expected `,`"))

\* `( ... )` at p: the argument list of style name(...).
ReadParens(pt, toks, p) ==
  LET c == Match(toks, p) IN
  IF pt.vec
  THEN LET r == ReadItems(pt.ty, toks, p + 1, c, <<>>, 0) IN
       IF r.ok THEN RVOk(c + 1, r.v, r.left) ELSE r
  ELSE LET r == ReadValue(pt.ty, toks, p + 1, c) IN
       IF ~r.ok THEN r
       ELSE RVOk(c + 1, r.v, IF r.left # 0 THEN r.left ELSE IF r.q < c THEN r.q ELSE 0)

\* The value of a named argument (NamedParamType::build_parse_expr);
\* p is the position after the name and, for style value, after `=`.
ReadNamed(pt, style, toks, at, p, e) ==
  LET wrap(r, v) == RVOk(r.q, v, r.left)
      some(v)    == IF pt.opt THEN VSome(v) ELSE v
  IN CASE pt.k \in {"bool", "flag"} -> RVOk(p, VFlag(at), 0)
       [] pt.k = "value" ->
            IF pt.vec THEN ReadParens(pt, toks, p) ELSE ReadValue(pt.ty, toks, p, e)
       [] pt.k = "nv" ->
            IF style = "flag" THEN RVOk(p, VNv(at, VNone), 0)
            ELSE LET r == ReadValue(pt.ty, toks, p, e) IN
                 IF r.ok THEN wrap(r, VNv(at, some(r.v))) ELSE r
       [] pt.k = "na" ->
            IF style = "flag" THEN RVOk(p, VNa(at, VNone), 0)
            ELSE LET r == ReadParens(pt, toks, p) IN
                 IF r.ok THEN wrap(r, VNa(at, some(r.v))) ELSE r

HasComma(m) == m.p < m.e /\ m.toks[m.p] = ","
NoComma(m)  == Fail("comma", m.p, "expected `,`")
C(m) == Comp[m.d]

-----------------------------------------------------------------------------
(* Actions: guard G_x and effect E_x each.                                 *)

\* Required arguments ------------------------------------------------------
ReqField(m) == C(m).req[m.i + 1]
G_TooFew(m) == m.ph = "req" /\ m.i > 0 /\ ~m.next /\ m.p >= m.e
E_TooFew(m) == Done(m, Fail("least", m.e,
     "expected least " \o ToString(Len(C(m).req)) \o " arguments but " \o ToString(m.i)
       \o " argument was supplied"))
G_ReqNoComma(m) == m.ph = "req" /\ m.i > 0 /\ ~m.next /\ m.p < m.e /\ ~HasComma(m)
E_ReqNoComma(m) == Done(m, NoComma(m))
G_ReqComma(m) == m.ph = "req" /\ m.i > 0 /\ ~m.next /\ HasComma(m)
E_ReqComma(m) == [m EXCEPT !.p = @ + 1, !.next = TRUE]
ReqRead(m) == ReadValue(C(m).ps[ReqField(m)].pt.ty, m.toks, m.p, m.e)
G_Required(m) == m.ph = "req" /\ (m.i = 0 \/ m.next)
E_Required(m) ==
  LET r == ReqRead(m) IN
  IF ~r.ok THEN Done(m, r.err)
  ELSE LET last == m.i + 1 = Len(C(m).req) IN
       [m EXCEPT !.p = r.q, !.slots[ReqField(m)] = r.v, !.left = Later(@, r.left),
                 !.ph = IF last THEN "loop" ELSE "req",
                 !.i = IF last THEN 0 ELSE @ + 1,
                 !.next = last]

\* The argument loop ---------------------------------------------------------
G_NoComma(m) == m.ph = "loop" /\ m.p < m.e /\ m.next /\ ~HasComma(m)
E_NoComma(m) == Done(m, NoComma(m))
G_Comma(m) == m.ph = "loop" /\ m.next /\ HasComma(m) /\ m.p + 1 < m.e
E_Comma(m) == [m EXCEPT !.p = @ + 1, !.ph = "arg"]
G_TrailingComma(m) == m.ph = "loop" /\ m.next /\ HasComma(m) /\ m.p + 1 >= m.e
E_TrailingComma(m) == [m EXCEPT !.p = @ + 1]
G_FirstArg(m) == m.ph = "loop" /\ m.p < m.e /\ ~m.next
E_FirstArg(m) == [m EXCEPT !.ph = "arg", !.next = TRUE]

\* One argument: try_parse_name ---------------------------------------------
Dec(m) == Decide(C(m), m.toks, m.p, m.e)
G_Name(m) == m.ph = "arg" /\ Dec(m).k = "named"
E_Name(m) == [m EXCEPT !.ph = "named", !.dec = Dec(m), !.at = m.p, !.used = TRUE,
                       !.p = IF Dec(m).style = "value" THEN @ + 2 ELSE @ + 1]
G_NameError(m) == m.ph = "arg" /\ Dec(m).k = "error"
E_NameError(m) == Done(m, Dec(m).err)
G_NotName(m) == m.ph = "arg" /\ Dec(m).k = "unnamed"
E_NotName(m) == [m EXCEPT !.ph = "unnamed"]

DupMsg(n) == "parameter `" \o n \o "` specified more than once"
\* ... a named argument of a declared parameter
G_Dup(m) == m.ph = "named" /\ m.dec.fld # 0 /\ m.slots[m.dec.fld] # VUnset
\* (if the second value is malformed as well, which of the two is reported is not specified)
E_Dup(m) ==
  LET r == ReadNamed(C(m).ps[m.dec.fld].pt, m.dec.style, m.toks, m.at, m.p, m.e) IN
  Done(m, IF r.ok THEN Fail("dup", m.at, DupMsg(C(m).ps[m.dec.fld].name))
                  ELSE Fail("twofold", 0, ""))
G_Assign(m) == m.ph = "named" /\ m.dec.fld # 0 /\ m.slots[m.dec.fld] = VUnset
E_Assign(m) ==
  LET r == ReadNamed(C(m).ps[m.dec.fld].pt, m.dec.style, m.toks, m.at, m.p, m.e) IN
  IF ~r.ok THEN Done(m, r.err)
  ELSE [m EXCEPT !.p = r.q, !.ph = "loop", !.slots[m.dec.fld] = r.v, !.left = Later(@, r.left)]
\* ... a named argument for the rest map
G_Rest(m) == m.ph = "named" /\ m.dec.fld = 0
E_Rest(m) ==
  LET k == C(m).rest
      r == ReadNamed(C(m).ps[k].pt, m.dec.style, m.toks, m.at, m.p, m.e)
      old == m.slots[k].xs
      name == m.toks[m.at]
      dup == \E j \in 1..Len(old) : m.toks[old[j].at] = name
  IN IF ~r.ok THEN Done(m, IF dup THEN Fail("twofold", 0, "") ELSE r.err)
     ELSE IF dup THEN Done(m, Fail("dup", m.at, DupMsg(name)))
     ELSE [m EXCEPT !.p = r.q, !.ph = "loop", !.left = Later(@, r.left),
                    !.slots[k] = VMap(Append(old, VEntry(m.at, r.v)))]

\* ... an unnamed argument
G_AfterNamed(m) == m.ph = "unnamed" /\ m.used
E_AfterNamed(m) == Done(m, Fail("order", m.p, "cannot use unnamed parameter after named parameter"))
G_Positional(m) == m.ph = "unnamed" /\ ~m.used /\ m.i < Len(C(m).opt)
E_Positional(m) ==
  LET k == C(m).opt[m.i + 1]
      r == ReadValue(C(m).ps[k].pt.ty, m.toks, m.p, m.e)
  IN IF ~r.ok THEN Done(m, r.err)
     ELSE [m EXCEPT !.p = r.q, !.i = @ + 1, !.ph = "loop", !.slots[k] = r.v, !.left = Later(@, r.left)]
G_Variadic(m) == m.ph = "unnamed" /\ ~m.used /\ m.i >= Len(C(m).opt) /\ C(m).var # 0
E_Variadic(m) ==
  LET k == C(m).var
      r == ReadValue(C(m).ps[k].pt.ty, m.toks, m.p, m.e)
  IN IF ~r.ok THEN Done(m, r.err)
     ELSE [m EXCEPT !.p = r.q, !.i = @ + 1, !.ph = "loop",
                    !.slots[k] = VList(Append(@.xs, r.v)), !.left = Later(@, r.left)]
G_Surplus(m) == m.ph = "unnamed" /\ ~m.used /\ m.i >= Len(C(m).opt) /\ C(m).var = 0
E_Surplus(m) == Done(m, Fail("surplus", m.p, "too many unnamed parameter"))

\* The end --------------------------------------------------------------------
G_End(m) == m.ph = "loop" /\ m.p >= m.e
Missing(c, slots) ==
  {k \in 1..Len(c.ps) : /\ c.ps[k].role = "named" /\ slots[k] = VUnset
                        /\ ~c.ps[k].opt /\ c.ps[k].pt.k \notin {"bool", "flag"}}
MissingMsg(p) ==
  "missing argument `" \o p.name
    \o (IF TakesArgs(p.pt) THEN "(...)`" ELSE " = ...`")
\* The value of a field, from its temporary (NamedParam::build_ctor_arg).
Ctor(p, v) ==
  CASE p.role = "named" /\ p.opt -> IF v = VUnset THEN VNone ELSE VSome(v)
    [] p.role = "named" /\ p.pt.k = "bool" -> VBool(v # VUnset)
    [] p.role = "named" /\ p.pt.k = "flag" -> IF v = VUnset THEN VFlag(0) ELSE v
    [] p.role = "opt" -> IF v = VUnset THEN VNone ELSE VSome(v)
    [] OTHER -> v
E_End(m) ==
  LET c == C(m)  miss == Missing(c, m.slots) IN
  IF miss # {} THEN Done(m, FailAny("missing", 0, {MissingMsg(c.ps[k]) : k \in miss}))
  ELSE Done(m, Ok(VMeta([k \in 1..Len(c.ps) |-> Ctor(c.ps[k], m.slots[k])]), m.left))

Step(m) ==
  CASE G_TooFew(m)        -> E_TooFew(m)
    [] G_ReqNoComma(m)    -> E_ReqNoComma(m)
    [] G_ReqComma(m)      -> E_ReqComma(m)
    [] G_Required(m)      -> E_Required(m)
    [] G_End(m)           -> E_End(m)
    [] G_NoComma(m)       -> E_NoComma(m)
    [] G_Comma(m)         -> E_Comma(m)
    [] G_TrailingComma(m) -> E_TrailingComma(m)
    [] G_FirstArg(m)      -> E_FirstArg(m)
    [] G_Name(m)          -> E_Name(m)
    [] G_NameError(m)     -> E_NameError(m)
    [] G_NotName(m)       -> E_NotName(m)
    [] G_Dup(m)           -> E_Dup(m)
    [] G_Assign(m)        -> E_Assign(m)
    [] G_Rest(m)          -> E_Rest(m)
    [] G_AfterNamed(m)    -> E_AfterNamed(m)
    [] G_Positional(m)    -> E_Positional(m)
    [] G_Variadic(m)      -> E_Variadic(m)
    [] G_Surplus(m)       -> E_Surplus(m)
Run(m) == IF m.ph = "done" THEN m ELSE Run(Step(m))

\* The observable result of the whole parse: tokens left over inside
\* parentheses make it fail after all (syn checks this last).
Observe(o) == IF o.ok /\ o.at # 0 THEN Fail("leftover", o.at, "unexpected token") ELSE o
Parse(d, toks) == Observe(Run(Start(d, toks, 1, Len(toks) + 1)).out)
=============================================================================
