------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Field types as the derive sees them: a path of segments with generic    *)
(* arguments on the last one.                                              *)
(*   p : prefix segments   n : last segment   a : generic arguments        *)
(*   q : how it is written: "" as a plain path, "::" with leading colons,  *)
(*       "group" through a macro_rules `ty` fragment ("group2": through    *)
(*       two), "qself" as an associated type  <X as p>::n, "param" as      *)
(*       <T>::n  (neither is ever recognised); "const" for a generic       *)
(*       argument that is no type; "gen", "lt", "cn", "self" through the   *)
(*       parameters of the item (Context.tla).  The other values say in    *)
(*       which scope the path is resolved (tools/metagen.py), which must   *)
(*       not matter.                                                       *)
(***************************************************************************)
EXTENDS Tokens

T(n)       == [p |-> <<>>, n |-> n, a |-> <<>>, q |-> ""]
T1(n, t)   == [p |-> <<>>, n |-> n, a |-> <<t>>, q |-> ""]
T2(n, t, u)== [p |-> <<>>, n |-> n, a |-> <<t, u>>, q |-> ""]
TP(p, n, a)== [p |-> p, n |-> n, a |-> a, q |-> ""]
TQ(q, t)   == [t EXCEPT !.q = q]

Opt(t) == T1("Option", t)
VecT(t) == T1("Vec", t)
NV(t)  == T1("NameValue", t)
NA(t)  == T1("NameArgs", t)
Map(t) == T2("HashMap", T("String"), t)
BoolT  == T("bool")
FlagT  == T("Flag")

\* Standard home of every recognised name.
Homes == [Option     |-> {<<"std","option">>, <<"core","option">>},
          Vec        |-> {<<"std","vec">>, <<"alloc","vec">>},
          HashMap    |-> {<<"std","collections">>, <<"std","collections","hash_map">>},
          String     |-> {<<"std","string">>, <<"alloc","string">>},
          bool       |-> {<<"std","primitive">>, <<"core","primitive">>},
          Flag       |-> {<<"structmeta">>},
          NameValue  |-> {<<"structmeta">>},
          NameArgs   |-> {<<"structmeta">>},
          MacroDelimiter |-> {<<"syn">>}]
Arity == [Option |-> 1, Vec |-> 1, HashMap |-> 2, String |-> 0, bool |-> 0,
          Flag |-> 0, NameValue |-> 1, NameArgs |-> 1, MacroDelimiter |-> 0]

\* `a` is a suffix of `b`.
IsSuffix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))

(* A type is recognised as `name` iff it is written as the bare name or as *)
(* a suffix of the name's standard path, with the right number of          *)
(* generic arguments, and without a qualified self.                        *)
Recognised(t, name) ==
  /\ t.n = name
  /\ t.q \notin {"qself", "param"}
  /\ Len(t.a) = Arity[name] /\ \A i \in 1..Len(t.a) : t.a[i].q # "const"
  /\ \E h \in Homes[name] : IsSuffix(t.p, h)

(* The derive's own matcher, segment by segment from the end               *)
(* (syn_utils.rs is_match_ns): kept apart from the definition above and    *)
(* compared with it by TLC (MC_C11, invariant MatcherIsSuffix).            *)
RECURSIVE MatchNs(_, _)
MatchNs(pre, ns) ==
  IF pre = <<>> THEN TRUE
  ELSE IF ns = <<>> THEN FALSE
  ELSE IF pre[Len(pre)] # ns[Len(ns)] THEN FALSE
  ELSE MatchNs(SubSeq(pre, 1, Len(pre) - 1), SubSeq(ns, 1, Len(ns) - 1))
MatcherRecognised(t, name) ==
  /\ t.q \notin {"qself", "param"} /\ t.n = name
  /\ Len(t.a) = Arity[name] /\ \A i \in 1..Len(t.a) : t.a[i].q # "const"
  /\ \E h \in Homes[name] : MatchNs(t.p, h)

IsOption(t) == Recognised(t, "Option")
IsVec(t)    == Recognised(t, "Vec")
IsBool(t)   == Recognised(t, "bool")
IsFlag(t)   == Recognised(t, "Flag")
IsNameValue(t) == Recognised(t, "NameValue")
IsNameArgs(t)  == Recognised(t, "NameArgs")
IsMap(t)    == Recognised(t, "HashMap") /\ Recognised(t.a[1], "String")
IsMacroDelimiter(t) == Recognised(t, "MacroDelimiter")

(***************************************************************************)
(* Parameter types (struct_meta.rs, NamedParamType::from_type).            *)
(***************************************************************************)
\* A value type of a recognised name under another path is a user type: the
\* harness defines these as wrappers of their last generic argument, or of an
\* integer.  (MacroDelimiter: an alias of a delimiter token.)
RECURSIVE Reads(_)
Reads(t) ==
  IF t.n \notin DOMAIN Arity THEN t
  ELSE IF t.a = <<>> \/ t.a[Len(t.a)].q = "const" THEN T("LitInt")
  ELSE Reads(t.a[Len(t.a)])
PType(k, ty, opt, vec) == [k |-> k, ty |-> Reads(ty), opt |-> opt, vec |-> vec]
ParamType(t, mayFlag) ==
  IF mayFlag /\ IsBool(t) THEN PType("bool", t, FALSE, FALSE)
  ELSE IF mayFlag /\ IsFlag(t) THEN PType("flag", t, FALSE, FALSE)
  ELSE IF IsNameValue(t)
       THEN LET i == t.a[1] IN
            IF IsOption(i) THEN PType("nv", i.a[1], TRUE, FALSE)
                           ELSE PType("nv", i, FALSE, FALSE)
  ELSE IF IsNameArgs(t)
       THEN LET i == t.a[1]
                o == IsOption(i)
                j == IF o THEN i.a[1] ELSE i
            IN IF IsVec(j) THEN PType("na", j.a[1], o, TRUE)
                           ELSE PType("na", j, o, FALSE)
  ELSE IF IsVec(t) THEN PType("value", t.a[1], FALSE, TRUE)
  ELSE PType("value", t, FALSE, FALSE)

\* Styles a parameter type takes.
TakesFlag(pt)  == pt.k \in {"bool", "flag"} \/ (pt.k \in {"nv", "na"} /\ pt.opt)
TakesValue(pt) == pt.k = "nv" \/ (pt.k = "value" /\ ~pt.vec)
TakesArgs(pt)  == pt.k = "na" \/ (pt.k = "value" /\ pt.vec)
Takes(pt, style) == CASE style = "flag"  -> TakesFlag(pt)
                      [] style = "value" -> TakesValue(pt)
                      [] style = "args"  -> TakesArgs(pt)
=============================================================================
