------------------------------ MODULE LegalMeta ------------------------------
(***************************************************************************)
(* #[derive(StructMeta)] as a checker of declarations: a small-step        *)
(* machine that reads the attributes token by token, classifies field      *)
(* after field and accepts or rejects (struct_meta.rs derive_struct_meta,  *)
(* Params::from_fields, Param::from_field, ArgForStruct, ArgForField), and *)
(* independently of it what a legal declaration is.                        *)
(*                                                                         *)
(* A declaration:                                                          *)
(*   [item |-> "struct"|"enum"|"union", shape |-> "rec"|"tup"|"unit",      *)
(*    attrs |-> <<attribute>>, fields |-> <<[id, ty, attrs]>>]             *)
(* an attribute #[struct_meta(..)]:                                        *)
(*   [form |-> "list"|"path"|"nv", toks |-> <<token>>]                     *)
(*   tokens as in Tokens.tla; "()" is some parenthesized group             *)
(***************************************************************************)
EXTENDS Types

CONSTANT Items
VARIABLE m

List(toks) == [form |-> "list", toks |-> toks]
AFd(id, t, as) == [id |-> id, ty |-> t, attrs |-> as]

StrOf(t) == SubSeq(t, 2, Len(t))
Unraw(s) == IF IsRaw(s) THEN SubSeq(s, 3, Len(s)) ELSE s

-----------------------------------------------------------------------------
(* Roles, from what the attributes of a field say.                         *)
NoArgs == [given |-> FALSE, name |-> "", unnamed |-> FALSE]
Role(f, a) ==
  LET isMap == ~a.given /\ IsMap(f.ty)
      isOpt == ~isMap /\ IsOption(f.ty)
      pt == ParamType(IF isMap THEN f.ty.a[2] ELSE IF isOpt THEN f.ty.a[1] ELSE f.ty, ~isMap /\ ~isOpt)
  IN IF isMap THEN "rest"
     ELSE IF ~a.unnamed /\ (a.given \/ f.id # "") THEN "named"
     ELSE IF pt.k # "value" \/ (isOpt /\ pt.vec) THEN "bad"
     ELSE IF pt.vec THEN "var" ELSE IF isOpt THEN "opt" ELSE "req"
NameOf(f, a) == IF a.given THEN a.name ELSE Unraw(f.id)

(***************************************************************************)
(* The machine.                                                            *)
(*   ph  "item" | "attr" (between attributes) | "arg" | "sep" | "classify" *)
(*       | "done"                                                          *)
(*   k   field, 0: the item;  a  attribute;  p  token                      *)
(*   args, dump, filter: what the attributes said                          *)
(*   opt, var, rest: whether such a field was seen;  names: those taken    *)
(***************************************************************************)
Running(d) == [d |-> d, ph |-> "item", k |-> 0, a |-> 1, p |-> 1, args |-> NoArgs, dump |-> FALSE, filter |-> FALSE,
               opt |-> FALSE, var |-> FALSE, rest |-> FALSE, names |-> {}, out |-> [v |-> "running", at |-> 0, c |-> ""]]
Item == Items[m.d]
Attrs == IF m.k = 0 THEN Item.attrs ELSE Item.fields[m.k].attrs
Toks == Attrs[m.a].toks
Tok(i) == IF m.p + i <= Len(Toks) THEN Toks[m.p + i] ELSE ""
Done(v, c) == m' = [m EXCEPT !.ph = "done", !.out = [v |-> v, at |-> m.k, c |-> c]]
Go(f) == m' = f

IsItem     == m.ph = "item" /\ IF Item.item = "struct" THEN Go([m EXCEPT !.ph = "attr"]) ELSE Done("reject", "item")
BadForm    == m.ph = "attr" /\ m.a <= Len(Attrs) /\ Attrs[m.a].form # "list" /\ Done("reject", "form")
OpenAttr   == m.ph = "attr" /\ m.a <= Len(Attrs) /\ Attrs[m.a].form = "list" /\ Go([m EXCEPT !.ph = "arg", !.p = 1])
NoAttr     == m.ph = "attr" /\ m.a > Len(Attrs) /\ Go([m EXCEPT !.ph = "classify"])
\* an argument, or the end of the list
CloseAttr  == m.ph \in {"arg", "sep"} /\ m.p > Len(Toks) /\ Go([m EXCEPT !.ph = "attr", !.a = @ + 1])
Comma      == m.ph = "sep" /\ Tok(0) = "," /\ Go([m EXCEPT !.ph = "arg", !.p = @ + 1])
NoComma    == m.ph = "sep" /\ m.p <= Len(Toks) /\ Tok(0) # "," /\ Done("reject", "comma")
Argument(n, f) == Go([f EXCEPT !.ph = "sep", !.p = @ + n])
ArgDump    == m.ph = "arg" /\ m.k = 0 /\ Tok(0) = "dump" /\ Argument(1, [m EXCEPT !.dump = TRUE])
ArgFilter  == m.ph = "arg" /\ m.k = 0 /\ Tok(0) = "name_filter" /\
                IF Tok(1) # "=" \/ Tok(2) # "'snake_case" THEN Done("reject", "filter")
                ELSE IF m.filter THEN Done("reject", "twice")
                ELSE Argument(3, [m EXCEPT !.filter = TRUE])
ArgName    == m.ph = "arg" /\ m.k > 0 /\ Tok(0) = "name" /\ Tok(1) = "=" /\
                IF IsStr(Tok(2)) THEN Argument(3, [m EXCEPT !.args.given = TRUE, !.args.name = StrOf(Tok(2))])
                ELSE Done("reject", "name")
ArgUnnamed == m.ph = "arg" /\ m.k > 0 /\ Tok(0) = "unnamed" /\ Argument(1, [m EXCEPT !.args.unnamed = TRUE])
ArgBad     == /\ m.ph = "arg" /\ m.p <= Len(Toks)
              /\ IF m.k = 0 THEN Tok(0) \notin {"dump", "name_filter"}
                 ELSE Tok(0) # "unnamed" /\ ~(Tok(0) = "name" /\ Tok(1) = "=")
              /\ Done("reject", "arg")
\* after the attributes of the item or of a field
NextField(f) == Go([f EXCEPT !.k = @ + 1, !.ph = IF m.k < Len(Item.fields) THEN "attr" ELSE "end", !.a = 1, !.args = NoArgs])
Begin      == m.ph = "classify" /\ m.k = 0 /\ NextField(m)
\* (every argument of the specification is read before it is known how often it stands)
Field      == Item.fields[m.k]
R          == Role(Field, m.args)
Classify   == m.ph = "classify" /\ m.k > 0
BadType    == Classify /\ R = "bad" /\ Done("reject", "type")
AfterVar   == Classify /\ R \in {"req", "opt", "var"} /\ m.var /\ Done("reject", "aftervar")
AfterOpt   == Classify /\ R = "req" /\ ~m.var /\ m.opt /\ Done("reject", "afteropt")
TakeReq    == Classify /\ R = "req" /\ ~m.var /\ ~m.opt /\ NextField(m)
TakeOpt    == Classify /\ R = "opt" /\ ~m.var /\ NextField([m EXCEPT !.opt = TRUE])
TakeVar    == Classify /\ R = "var" /\ ~m.var /\ NextField([m EXCEPT !.var = TRUE])
TakeNamed  == Classify /\ R = "named" /\
                LET n == NameOf(Field, m.args) IN
                IF n \in m.names THEN Done("reject", "name twice") ELSE NextField([m EXCEPT !.names = @ \cup {n}])
TakeRest   == Classify /\ R = "rest" /\ IF m.rest THEN Done("reject", "rest twice") ELSE NextField([m EXCEPT !.rest = TRUE])
Accept     == m.ph = "end" /\ m' = [m EXCEPT !.ph = "done", !.out = [v |-> IF m.dump THEN "dump" ELSE "ok", at |-> 0, c |-> ""]]

Next == \/ IsItem \/ BadForm \/ OpenAttr \/ NoAttr \/ CloseAttr \/ Comma \/ NoComma
        \/ ArgDump \/ ArgFilter \/ ArgName \/ ArgUnnamed \/ ArgBad
        \/ Begin \/ BadType \/ AfterVar \/ AfterOpt \/ TakeReq \/ TakeOpt \/ TakeVar \/ TakeNamed \/ TakeRest \/ Accept
Spec == (\E d \in 1..Len(Items) : m = Running(d)) /\ [][Next]_m

-----------------------------------------------------------------------------
(* What is legal, without the machine.                                     *)
\* the comma separated pieces of an argument list; a trailing comma adds none
Pieces(toks) ==
  LET cuts == {i \in 1..Len(toks) : toks[i] = ","}
      start(i) == i = 1 \/ (i - 1) \in cuts
      piece(i) == LET ends == {j \in i..Len(toks) : j \in cuts} \cup {Len(toks) + 1}
                  IN SubSeq(toks, i, (CHOOSE j \in ends : \A x \in ends : j <= x) - 1)
  IN {piece(i) : i \in {j \in 1..Len(toks) : start(j)}}
FieldArgs(t) == t = <<"unnamed">> \/ (Len(t) = 3 /\ t[1] = "name" /\ t[2] = "=" /\ IsStr(t[3]))
ItemArgs(t)  == t = <<"dump">> \/ t = <<"name_filter", "=", "'snake_case">>
WellFormed(as, Arg(_)) == \A i \in 1..Len(as) : as[i].form = "list" /\ \A t \in Pieces(as[i].toks) : Arg(t)

\* all name arguments of a field, in order
Concat(as) == LET c[i \in 0..Len(as)] == IF i = 0 THEN <<>> ELSE c[i - 1] \o <<",">> \o as[i].toks IN c[Len(as)]
Said(f) ==
  LET t == Concat(f.attrs)
      ns == {i \in 1..Len(t) : IsStr(t[i])}
  IN [given |-> ns # {}, name |-> IF ns = {} THEN "" ELSE StrOf(t[CHOOSE i \in ns : \A j \in ns : j <= i]),
      unnamed |-> \E i \in 1..Len(t) : t[i] = "unnamed"]
Filters(d) == LET t == Concat(Items[d].attrs) IN Cardinality({i \in 1..Len(t) : t[i] = "name_filter"})

ItemFault(d) == Items[d].item # "struct" \/ ~WellFormed(Items[d].attrs, ItemArgs) \/ Filters(d) > 1
AttrFault(d, k) == ~WellFormed(Items[d].fields[k].attrs, FieldArgs)
FieldFault(d, k) ==
  LET fs == Items[d].fields
      role(i) == Role(fs[i], Said(fs[i]))
      name(i) == NameOf(fs[i], Said(fs[i]))
      before(rs) == \E j \in 1..(k - 1) : ~AttrFault(d, j) /\ role(j) \in rs
  IN \/ role(k) = "bad"
     \/ role(k) = "req" /\ before({"opt", "var"})
     \/ role(k) \in {"opt", "var"} /\ before({"var"})
     \/ role(k) = "rest" /\ before({"rest"})
     \/ role(k) = "named" /\ \E j \in 1..(k - 1) : ~AttrFault(d, j) /\ role(j) = "named" /\ name(j) = name(k)
\* where a compile error may be located: 0 the item, else a field
Blame(d) ==
  (IF ItemFault(d) THEN {0} ELSE {})
    \cup {k \in 1..Len(Items[d].fields) : AttrFault(d, k) \/ FieldFault(d, k)}
Dumps(d) == LET t == Concat(Items[d].attrs) IN \E i \in 1..Len(t) : t[i] = "dump"
Verdict(d) == IF Blame(d) # {} THEN "reject" ELSE IF Dumps(d) THEN "dump" ELSE "ok"

\* the machine decides exactly that
Deterministic == Cardinality({x \in {
    <<1, ENABLED IsItem>>, <<2, ENABLED BadForm>>, <<3, ENABLED OpenAttr>>, <<4, ENABLED NoAttr>>, <<5, ENABLED CloseAttr>>,
    <<6, ENABLED Comma>>, <<7, ENABLED NoComma>>, <<8, ENABLED ArgDump>>, <<9, ENABLED ArgFilter>>, <<10, ENABLED ArgName>>,
    <<11, ENABLED ArgUnnamed>>, <<12, ENABLED ArgBad>>, <<13, ENABLED Begin>>, <<14, ENABLED BadType>>, <<15, ENABLED AfterVar>>,
    <<16, ENABLED AfterOpt>>, <<17, ENABLED TakeReq>>, <<18, ENABLED TakeOpt>>, <<19, ENABLED TakeVar>>, <<20, ENABLED TakeNamed>>,
    <<21, ENABLED TakeRest>>, <<22, ENABLED Accept>>} : x[2]}) = (IF m.ph = "done" THEN 0 ELSE 1)
C10 == m.ph = "done" => /\ m.out.v = Verdict(m.d)
                        /\ m.out.v = "reject" => m.out.at \in Blame(m.d)
\* (the accepted orders, as a grammar: required, then optional, then at most one variadic)
InOrder == m.ph = "done" /\ m.out.v # "reject" =>
  LET fs == Items[m.d].fields
      rs == SelectSeq([i \in 1..Len(fs) |-> Role(fs[i], Said(fs[i]))], LAMBDA r : r \in {"req", "opt", "var"})
      rank(r) == CASE r = "req" -> 1 [] r = "opt" -> 2 [] r = "var" -> 3
  IN \A i \in 1..(Len(rs) - 1) : rank(rs[i]) <= rank(rs[i + 1]) /\ rs[i] # "var"
Vector == [d |-> m.d, v |-> m.out.v, c |-> m.out.c, at |-> m.out.at, blame |-> Blame(m.d)]
=============================================================================
