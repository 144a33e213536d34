------------------------------- MODULE Algebra ------------------------------
(***************************************************************************)
(* Flag, NameValue and NameArgs as a state machine: three Flag registers   *)
(* and two registers of one wrapper type, changed by the operations of the *)
(* public API.  A span is 0 (none), 1 (some span that is no source token,  *)
(* as made by From<bool>) or a source token 2, 3, ...                      *)
(*                                                                         *)
(* Contents of wrappers:                                                   *)
(*   [k |-> "int", n]      i32                                             *)
(*   [k |-> "nan"]         f64::NAN (not equal to itself)                  *)
(*   [k |-> "asym", n]     a type whose == is `self.n <= other.n`          *)
(*   [k |-> "flag", s]     Flag                                            *)
(*   [k |-> "none"], [k |-> "some", v], [k |-> "seq", v]                   *)
(*   [k |-> "nv" | "na", s, v]   NameValue / NameArgs with span s          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Spans          \* source tokens
VARIABLES f, w, op      \* registers, wrapper registers, the operation just done

Regs == 1..3
AnySpan == {0, 1} \cup Spans

(* ---------------------------------------------------------- the operators *)
Value(s) == s # 0
FromBool(b) == IF b THEN 1 ELSE 0
Or(s, t) == IF s # 0 THEN s ELSE t
FlagEq(s, t) == Value(s) = Value(t)

RECURSIVE ContentEq(_, _)
ContentEq(x, y) ==
  CASE x.k = "int"  -> x.n = y.n
    [] x.k = "nan"  -> FALSE
    [] x.k = "asym" -> x.n <= y.n
    [] x.k = "flag" -> FlagEq(x.s, y.s)
    [] x.k = "none" -> y.k = "none"
    [] x.k = "some" -> y.k = "some" /\ ContentEq(x.v, y.v)
    [] x.k = "seq"  -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : ContentEq(x.v[i], y.v[i])
    [] x.k \in {"nv", "na"} -> ContentEq(x.v, y.v)

(* ----------------------------------------------------------- the machine *)
SetF(i, s) == f' = [f EXCEPT ![i] = s] /\ UNCHANGED w
SetW(i, x) == w' = [w EXCEPT ![i] = x] /\ UNCHANGED f
Default(i)   == SetF(i, 0) /\ op' = [o |-> "default", i |-> i]
None(i)      == SetF(i, 0) /\ op' = [o |-> "none", i |-> i]
From(i, b)   == SetF(i, FromBool(b)) /\ op' = [o |-> "from", i |-> i, b |-> b]
Build(i, s)  == SetF(i, s) /\ op' = [o |-> "build", i |-> i, s |-> s]
ParseF(i, s) == s # 1 /\ SetF(i, s) /\ op' = [o |-> "parse", i |-> i, s |-> s]
Clone(i, j)  == SetF(i, f[j]) /\ op' = [o |-> "clone", i |-> i, j |-> j]
BitOr(i, j, k) == SetF(i, Or(f[j], f[k])) /\ op' = [o |-> "or", i |-> i, j |-> j, k |-> k]
BitOrAssign(i, j) == SetF(i, Or(f[i], f[j])) /\ op' = [o |-> "orassign", i |-> i, j |-> j]
ToW(i)       == w[i].v.k = "flag" /\ SetW(i, [w[i] EXCEPT !.v.s = f[1]]) /\ op' = [o |-> "into", i |-> i]
CloneW(i, j) == SetW(i, w[j]) /\ op' = [o |-> "wclone", i |-> i, j |-> j]
CopyW(i, j)  == w[j].v.k \in {"int", "nan", "asym"} /\ SetW(i, w[j]) /\ op' = [o |-> "wcopy", i |-> i, j |-> j]
Respan(i, s) == s # 0 /\ SetW(i, [w[i] EXCEPT !.s = s]) /\ op' = [o |-> "respan", i |-> i, s |-> s]
FlagOp ==
  \E i \in Regs :
    \/ Default(i) \/ None(i) \/ \E b \in BOOLEAN : From(i, b)
    \/ \E s \in AnySpan : Build(i, s) \/ ParseF(i, s)
    \/ \E j \in Regs : Clone(i, j) \/ BitOrAssign(i, j) \/ \E k \in Regs : BitOr(i, j, k)
WrapOp == \E i \in 1..2 : ToW(i) \/ (\E s \in AnySpan : Respan(i, s)) \/ (\E j \in 1..2 : CloneW(i, j) \/ CopyW(i, j))

(* -------------------------------------- what is observed after every step *)
Obs(ff, ww) == [f |-> ff, val |-> [i \in Regs |-> Value(ff[i])],
            eq |-> [i \in Regs |-> [j \in Regs |-> FlagEq(ff[i], ff[j])]],
            w |-> ww, weq |-> [i \in 1..2 |-> [j \in 1..2 |-> ContentEq(ww[i], ww[j])]]]

(* ------------------------------------------------------------- properties *)
TypeOK == f \in [Regs -> AnySpan] /\ \A i \in 1..2 : w[i].s \in AnySpan \ {0}
\* boolean logic
Laws ==
  \A i, j, k \in Regs :
    LET a == f[i]  b == f[j]  c == f[k] IN
    /\ Value(Or(a, b)) = (Value(a) \/ Value(b))
    /\ FlagEq(Or(a, b), Or(b, a))
    /\ Or(Or(a, b), c) = Or(a, Or(b, c))          \* even for the spans
    /\ Or(a, a) = a /\ Or(a, 0) = a /\ Or(0, a) = a
    /\ Or(a, b) \in {a, b}
    /\ (Value(a) => Or(a, b) = a)
    /\ FlagEq(a, FromBool(Value(a)))
    /\ (FlagEq(a, b) /\ FlagEq(b, c) => FlagEq(a, c))
\* replacing every span by another one changes no comparison
RECURSIVE Blind(_)
Blind(x) == IF x.k = "flag" THEN [x EXCEPT !.s = IF @ = 0 THEN 0 ELSE 1]
            ELSE IF x.k \in {"nv", "na"} THEN [x EXCEPT !.s = 1, !.v = Blind(@)]
            ELSE IF x.k = "some" THEN [x EXCEPT !.v = Blind(@)]
            ELSE IF x.k = "seq" THEN [x EXCEPT !.v = [i \in 1..Len(@) |-> Blind(@[i])]]
            ELSE x
SpanBlind == \A i, j \in 1..2 : ContentEq(w[i], w[j]) = ContentEq(Blind(w[i]), Blind(w[j]))
=============================================================================
