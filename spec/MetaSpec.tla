------------------------------ MODULE MetaSpec ------------------------------
(***************************************************************************)
(* The transition system of Meta.tla: one variable, one action per         *)
(* decision of the generated parser, and the properties as invariants.     *)
(***************************************************************************)
EXTENDS MetaOracle, Json

VARIABLE m

TooFew        == G_TooFew(m)        /\ m' = E_TooFew(m)
ReqNoComma    == G_ReqNoComma(m)    /\ m' = E_ReqNoComma(m)
ReqComma      == G_ReqComma(m)      /\ m' = E_ReqComma(m)
Required      == G_Required(m)      /\ m' = E_Required(m)
End           == G_End(m)           /\ m' = E_End(m)
CommaMissing  == G_NoComma(m)       /\ m' = E_NoComma(m)
Comma         == G_Comma(m)         /\ m' = E_Comma(m)
TrailingComma == G_TrailingComma(m) /\ m' = E_TrailingComma(m)
FirstArg      == G_FirstArg(m)      /\ m' = E_FirstArg(m)
Name          == G_Name(m)          /\ m' = E_Name(m)
NameError     == G_NameError(m)     /\ m' = E_NameError(m)
NotName       == G_NotName(m)       /\ m' = E_NotName(m)
Duplicate     == G_Dup(m)           /\ m' = E_Dup(m)
Assignment    == G_Assign(m)        /\ m' = E_Assign(m)
RestEntry     == G_Rest(m)          /\ m' = E_Rest(m)
AfterNamed    == G_AfterNamed(m)    /\ m' = E_AfterNamed(m)
Positional    == G_Positional(m)    /\ m' = E_Positional(m)
Variadic      == G_Variadic(m)      /\ m' = E_Variadic(m)
Surplus       == G_Surplus(m)       /\ m' = E_Surplus(m)

Next == \/ TooFew \/ ReqNoComma \/ ReqComma \/ Required \/ End \/ CommaMissing
        \/ Comma \/ TrailingComma \/ FirstArg \/ Name \/ NameError \/ NotName
        \/ Duplicate \/ Assignment \/ RestEntry \/ AfterNamed \/ Positional
        \/ Variadic \/ Surplus

Result == Observe(m.out)

\* The machine is total and deterministic: exactly one action, until done.
Guards == <<G_TooFew(m), G_ReqNoComma(m), G_ReqComma(m), G_Required(m), G_End(m),
            G_NoComma(m), G_Comma(m), G_TrailingComma(m), G_FirstArg(m), G_Name(m),
            G_NameError(m), G_NotName(m), G_Dup(m), G_Assign(m), G_Rest(m),
            G_AfterNamed(m), G_Positional(m), G_Variadic(m), G_Surplus(m)>>
Deterministic ==
  m.ph # "pick" =>
  Cardinality({i \in 1..Len(Guards) : Guards[i]}) = (IF m.ph = "done" THEN 0 ELSE 1)

\* Progress: the cursor never moves back, and nothing assigned is ever replaced.
Monotone == [][m.ph # "pick" =>
               /\ m'.p >= m.p
               /\ m.ph = "done" => m' = m
               /\ \A k \in 1..Len(m.slots) :
                    \/ m.slots[k] = VUnset
                    \/ m'.slots[k] = m.slots[k]
                    \/ /\ m.slots[k].k \in {"list", "map"}
                       /\ SubSeq(m'.slots[k].xs, 1, Len(m.slots[k].xs)) = m.slots[k].xs
              ]_m

AtEnd(P) == m.ph = "done" => P
Refinement == AtEnd(RefinesOracle(m.d, m.toks, Result)
                    \/ ~PrintT("@BAD " \o ToJson(<<m.d, m.toks, Result.ok, Result.cls>>)))
C01 == AtEnd(PC01(m.d, m.toks, Result))
C02 == AtEnd(PC02(m.d, m.toks, Result))
C04 == AtEnd(PC04(m.d, m.toks, Result))
C05 == AtEnd(PC05(m.d, m.toks, Result))
C07 == AtEnd(PC07(m.d, m.toks, Result))
C08 == AtEnd(PC08(m.d, m.toks, Result))

-----------------------------------------------------------------------------
(* Encoding of outcomes for the conformance checks.                        *)
RECURSIVE Enc(_, _)
Enc(v, toks) ==
  LET xs == [i \in 1..Len(v.xs) |-> Enc(v.xs[i], toks)] IN
  CASE v.k = "tok"   -> <<"t", v.s, v.e>>
    [] v.k = "none"  -> <<"n">>
    [] v.k = "some"  -> <<"s", xs[1]>>
    [] v.k = "list"  -> <<"l", xs>>
    [] v.k = "true"  -> <<"b", TRUE>>
    [] v.k = "false" -> <<"b", FALSE>>
    [] v.k = "flag"  -> <<"f", v.at>>
    [] v.k = "nv"    -> <<"v", v.at, xs[1]>>
    [] v.k = "na"    -> <<"a", v.at, xs[1]>>
    [] v.k = "entry" -> <<toks[v.at], xs[1]>>
    [] v.k = "map"   -> <<"m", xs>>
    [] v.k = "meta"  -> <<"x", xs>>
    [] v.k = "unset" -> <<"u">>
Vector ==
  [d |-> m.d, t |-> m.toks, ok |-> Result.ok, c |-> Result.cls, at |-> Result.at,
   msg |-> Result.msg,
   alt |-> Result.alt,
   v |-> IF Result.ok THEN Enc(Result.v, m.toks) ELSE <<>>]
\* Always true; prints one test vector per explored input.
Emit == m.ph = "done" => PrintT("@V " \o ToJson(Vector))
=============================================================================
