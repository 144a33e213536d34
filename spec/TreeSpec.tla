------------------------------ MODULE TreeSpec ------------------------------
(* The transition system of Tree.tla: a parse, then (if it succeeded) the   *)
(* printing of the result.                                                  *)
EXTENDS TreeOracle, Json

VARIABLE m

PeekHit     == G_PeekHit(m)     /\ m' = E_PeekHit(m)
PeekMiss    == G_PeekMiss(m)    /\ m' = E_PeekMiss(m)
Direct      == G_Direct(m)      /\ m' = E_Direct(m)
Fork        == G_Fork(m)        /\ m' = E_Fork(m)
NoVariant   == G_NoVariant(m)   /\ m' = E_NoVariant(m)
Open        == G_Open(m)        /\ m' = E_Open(m)
NoGroup     == G_NoGroup(m)     /\ m' = E_NoGroup(m)
Close       == G_Close(m)       /\ m' = E_Close(m)
Delimiter   == G_Delimiter(m)   /\ m' = E_Delimiter(m)
ReadValue   == G_Read(m)        /\ m' = E_Read(m)
Unwind      == G_Unwind(m)      /\ m' = E_Unwind(m)
Finish      == G_Finish(m)      /\ m' = E_Finish(m)
NextVariant == G_NextVariant(m) /\ m' = E_NextVariant(m)
Failure     == G_Failure(m)     /\ m' = E_Failure(m)
PNext == \/ PeekHit \/ PeekMiss \/ Direct \/ Fork \/ NoVariant \/ Open \/ NoGroup \/ Close
         \/ Delimiter \/ ReadValue \/ Unwind \/ Finish \/ NextVariant \/ Failure

EmitOpen    == G_EOpen(m)   /\ m' = E_EOpen(m)
EmitClose   == G_EClose(m)  /\ m' = E_EClose(m)
EmitValue   == G_EValue(m)  /\ m' = E_EValue(m)
EmitUnwind  == G_EUnwind(m) /\ m' = E_EUnwind(m)
EmitFinish  == G_EFinish(m) /\ m' = E_EFinish(m)
ENext == EmitOpen \/ EmitClose \/ EmitValue \/ EmitUnwind \/ EmitFinish

Parsing  == m.ph \in {"variant", "sym", "fail", "done"}
Printing == m.ph \in {"emit", "emitted"}
Result   == Observe(m.out, m.toks)
\* A successful parse is printed again.
Reprint  == m.ph = "done" /\ Result.ok /\ m' = EStart(m.d, m.toks, Result.v)
Next == (m.ph # "done" /\ Parsing /\ PNext) \/ (Printing /\ ENext)

Guards == <<G_PeekHit(m), G_PeekMiss(m), G_Direct(m), G_Fork(m), G_NoVariant(m), G_Open(m), G_NoGroup(m),
            G_Close(m), G_Delimiter(m), G_Read(m), G_Unwind(m), G_Finish(m), G_NextVariant(m), G_Failure(m)>>
EGuards == <<G_EOpen(m), G_EClose(m), G_EValue(m), G_EUnwind(m), G_EFinish(m)>>
Count(G) == Cardinality({i \in 1..Len(G) : G[i]})
Deterministic ==
  /\ Parsing => Count(Guards) = (IF m.ph = "done" THEN 0 ELSE 1)
  /\ Printing => Count(EGuards) = (IF m.ph = "emitted" THEN 0 ELSE 1)

\* Within a variant the cursor only advances and groups nest; a new attempt starts afresh.
Monotone == [][(Parsing /\ m'.ph \in {"sym", "fail"} /\ m.ph = "sym") =>
                 /\ m'.p >= m.p
                 /\ Len(m'.vals) >= Len(m.vals) /\ SubSeq(m'.vals, 1, Len(m.vals)) = m.vals]_m
Fresh == (m.ph = "variant") => m.p = m.p0 /\ m.vals = <<>> /\ m.gs = <<>> /\ m.left = 0
Nested_ == (Parsing /\ m.ph = "sym") =>
            \A i \in 1..Len(m.gs) :
               /\ m.gs[i].at < m.p /\ m.p <= m.gs[i].end
               /\ m.toks[m.gs[i].end] = CloseOf(m.toks[m.gs[i].at])
               /\ i > 1 => m.gs[i - 1].at < m.gs[i].at /\ m.gs[i].end < m.gs[i - 1].end

AtDone(P) == m.ph = "done" => P
AtPrint(P) == m.ph = "emitted" => P
Refinement == AtDone(RefinesOracle(m.d, m.toks, Result) \/ ~PrintT("@BAD " \o ToJson(<<m.d, m.toks, Result.ok, Result.cls>>)))
C12 == AtDone(PC12(m.d, m.toks, Result) /\ (Result.ok => DelimsOk(m.d, m.toks, Result.v)))
C13 == AtDone(PC13(m.d, m.toks, Result))
C14 == AtPrint(m.out = Printed(m.d, m.toks, m.val))
\* C15: printing what was parsed gives back the input ...
\* (and the values constructed for C15 parse back: see Again)
C15 == AtDone(Result.ok => PrintOf(m.d, m.toks, Result.v) = m.toks)
\* C20: every printed token is the one that was parsed, not only one like it
C20 ==
  /\ AtDone(Result.ok => SourceOf(m.d, m.toks, Result.v) = [i \in 1..Len(m.toks) |-> i])
  /\ AtPrint(Len(m.src) = Len(m.out) /\ \A i \in 1..Len(m.out) : m.out[i] = m.toks[m.src[i]])

-----------------------------------------------------------------------------
RECURSIVE Enc(_)
Enc(v) ==
  LET xs == [i \in 1..Len(v.xs) |-> Enc(v.xs[i])] IN
  CASE v.k = "tok"   -> <<"t", v.s, v.e>>
    [] v.k = "del"   -> <<"d", v.s, v.e>>
    [] v.k = "none"  -> <<"n">>
    [] v.k = "some"  -> <<"s", xs[1]>>
    [] v.k = "punct" -> <<"l", xs>>
    [] v.k = "node"  -> <<"x", v.s, xs>>
    [] OTHER         -> <<"u">>
\* commit: the failure is the one of a variant that is final (or of a struct)
Vector == [d |-> m.d, t |-> m.toks, ok |-> Result.ok, c |-> Result.cls, at |-> Result.at,
           v |-> IF Result.ok THEN Enc(Result.v) ELSE <<>>,
           \* as a prefix of the input: what is parsed and where the input is then
           \* (free: nothing is said, tokens are left in a group)
           free |-> m.out.left # 0,
           pok |-> m.out.ok, pq |-> m.out.q, pv |-> IF m.out.ok /\ ~Result.ok THEN Enc(m.out.v) ELSE <<>>]
Emit == m.ph = "done" => PrintT("@V " \o ToJson(Vector))
\* Printing of constructed values, and what parsing the printed tokens gives.  A value without positions:
RECURSIVE Texts(_, _)
Texts(toks, v) ==
  LET xs == [i \in 1..Len(v.xs) |-> Texts(toks, v.xs[i])] IN
  CASE v.k = "tok"  -> <<"t", SubSeq(toks, v.s, v.e - 1)>>
    [] v.k = "del"  -> <<"d", toks[v.s]>>
    [] v.k = "node" -> <<"x", v.s, xs>>
    [] OTHER        -> <<v.k, xs>>
Again == Parse(m.d, m.out)
RoundTrips == AtPrint("once" \in DOMAIN Decls[m.d] => Again.ok /\ Texts(m.out, Again.v) = Texts(m.toks, m.val))
\* again: whether the printed tokens are also parsed
PVector == [d |-> m.d, t |-> m.toks, v |-> Enc(m.val), out |-> m.out, src |-> m.src, again |-> "once" \in DOMAIN Decls[m.d]]
EmitP == m.ph = "emitted" => PrintT("@P " \o ToJson(PVector))
=============================================================================
