----------------------------- MODULE Trace_Tree -----------------------------
(***************************************************************************)
(* Trace validation for the derived Parse and ToTokens: every line of the  *)
(* trace is one execution of the real code (declaration, input, observed   *)
(* outcome, and what the parsed value printed).  The machines of TreeSpec  *)
(* run on that input, action by action; the line is accepted iff they      *)
(* reach the observed outcome and print the observed tokens.               *)
(***************************************************************************)
EXTENDS TreeSpec, IOUtils

CONSTANT CheckAt, CheckSource

TraceDecls == JsonDeserialize(IOEnv.VERIF_DECLS)
TheTrace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
CONSTANT Trace

VARIABLE l
tvars == <<m, l>>

\* A printing event has no input: the value is constructed.
TraceInit == \E i \in 1..Len(Trace) :
               /\ l = i
               /\ m = Start(Trace[i].d, Trace[i].t, 1, Len(Trace[i].t) + 1)
TraceNext == (Next \/ Reprint) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars

RECURSIVE Same(_, _)
Same(v, j) ==
  CASE v.k = "tok"   -> j[1] = "t" /\ IF v.s = v.e THEN j[2] = 0 ELSE j[2] = v.s /\ j[3] = v.e
    [] v.k = "del"   -> j[1] = "d" /\ j[2] = v.s /\ j[3] = v.e
    [] v.k = "none"  -> j[1] = "n"
    [] v.k = "some"  -> j[1] = "s" /\ Same(v.xs[1], j[2])
    [] v.k = "punct" -> /\ j[1] = "l" /\ Len(j[2]) = Len(v.xs)
                        /\ \A i \in 1..Len(v.xs) : Same(v.xs[i], j[2][i])
    [] v.k = "node"  -> /\ j[1] = "x" /\ j[2] = v.s /\ Len(j[3]) = Len(v.xs)
                        /\ \A i \in 1..Len(v.xs) : Same(v.xs[i], j[3][i])
    [] OTHER -> FALSE

Explains(ev) ==
  /\ ev.ok = Result.ok
  /\ Result.ok => Same(Result.v, ev.v)
  /\ m.out.left = 0 =>
       /\ ev.pok = m.out.ok
       /\ m.out.q # 0 => ev.pq = m.out.q
       /\ m.out.ok => Same(m.out.v, ev.pv)
  /\ ~Result.ok /\ CheckAt /\ Result.at # 0 => ev.at = Result.at
Rejected(want) == ~PrintT("@REJECT " \o ToJson([l |-> l, want |-> want]))
Conforms ==
  /\ m.ph = "done" => (Explains(Trace[l]) \/ Rejected(Vector))
  /\ m.ph = "emitted" => ((m.out = Trace[l].p /\ (CheckSource => m.src = Trace[l].src)) \/ Rejected(PVector))
\* One line per accepted execution (counted by the driver), with its outcome class.
Accepted ==
  /\ (m.ph = "done" /\ ~Result.ok) => PrintT("@A " \o ToJson(<<l, Result.cls>>))
  /\ m.ph = "emitted" => PrintT("@A " \o ToJson(<<l, "ok">>))
=============================================================================
