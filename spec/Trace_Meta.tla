----------------------------- MODULE Trace_Meta -----------------------------
(***************************************************************************)
(* Trace validation: every line of trace.ndjson is one execution of the    *)
(* real, derived parser (declaration, input, observed outcome).  For each  *)
(* line the machine of MetaSpec runs on that input, action by action; the  *)
(* line is accepted iff the outcome the machine reaches is the observed    *)
(* one (invariant Conforms).                                               *)
(***************************************************************************)
EXTENDS MetaSpec, IOUtils

CONSTANTS CheckAt, CheckMsg

TraceDecls == JsonDeserialize(IOEnv.VERIF_DECLS)
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLE l
tvars == <<m, l>>

TraceInit == \E i \in 1..Len(Trace) :
               /\ l = i
               /\ m = Start(Trace[i].d, Trace[i].t, 1, Len(Trace[i].t) + 1)
TraceNext == Next /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* The observed value j (JSON, see Enc) is the value v of the specification.
RECURSIVE Same(_, _)
Same(v, j) ==
  CASE v.k = "tok"   -> j[1] = "t" /\ IF v.s = v.e THEN j[2] = 0 ELSE j[2] = v.s /\ j[3] = v.e
    [] v.k = "none"  -> j[1] = "n"
    [] v.k = "some"  -> j[1] = "s" /\ Same(v.xs[1], j[2])
    [] v.k \in {"list", "meta"} ->
         /\ j[1] = IF v.k = "list" THEN "l" ELSE "x"
         /\ Len(j[2]) = Len(v.xs)
         /\ \A i \in 1..Len(v.xs) : Same(v.xs[i], j[2][i])
    [] v.k \in {"true", "false"} -> j[1] = "b" /\ j[2] = (v.k = "true")
    [] v.k = "flag"  -> j[1] = "f" /\ IF CheckAt THEN j[2] = v.at ELSE (j[2] = 0) = (v.at = 0)
    [] v.k = "nv"    -> j[1] = "v" /\ (CheckAt => j[2] = v.at) /\ Same(v.xs[1], j[3])
    [] v.k = "na"    -> j[1] = "a" /\ (CheckAt => j[2] = v.at) /\ Same(v.xs[1], j[3])
    [] v.k = "map"   ->
         /\ j[1] = "m" /\ Len(j[2]) = Len(v.xs)
         /\ \A i \in 1..Len(v.xs) : \E x \in 1..Len(j[2]) :
               j[2][x][1] = m.toks[v.xs[i].at] /\ Same(v.xs[i].xs[1], j[2][x][2])
    [] OTHER -> FALSE

AtClasses  == {"unknown", "style", "surplus", "order", "dup", "comma", "least", "leftover"}
MsgClasses == {"unknown", "style", "dup", "least"}
Explains(ev) ==
  /\ ev.ok = Result.ok
  /\ Result.ok => Same(Result.v, ev.v)
  /\ ~Result.ok /\ CheckAt /\ Result.cls \in AtClasses => ev.at = Result.at
  /\ ~Result.ok /\ CheckMsg /\ Result.cls \in MsgClasses => ev.msg = Result.msg
  /\ ~Result.ok /\ CheckMsg /\ Result.cls = "missing" =>
        ev.msg \in Result.alt
Conforms == m.ph = "done" => (Explains(Trace[l]) \/ ~PrintT("@REJECT " \o ToJson([l |-> l, want |-> Vector])))
\* One line per accepted execution (counted by the driver), with its outcome class.
Accepted == m.ph = "done" => PrintT("@A " \o ToJson(<<l, IF Result.ok THEN "ok" ELSE Result.cls>>))
=============================================================================
