--------------------------- MODULE Trace_LegalMeta ---------------------------
(* Trace validation: every line is one declaration and what rustc said about *)
(* the real derive on it (accepted, rejected at which field, dumped).  The   *)
(* machine of LegalMeta runs on it; the line is accepted iff it agrees.      *)
EXTENDS LegalMeta, IOUtils, Json

TraceItems == JsonDeserialize(IOEnv.VERIF_DECLS)
TheTrace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
CONSTANT Trace

Explains(ev) ==
  /\ ev.v = m.out.v
  /\ ev.v = "reject" => ev.at \in Blame(m.d)
Rejected == ~PrintT("@REJECT " \o ToJson([l |-> m.d, want |-> Vector]))
Conforms == m.ph = "done" => (Explains(Trace[m.d]) \/ Rejected)
Accepted == m.ph = "done" => PrintT("@A " \o ToJson(<<m.d, IF m.out.v = "reject" THEN m.out.c ELSE m.out.v>>))
=============================================================================
