---------------------------- MODULE Trace_Algebra ---------------------------
(* Recorded histories of operations on the real types, checked against       *)
(* spec/Algebra.tla: step n of history l must be an action of the machine    *)
(* whose observation is the recorded one.                                    *)
EXTENDS Algebra, IOUtils
VARIABLES l, n
Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
H == Trace[l]
Do(e) ==
  CASE e.o = "default"  -> Default(e.i)
    [] e.o = "none"     -> None(e.i)
    [] e.o = "from"     -> From(e.i, e.b)
    [] e.o = "build"    -> Build(e.i, e.s)
    [] e.o = "parse"    -> ParseF(e.i, e.s)
    [] e.o = "clone"    -> Clone(e.i, e.j)
    [] e.o = "or"       -> BitOr(e.i, e.j, e.k)
    [] e.o = "orassign" -> BitOrAssign(e.i, e.j)
    [] e.o = "into"     -> ToW(e.i)
    [] e.o = "wclone"   -> CloneW(e.i, e.j)
    [] e.o = "wcopy"    -> CopyW(e.i, e.j)
    [] e.o = "respan"   -> Respan(e.i, e.s)
Init == l \in 1..Len(Trace) /\ n = 0 /\ f = Trace[l].f /\ w = Trace[l].w /\ op = [o |-> "start"]
Step == /\ n < Len(H.ops) /\ n' = n + 1 /\ UNCHANGED l /\ Do(H.ops[n + 1])
        /\ IF Obs(f', w') = H.obs[n + 1]
           THEN n + 1 = Len(H.ops) => PrintT("@A " \o ToJson(<<l>>))
           ELSE PrintT("@REJECT " \o ToJson([l |-> l, n |-> n + 1, want |-> Obs(f', w')])) /\ FALSE
Spec == Init /\ [][Step]_<<f, w, op, l, n>>
=============================================================================
