------------------------------- MODULE MC_C18 -------------------------------
(* Every state of the registers and every operation on it.                  *)
EXTENDS Algebra
CONSTANT Deep
Int(n) == [k |-> "int", n |-> n]   Nan == [k |-> "nan"]   Asym(n) == [k |-> "asym", n |-> n]
Fg(s) == [k |-> "flag", s |-> s]   Nn == [k |-> "none"]   Sm(x) == [k |-> "some", v |-> x]
Sq(x) == [k |-> "seq", v |-> x]    NV(s, x) == [k |-> "nv", s |-> s, v |-> x]  NA(s, x) == [k |-> "na", s |-> s, v |-> x]
Some2 == {1, 2}
\* one set of contents per Rust type
Contents == <<
  [w |-> "nv", flag |-> FALSE, c |-> {Int(0), Int(1), Int(2)}],                                                     \* NameValue<i32>
  [w |-> "na", flag |-> FALSE, c |-> {Int(0), Int(1), Int(2)}],                                                     \* NameArgs<i32>
  [w |-> "nv", flag |-> FALSE, c |-> {Nan}], [w |-> "na", flag |-> FALSE, c |-> {Nan}],                                             \* f64
  [w |-> "nv", flag |-> FALSE, c |-> {Asym(0), Asym(1), Asym(2)}], [w |-> "na", flag |-> FALSE, c |-> {Asym(0), Asym(1), Asym(2)}], \* Asym
  [w |-> "nv", flag |-> TRUE, c |-> {Fg(s) : s \in AnySpan}], [w |-> "na", flag |-> TRUE, c |-> {Fg(s) : s \in AnySpan}],         \* Flag
  [w |-> "na", flag |-> FALSE, c |-> {Nn} \cup {Sm(NV(s, Fg(t))) : s, t \in Some2}
                     \cup {Sm(NV(s, Fg(0))) : s \in Some2}],                                        \* NameArgs<Option<NameValue<Flag>>>
  [w |-> "nv", flag |-> FALSE, c |-> {Sq(<<>>)} \cup {Sq(<<NA(s, Int(n))>>) : s \in Some2, n \in {0, 1}}
                     \cup {Sq(<<NA(s, Int(n)), NA(2, Int(m))>>) : s \in Some2, n, m \in {0, 1}}]    \* NameValue<Vec<NameArgs<i32>>>
>>
Wrap(t, s, c) == IF Contents[t].w = "nv" THEN NV(s, c) ELSE NA(s, c)
VARIABLES ty, phase
\* flags vary with a fixed wrapper, wrappers vary with fixed flags
W0 == <<NV(2, Int(0)), NV(2, Int(0))>>
InitF == f \in [Regs -> AnySpan] /\ w = W0 /\ ty = 1 /\ op = [o |-> "start"] /\ phase = "f"
InitW == /\ ty \in 1..Len(Contents)
         /\ f \in IF Contents[ty].flag THEN {<<0, 0, 0>>, <<3, 0, 0>>} ELSE {<<0, 0, 0>>}
         /\ \E s, t \in IF Deep THEN {1, 2, 3} ELSE {2, 3} : \E c, d \in Contents[ty].c : w = <<Wrap(ty, s, c), Wrap(ty, t, d)>>
         /\ op = [o |-> "start"] /\ phase = "w"
Init == InitF \/ InitW
Next == op.o = "start" /\ UNCHANGED ty /\ (IF phase = "f" THEN FlagOp ELSE WrapOp) /\ UNCHANGED phase
        /\ PrintT("@V " \o ToJson([ty |-> ty, f |-> f, w |-> w, op |-> op', obs |-> Obs(f', w')]))
Spec == Init /\ [][Next]_<<f, w, op, ty, phase>>
=============================================================================
