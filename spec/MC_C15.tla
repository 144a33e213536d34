------------------------------- MODULE MC_C15 -------------------------------
(* Round trips: nested and recursive types, parsed from text and printed,   *)
(* constructed, printed and parsed; and the structs of StructFamily whose   *)
(* fields are unambiguous.                                                   *)
EXTENDS TreeGrammar

Once(d) == d @@ [once |-> TRUE]
RoundTrip == [i \in 1..Len(Grammar) |-> Once(Grammar[i])]

\* An optional field must not be followed by another one (inside the same group).
Clear(d) == LET fs == d.variants[1].fields IN
  /\ \A i \in 1..Len(fs) : fs[i].ty.n \in {"Ident", "Option", "LitInt", "Paren", "Bracket", "Brace", "MacroDelimiter"}
  /\ \A i \in 1..(Len(fs) - 1) : ~(fs[i].ty = OptSemi /\ fs[i + 1].ty = OptSemi /\ fs[i + 1].sym = <<>>)
AllOnce(ds) == [i \in 1..Len(ds) |-> Once(ds[i])]
After(n, ds) == SubSeq(ds, n + 1, Len(ds))
TheDecls == TLCEval(RoundTrip \o AllOnce(SelectSeq(After(Len(Lead), StructDecls), Clear)))
N == IF Deep THEN 3 ELSE 2
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\
          \/ \E t \in DeclTexts(m.d, N) : Picked(t)
          \/ \E v \in DeclValues(m.d, N) : PickedV(Pool, v)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
