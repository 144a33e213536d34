------------------------------- MODULE MC_C12 -------------------------------
(* The structs of StructFamily; inputs: the matching ones and all that        *)
(* differ from one of them by one edit.                                       *)
EXTENDS StructFamily

TheDecls == StructDecls
Inputs(d) == LET X == DeclTexts(d, 2) IN
  IF d > Len(Lead) /\ (~Deep \/ Len(Decls[d].variants[1].fields) > 6)
  THEN X \cup Edits(CHOOSE x \in X : \A y \in X : Len(y) <= Len(x))
  ELSE X \cup UNION {Edits(x) : x \in X}
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\ \E t \in Inputs(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
