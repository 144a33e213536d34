----------------------------- MODULE Invisible -----------------------------
(* Invisible groups in the input: what macro_rules puts around a fragment  *)
(* (`$e:expr`, `$l:literal`, `$p:path`, ...).  The machines read the       *)
(* visible tokens only: m.g, the ranges that are hidden, has no influence  *)
(* on any action.  A range <<a, b>> is the tokens a, .., b - 1.            *)
EXTENDS Tokens

\* (a macro call `x ! ( .. )` is one fragment)
Singles(t) == {<<i, i + 1>> : i \in {j \in 1..Len(t) : (IsInt(t[j]) \/ IsStr(t[j]) \/ IsIdent(t[j]) \/ IsRaw(t[j])) /\ (j = Len(t) \/ t[j + 1] # "!")}}
Groups(t)  == {<<i, Match(t, i) + 1>> : i \in {j \in 1..Len(t) : t[j] \in Opens /\ (j = 1 \/ t[j - 1] # "!")}}
Crossing(x, y) == x[1] < y[1] /\ y[1] < x[2] /\ x[2] < y[2]
\* the ways to put fragments F of an input into invisible groups: one of them, all of one kind, all
Wraps(t, F) ==
  LET S == Singles(t)  G == Groups(t)
      own == {{f} : f \in F \cup S \cup G}
      all == {S, G, S \cup G, F, {x \in F \cup S \cup G : \A y \in F \cup S \cup G : ~Crossing(x, y)}}
  IN {w \in own \cup all : w # {} /\ \A x, y \in w : ~Crossing(x, y)}
=============================================================================
