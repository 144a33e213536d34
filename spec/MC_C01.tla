------------------------------- MODULE MC_C01 -------------------------------
(* All shapes required^i optional^j variadic^k, without named parameters    *)
(* and with them before and between the unnamed ones, as records and as     *)
(* tuples; all argument lists of a few arguments.                           *)
EXTENDS MCBase
N == IF Deep THEN 3 ELSE 2
L == IF Deep THEN 6 ELSE 4
Req(n) == [x \in 1..n |-> FU("r" \o ToString(x), IntT)]
OptF(n) == [x \in 1..n |-> FU("o" \o ToString(x), Opt(IntT))]
VarF(n) == [x \in 1..n |-> FU("v", VecT(IntT))]
Strip(f) == [f EXCEPT !.id = "", !.unnamed = FALSE]
Shapes == {<<i, j, k, q>> : i \in 0..N, j \in 0..N, k \in 0..1, q \in 1..5}
              \cup {<<12, 0, 0, 1>>, <<0, 12, 0, 1>>, <<4, 5, 1, 1>>, <<10, 1, 1, 2>>, <<1, 10, 1, 2>>, <<5, 5, 1, 3>>}
LeafTo(ty, l) == IF ty.a = <<>> THEN l ELSE [ty EXCEPT !.a = <<l>>]
Wide_(s) == s[1] + s[2] > 2 * N
Mk(s) ==
  LET un == Req(s[1]) \o OptF(s[2]) \o VarF(s[3]) IN
  CASE s[4] = 1 -> Tup([x \in 1..Len(un) |-> Strip(un[x])])
    [] s[4] = 2 -> Rec(<<F("f", FlagT)>> \o Req(s[1]) \o OptF(s[2]) \o <<F("n", Opt(IntT))>> \o VarF(s[3]))
    \* with a rest parameter; values that may begin with a name
    [] s[4] = 4 -> Rec(<<F("m", Map(NV(Opt(IntT))))>> \o un)
    [] s[4] = 5 -> Rec([x \in 1..Len(un) |-> [un[x] EXCEPT !.ty = IF x % 2 = 1 THEN LeafTo(@, ExT) ELSE @]])
    [] s[4] = 3 -> Tup([x \in 1..Len(un) |-> Strip(un[x])] \o <<FN("", "n", Opt(VecT(IntT)))>>)
TheDecls == Family({Tag(s, Mk(s)) : s \in Shapes})
One == <<"1">>
InputsOf(d) ==
  LET s == TagOf(d) IN
  IF Wide_(s)
  THEN LET ones == {[i \in 1..k |-> <<ToString(i)>>] : k \in 0..(s[1] + s[2] + 2)}
           x == IF s[4] = 3 THEN Ar("n", One) ELSE Va("n", One)
       IN Trailing({Join(o) : o \in ones} \cup {Join(Append(o, x)) : o \in ones}
                    \cup {Join([o EXCEPT ![Len(o) - 1] = <<"x">>]) : o \in {o \in ones : Len(o) > 2}})
  ELSE (IF s \in {<<0, 1, 1, 1>>, <<1, 2, 1, 2>>} THEN {Join([i \in 1..k |-> <<ToString(i)>>]) : k \in {257, 300}} ELSE {}) \cup Trailing(ListsOf(CASE s[4] = 1 -> {One, <<"x">>}
                     [] s[4] = 2 -> {One, Fl("f"), Va("n", One)}
                     [] s[4] = 4 -> {One, Fl("f"), Va("n", One)}
                     [] s[4] = 5 -> {One, <<"x">>, <<"x", "=", "1">>, <<"x", "(", "1", ")">>}
                     [] s[4] = 3 -> {One, Ar("n", One)}, IF s[4] = 5 THEN 3 ELSE L))
Init == PickInit(Len(TheDecls))
Pick == m.ph = "pick" /\ \E t \in InputsOf(m.d) : Picked(t)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
