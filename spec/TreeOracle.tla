----------------------------- MODULE TreeOracle -----------------------------
(***************************************************************************)
(* What Parse and ToTokens mean, stated over flat token sequences without  *)
(* any stack of groups: a list of fields has a flat layout, which is       *)
(* walked along the input (parsing) or filled in (printing).               *)
(***************************************************************************)
EXTENDS Tree

\* The flat layout of a field list: <<"open", i, c>>, <<"close", c>>, <<"value", i>>;
\* closers for the groups still open at the end.
RECURSIVE LaySyms(_, _, _), LayFields(_, _, _)
LaySyms(f, i, j) ==
  IF j > Len(f.sym) THEN IF OpensGroup(f) THEN <<>> ELSE <<[k |-> "value", i |-> i, c |-> ""]>>
  ELSE <<[k |-> IF Opening(f.sym[j]) THEN "open" ELSE "close", i |-> i, c |-> f.sym[j]]>>
         \o LaySyms(f, i, j + 1)
LayFields(fs, i, acc) == IF i > Len(fs) THEN acc ELSE LayFields(fs, i + 1, acc \o LaySyms(fs[i], i, 1))
StillOpen(lay) == Cardinality({j \in 1..Len(lay) : lay[j].k = "open"})
                    - Cardinality({j \in 1..Len(lay) : lay[j].k = "close"})
Layout(fs) ==
  LET lay == LayFields(fs, 1, <<>>) IN
  lay \o [j \in 1..StillOpen(lay) |-> [k |-> "close", i |-> 0, c |-> ""]]

\* The first closer at or after p that does not belong to a group opened after p.
RECURSIVE Enclosing(_, _, _)
Enclosing(toks, p, e) ==
  IF p >= e THEN e
  ELSE IF toks[p] \in Closes THEN p
  ELSE Enclosing(toks, AfterTree(toks, p), e)

RECURSIVE Walk(_, _, _, _, _, _, _, _), Choose(_, _, _, _, _), MeansTy(_, _, _, _)

(* Walks the layout from item j at position p; [ok, q, exact, vals]:       *)
(* exact = no group had tokens left.                                       *)
Walk(fs, lay, j, toks, p, e, vals, exact) ==
  IF j > Len(lay) THEN [ok |-> TRUE, q |-> p, exact |-> exact, vals |-> vals]
  ELSE LET it == lay[j]  end == Enclosing(toks, p, e) IN
  CASE it.k = "open" ->
         IF p < end /\ (toks[p] = it.c \/ (IsMacro(fs[it.i].ty) /\ toks[p] \in Opens))
         THEN Walk(fs, lay, j + 1, toks, p + 1, e,
                   [vals EXCEPT ![it.i] = VDel(p, Match(toks, p))], exact)
         ELSE [ok |-> FALSE, q |-> 0, exact |-> FALSE, vals |-> vals]
    [] it.k = "close" -> Walk(fs, lay, j + 1, toks, end + 1, e, vals, exact /\ p = end)
    [] it.k = "value" ->
         LET f == fs[it.i]
             r == IF f.term THEN MeansTy([f.ty EXCEPT !.n = IF f.any THEN "PunctAny" ELSE "Punct"], toks, p, end)
                  ELSE MeansTy(IF f.any /\ f.ty.n = "Ident" THEN T("AnyIdent") ELSE f.ty, toks, p, end)
         IN IF r.ok THEN Walk(fs, lay, j + 1, toks, r.q, e, [vals EXCEPT ![it.i] = r.v], exact /\ r.exact)
            ELSE [ok |-> FALSE, q |-> 0, exact |-> FALSE, vals |-> vals]

\* Positions of the separators of a terminated list in [p, e): found item by item.
RECURSIVE Items(_, _, _, _, _)
Items(item, sep, toks, p, e) ==
  IF p >= e THEN [ok |-> TRUE, xs |-> <<>>, exact |-> TRUE]
  ELSE LET r == MeansTy(item, toks, p, e) IN
       IF ~r.ok THEN [ok |-> FALSE, xs |-> <<>>, exact |-> FALSE]
       ELSE IF r.q >= e THEN [ok |-> TRUE, xs |-> <<r.v>>, exact |-> r.exact]
       ELSE IF toks[r.q] # TokTypes[sep.n] THEN [ok |-> FALSE, xs |-> <<>>, exact |-> FALSE]
       ELSE LET t == Items(item, sep, toks, r.q + 1, e) IN
            [ok |-> t.ok, xs |-> <<r.v, VTok(r.q, r.q + 1)>> \o t.xs, exact |-> r.exact /\ t.exact]

MeansTy(ty, toks, p, e) ==
  CASE ty.n = "@" -> Choose(ty.a[1], 1, toks, p, e)
    [] ty.n = "Box" -> MeansTy(ty.a[1], toks, p, e)
    [] ty.n \in {"Punct", "PunctAny"} ->
         LET t == Items(IF ty.n = "PunctAny" THEN T("AnyIdent") ELSE ty.a[1], ty.a[2], toks, p, e)
         IN [ok |-> t.ok, q |-> e, v |-> VPunct(t.xs), exact |-> t.exact]
    [] OTHER -> LET r == ReadTy(ty, toks, p, e) IN [ok |-> r.ok, q |-> r.q, v |-> r.v, exact |-> TRUE]

NthTree(toks, p, e, n) ==                 \* where the n-th token tree from p starts
  LET RECURSIVE Go(_)
      \* (where the trees start; nothing starts at the second character of a token)
      Go(q) == IF q >= e THEN <<>> ELSE LET w == toks[q] \in {"->", "==", "=>"} IN
               (IF w THEN <<q, e>> ELSE <<q>>) \o Go(AfterTree(toks, q))
      starts == Go(p)
  IN IF n <= Len(starts) THEN starts[n] ELSE e

\* The first variant from v on that matches decides.
Choose(d, v, toks, p, e) ==
  LET vs == Decls[d].variants
      none == [ok |-> FALSE, q |-> 0, v |-> VUnset, exact |-> FALSE] IN
  IF v > Len(vs) THEN none
  ELSE LET fs == vs[v].fields
           peeks == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].peek)
           w == Walk(fs, Layout(fs), 1, toks, p, e, [i \in 1..Len(fs) |-> VUnset], TRUE)
           res == [ok |-> w.ok, q |-> w.q, v |-> IF w.ok THEN VNode(v, w.vals) ELSE VUnset, exact |-> w.exact]
       IN IF Decls[d].kind = "enum" /\ peeks # <<>>
          THEN IF \A k \in 1..Len(peeks) : PeekTy(fs[peeks[k]], toks, NthTree(toks, p, e, k), e)
               THEN res ELSE Choose(d, v + 1, toks, p, e)
          ELSE IF w.ok THEN res
          ELSE Choose(d, v + 1, toks, p, e)

Meaning(d, toks) ==
  LET r == Choose(d, 1, toks, 1, Len(toks) + 1) IN
  IF r.ok /\ r.exact /\ r.q = Len(toks) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE, v |-> VUnset]

RefinesOracle(d, toks, out) ==
  LET w == Meaning(d, toks) IN out.ok = w.ok /\ out.v = w.v

-----------------------------------------------------------------------------
(* Printing: the layout filled in.                                         *)
RECURSIVE Fill(_, _, _, _, _, _), Printed(_, _, _), PrintedTy(_, _, _)
Fill(fs, lay, j, toks, v, opened) ==     \* opened: closers owed, innermost first
  IF j > Len(lay) THEN <<>>
  ELSE LET it == lay[j] IN
  CASE it.k = "open"  -> LET o == toks[v.xs[it.i].s] IN
                         <<o>> \o Fill(fs, lay, j + 1, toks, v, <<CloseOf(o)>> \o opened)
    [] it.k = "close" -> <<Head(opened)>> \o Fill(fs, lay, j + 1, toks, v, Tail(opened))
    [] it.k = "value" -> PrintedTy(fs[it.i].ty, toks, v.xs[it.i]) \o Fill(fs, lay, j + 1, toks, v, opened)
Printed(d, toks, v) ==
  LET fs == Decls[d].variants[v.s].fields IN Fill(fs, Layout(fs), 1, toks, v, <<>>)
PrintedTy(ty, toks, v) ==
  IF v.k = "node" THEN Printed(IF ty.n = "Box" THEN ty.a[1].a[1] ELSE ty.a[1], toks, v)
  ELSE IF v.k = "punct"
  THEN LET RECURSIVE Cat(_)
           Cat(i) == IF i > Len(v.xs) THEN <<>>
                     ELSE PrintedTy(ty.a[IF i % 2 = 1 THEN 1 ELSE 2], toks, v.xs[i]) \o Cat(i + 1)
       IN Cat(1)
  ELSE IF v.k = "none" THEN <<>>
  ELSE IF v.k = "some" THEN PrintedTy(ty.a[1], toks, v.xs[1])
  ELSE IF v.k = "del" THEN <<toks[v.s], CloseOf(toks[v.s])>>
  ELSE SubSeq(toks, v.s, v.e - 1)

-----------------------------------------------------------------------------
(* The properties, over an observed outcome.                               *)
RECURSIVE Leaves_(_)
Leaves_(v) == (IF v.k = "tok" THEN {<<v.s, v.e>>} ELSE IF v.k = "del" THEN {<<v.s, v.s + 1>>, <<v.e, v.e + 1>>} ELSE {})
                \cup UNION {Leaves_(v.xs[i]) : i \in 1..Len(v.xs)}

\* C12: fields hold exactly the tokens they parsed: all of the input, each once, in order.
PC12(d, toks, out) ==
  out.ok =>
    LET ls == Leaves_(out.v) IN
    /\ \A i \in 1..Len(toks) : \E r \in ls : r[1] <= i /\ i < r[2]
    /\ \A r, q \in ls : r = q \/ r[2] <= q[1] \/ q[2] <= r[1]
\* ... and the delimiters are the declared ones.
RECURSIVE DelimsOk(_, _, _)
DelimsOk(d, toks, v) ==
  LET fs == Decls[d].variants[v.s].fields IN
  /\ Len(v.xs) = Len(fs)
  /\ \A i \in 1..Len(fs) :
       /\ v.xs[i].k = "del" =>
            /\ toks[v.xs[i].e] = CloseOf(toks[v.xs[i].s])
            /\ ~IsMacro(fs[i].ty) => \E j \in 1..Len(fs[i].sym) : fs[i].sym[j] = toks[v.xs[i].s]
       /\ v.xs[i].k = "node" =>
            DelimsOk(IF fs[i].ty.n = "Box" THEN fs[i].ty.a[1].a[1] ELSE fs[i].ty.a[1], toks, v.xs[i])

\* C13 for an enum at the top: earlier variants did not match; peek commits.
PC13(d, toks, out) ==
  Decls[d].kind = "enum" =>
  LET vs == Decls[d].variants  e == Len(toks) + 1
      hit(v) == PeekFields(vs[v]) # <<>> /\ PeeksMatch(vs[v], toks, 1, e)
      \* the variant alone, as a struct
      alone(v) == LET fs == vs[v].fields IN
                  Walk(fs, Layout(fs), 1, toks, 1, e, [i \in 1..Len(fs) |-> VUnset], TRUE)
      takes(v) == IF PeekFields(vs[v]) # <<>> THEN hit(v) ELSE alone(v).ok
      cand == {v \in 1..Len(vs) : takes(v)}
  IN /\ cand = {} => ~out.ok
     /\ cand # {} => LET v == CHOOSE v \in cand : \A w \in cand : v <= w
                         a == alone(v)
                     IN /\ out.ok <=> (a.ok /\ a.exact /\ a.q = e)
                        /\ out.ok => out.v = VNode(v, a.vals)
=============================================================================
