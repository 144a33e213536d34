----------------------------- MODULE MetaOracle -----------------------------
(***************************************************************************)
(* What an argument list means, stated declaratively (by splitting it at   *)
(* its top-level commas) and independently of the machine in Meta.tla.     *)
(* TLC checks that the machine refines this on every explored input.       *)
(***************************************************************************)
EXTENDS Meta

(* Comma-separated segments of [s, e), as <<start, end>> pairs; one        *)
(* trailing empty segment is dropped.                                      *)
RECURSIVE SegFrom(_, _, _, _)
SegFrom(toks, s, p, e) ==
  IF p >= e THEN IF s = e THEN <<>> ELSE <<<<s, e>>>>
  ELSE IF toks[p] = "," THEN <<<<s, p>>>> \o SegFrom(toks, p + 1, p + 1, e)
  ELSE SegFrom(toks, s, AfterTree(toks, p), e)
Segs(toks, s, e) == SegFrom(toks, s, s, e)

\* A value type that may read across a top-level comma.
Greedy(ty) == ty.n = "@" \/ ty.n \in GreedyLeaves
RECURSIVE NonGreedy(_)
NonGreedy(c) == \A k \in 1..Len(c.ps) :
                   LET p == c.ps[k] IN
                   /\ Greedy(p.pt.ty) => (TakesArgs(p.pt) /\ ~p.pt.vec /\ p.role \in {"named", "rest"})
                   /\ p.pt.ty.n = "@" => NonGreedy(Comp[p.pt.ty.a[1]])

RECURSIVE AcceptsIn(_, _, _, _), AssignIn(_, _, _, _), Means(_, _, _, _)

(* [ok, v]: whether exactly the tokens [s, e) are one value of type ty.    *)
Means(ty, toks, s, e) ==
  IF ty.n = "@" THEN [ok |-> AcceptsIn(ty.a[1], toks, s, e),
                      v  |-> IF AcceptsIn(ty.a[1], toks, s, e)
                             THEN AssignIn(ty.a[1], toks, s, e) ELSE VUnset]
  ELSE LET r == ReadValue(ty, toks, s, e) IN
       [ok |-> r.ok /\ r.q = e, v |-> VTok(s, e)]

\* Section "name or value" of the property list, word by word.
FollowedBy(toks, s, e, style) ==
  CASE style = "flag"  -> s + 1 = e
    [] style = "value" -> s + 1 < e /\ IsEq(toks[s + 1])
    [] style = "args"  -> s + 1 < e /\ toks[s + 1] = "("
StyleDeclared(c, style) ==
  \E k \in 1..Len(c.ps) : c.ps[k].role \in {"named", "rest"} /\ Takes(c.ps[k].pt, style)
HasOptionalUnnamed(c) == \E k \in 1..Len(c.ps) : c.ps[k].role \in {"opt", "var"}
IsNamedArg(c, toks, s, e) ==
  /\ s < e
  /\ IsIdent(toks[s]) \/ IsRaw(toks[s])
  /\ c.filter => SnakeOk(toks[s])
  /\ \E st \in {"flag", "value", "args"} :
        /\ FollowedBy(toks, s, e, st)
        /\ StyleDeclared(c, st) \/ ~HasOptionalUnnamed(c)
StyleOf(toks, s, e) == CHOOSE st \in {"flag", "value", "args"} : FollowedBy(toks, s, e, st)

\* The field a named argument goes to: the parameter of that name if it has
\* that style, else the rest map if it has that style, else none (0).
Owner(c, name, st) ==
  LET own == {k \in 1..Len(c.ps) : c.ps[k].role = "named" /\ c.ps[k].name = name
                                    /\ Takes(c.ps[k].pt, st)}
      rst == {k \in 1..Len(c.ps) : c.ps[k].role = "rest" /\ Takes(c.ps[k].pt, st)}
  IN IF own # {} THEN CHOOSE k \in own : TRUE
     ELSE IF rst # {} THEN CHOOSE k \in rst : TRUE ELSE 0

\* What stands in the parentheses of a `name(..)` argument.
ArgsMean(pt, toks, s, e) ==
  IF pt.vec
  THEN LET ss == Segs(toks, s, e)
           ms == [j \in 1..Len(ss) |-> IF ss[j][1] = ss[j][2] THEN [ok |-> FALSE, v |-> VUnset]
                                       ELSE Means(pt.ty, toks, ss[j][1], ss[j][2])]
       IN [ok |-> \A j \in 1..Len(ms) : ms[j].ok,
           v  |-> VList([j \in 1..Len(ms) |-> ms[j].v])]
  ELSE Means(pt.ty, toks, s, e)

\* The value of the named argument [s, e) for parameter type pt.
NamedMeans(pt, toks, s, e) ==
  LET st == StyleOf(toks, s, e)
      body == CASE st = "flag"  -> [ok |-> TRUE, v |-> VNone]
                [] st = "value" -> IF s + 2 >= e /\ pt.ty.n # "TokenStream"
                                   THEN [ok |-> FALSE, v |-> VUnset]
                                   ELSE Means(pt.ty, toks, s + 2, e)
                [] st = "args"  -> IF Match(toks, s + 1) # e - 1
                                   THEN [ok |-> FALSE, v |-> VUnset]
                                   ELSE ArgsMean(pt, toks, s + 2, e - 1)
      inner == IF st = "flag" THEN VNone ELSE IF pt.opt THEN VSome(body.v) ELSE body.v
  IN [ok |-> body.ok,
      v  |-> CASE pt.k \in {"bool", "flag"} -> VFlag(s)
               [] pt.k = "value" -> body.v
               [] pt.k = "nv" -> VNv(s, inner)
               [] pt.k = "na" -> VNa(s, inner)]

\* All that the segments of an argument list say.
Analysis(d, toks, s, e) ==
  LET c == Comp[d]
      ss == Segs(toks, s, e)
      R == Len(c.req)
      named == {j \in 1..Len(ss) : j > R /\ IsNamedArg(c, toks, ss[j][1], ss[j][2])}
      owner == [j \in 1..Len(ss) |->
                  IF j \in named
                  THEN Owner(c, toks[ss[j][1]], StyleOf(toks, ss[j][1], ss[j][2]))
                  ELSE IF j <= R THEN c.req[j]
                  ELSE IF j - R <= Len(c.opt) THEN c.opt[j - R]
                  ELSE c.var]
  IN [ss |-> ss, R |-> R, named |-> named, owner |-> owner]

AcceptsIn(d, toks, s, e) ==
  LET c == Comp[d]  A == Analysis(d, toks, s, e)  ss == A.ss IN
  /\ Len(ss) >= A.R
  /\ \A j \in 1..Len(ss) : ss[j][1] < ss[j][2]                   \* no empty argument
  /\ \A j \in 1..Len(ss) : A.owner[j] # 0                        \* someone takes it
  /\ \A j \in 1..Len(ss) :                                       \* and understands it
        IF j \in A.named THEN NamedMeans(c.ps[A.owner[j]].pt, toks, ss[j][1], ss[j][2]).ok
        ELSE Means(c.ps[A.owner[j]].pt.ty, toks, ss[j][1], ss[j][2]).ok
  /\ \A i, j \in 1..Len(ss) : i \in A.named /\ j \notin A.named => j < i
  /\ \A i, j \in A.named :                                       \* nothing twice
        i # j /\ A.owner[i] = A.owner[j] =>
           c.ps[A.owner[i]].role = "rest" /\ toks[ss[i][1]] # toks[ss[j][1]]
  /\ \A k \in 1..Len(c.ps) :                                     \* nothing missing
        c.ps[k].role = "named" /\ ~c.ps[k].opt /\ c.ps[k].pt.k \notin {"bool", "flag"} =>
           \E j \in A.named : A.owner[j] = k

\* The indices of a set of naturals in increasing order.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                  IN <<x>> \o Sorted(S \ {x})

AssignIn(d, toks, s, e) ==
  LET c == Comp[d]  A == Analysis(d, toks, s, e)  ss == A.ss
      mine(k) == Sorted({j \in 1..Len(ss) : A.owner[j] = k})
      nm(k, j) == NamedMeans(c.ps[k].pt, toks, ss[j][1], ss[j][2]).v
      un(k, j) == Means(c.ps[k].pt.ty, toks, ss[j][1], ss[j][2]).v
      val(k) ==
        LET p == c.ps[k]  q == mine(k) IN
        CASE p.role = "req" -> un(k, q[1])
          [] p.role = "opt" -> IF q = <<>> THEN VNone ELSE VSome(un(k, q[1]))
          [] p.role = "var" -> VList([x \in 1..Len(q) |-> un(k, q[x])])
          [] p.role = "rest" -> VMap([x \in 1..Len(q) |-> VEntry(ss[q[x]][1], nm(k, q[x]))])
          [] p.role = "named" ->
               IF p.opt THEN IF q = <<>> THEN VNone ELSE VSome(nm(k, q[1]))
               ELSE IF p.pt.k = "bool" THEN VBool(q # <<>>)
               ELSE IF p.pt.k = "flag" THEN VFlag(IF q = <<>> THEN 0 ELSE ss[q[1]][1])
               ELSE nm(k, q[1])
  IN VMeta([k \in 1..Len(c.ps) |-> val(k)])

Accepts(d, toks) == AcceptsIn(d, toks, 1, Len(toks) + 1)
Assign(d, toks)  == AssignIn(d, toks, 1, Len(toks) + 1)

\* Refinement: the machine's outcome is the declarative meaning.
RefinesOracle(d, toks, out) ==
  NonGreedy(Comp[d]) =>
    /\ out.ok <=> Accepts(d, toks)
    /\ out.ok => out.v = Assign(d, toks)

-----------------------------------------------------------------------------
(* The individual properties, stated over an observed outcome.             *)

\* Token ranges stored in a value.
RECURSIVE Ranges(_)
Ranges(v) ==
  (IF v.k = "tok" THEN {<<v.s, v.e>>} ELSE {}) \cup UNION {Ranges(v.xs[i]) : i \in 1..Len(v.xs)}
RECURSIVE NameToks(_)
NameToks(v) ==
  (IF v.k \in {"flag", "nv", "na", "entry"} /\ v.at # 0 THEN {v.at} ELSE {})
     \cup UNION {NameToks(v.xs[i]) : i \in 1..Len(v.xs)}

HasNested(c) == \E k \in 1..Len(c.ps) : c.ps[k].pt.ty.n = "@"

(* C01: arity and order. *)
UnnamedIdx(c) == c.req \o c.opt
PC01(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1)
      pos == SelectSeq([j \in 1..Len(A.ss) |-> j], LAMBDA j : j \notin A.named)
      n == Len(pos)
      U == UnnamedIdx(c)
  IN NonGreedy(c) =>
     /\ out.ok =>
          /\ n >= Len(c.req)
          /\ c.var = 0 => n <= Len(U)
          \* positional ones come first
          /\ \A x \in 1..n : pos[x] = x
          /\ \A x \in 1..Len(U) :
               LET v == out.v.xs[U[x]] IN
               IF x > n THEN v = VNone
               ELSE (IF x <= Len(c.req) THEN v ELSE v.xs[1]) = VTok(A.ss[x][1], A.ss[x][2])
          /\ c.var # 0 =>
               out.v.xs[c.var].xs = [x \in 1..(IF n > Len(U) THEN n - Len(U) ELSE 0) |->
                                       VTok(A.ss[Len(U) + x][1], A.ss[Len(U) + x][2])]
     /\ (n < Len(c.req) \/ (c.var = 0 /\ n > Len(U))
          \/ \E i \in A.named : \E x \in 1..n : pos[x] > i) => ~out.ok

(* C02: exchanging two neighbouring named arguments changes nothing, a named
   argument reaches the field of its name, absence follows the type. *)
RECURSIVE Text(_, _)
Text(v, toks) ==                          \* a value without token positions
  LET xs == [i \in 1..Len(v.xs) |-> Text(v.xs[i], toks)] IN
  CASE v.k = "tok" -> <<"tok", SubSeq(toks, v.s, v.e - 1)>>
    [] v.k = "entry" -> <<"entry", toks[v.at], xs>>
    [] v.k = "map" -> <<"map", {xs[i] : i \in 1..Len(xs)}>>
    [] v.k = "flag" -> <<"flag", v.at # 0>>
    [] OTHER -> <<v.k, xs>>
Swapped(toks, a, b) ==                    \* segments a = <<s, t>>, b right after a's comma
  SubSeq(toks, 1, a[1] - 1) \o SubSeq(toks, b[1], b[2] - 1) \o <<",">>
    \o SubSeq(toks, a[1], a[2] - 1) \o SubSeq(toks, b[2], Len(toks))
PC02(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1) IN
  NonGreedy(c) =>
  /\ \A j \in A.named : j + 1 \in A.named =>
       LET t2 == Swapped(toks, A.ss[j], A.ss[j + 1])
           o2 == Parse(d, t2)
       IN /\ o2.ok = out.ok
          /\ out.ok => Text(o2.v, t2) = Text(out.v, toks)
  /\ out.ok =>
       \A k \in 1..Len(c.ps) :
         LET p == c.ps[k]  v == out.v.xs[k]
             given == {j \in A.named : toks[A.ss[j][1]] = p.name
                                        /\ Takes(p.pt, StyleOf(toks, A.ss[j][1], A.ss[j][2]))}
         IN p.role = "named" =>
              /\ Cardinality(given) <= 1
              /\ given = {} => /\ p.opt \/ p.pt.k \in {"bool", "flag"}
                               /\ v = IF p.opt THEN VNone
                                      ELSE IF p.pt.k = "bool" THEN VBool(FALSE) ELSE VFlag(0)
              /\ \A j \in given :
                   \* all tokens stored in the field come from that argument
                   /\ \A r \in Ranges(v) : A.ss[j][1] < r[1] /\ r[2] <= A.ss[j][2]
                   /\ \A n \in NameToks(v) : A.ss[j][1] <= n /\ n < A.ss[j][2]
                   /\ v \notin {VNone, VBool(FALSE), VFlag(0)}

(* C04: nothing is assigned twice. *)
PC04(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1)
      twice == \E i, j \in A.named :
                  /\ i < j /\ A.owner[i] # 0 /\ A.owner[i] = A.owner[j]
                  /\ c.ps[A.owner[i]].role = "rest" => toks[A.ss[i][1]] = toks[A.ss[j][1]]
  IN NonGreedy(c) => /\ twice => ~out.ok
                     /\ (out.cls = "dup" /\ ~HasNested(c)) => twice

(* C05: the rest map holds exactly the arguments nobody else takes. *)
PC05(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1)
      st(j) == StyleOf(toks, A.ss[j][1], A.ss[j][2])
      free == {j \in A.named : FieldOf(c, toks[A.ss[j][1]], st(j)) = 0}
  IN NonGreedy(c) =>
     /\ c.rest = 0 /\ free # {} => ~out.ok
     /\ c.rest # 0 /\ out.ok =>
          LET es == out.v.xs[c.rest].xs IN
          /\ {es[x].at : x \in 1..Len(es)} = {A.ss[j][1] : j \in free}
          /\ Len(es) = Cardinality(free)
          /\ Cardinality({toks[es[x].at] : x \in 1..Len(es)}) = Len(es)

(* C07: every token of an accepted input is a name, a separator, part of a
   stored value, or one of the brackets and `=` of a named argument. *)
Punctuation(toks, i) == toks[i] \in {",", "(", ")"} \/ IsEq(toks[i])
BoolNames(d, toks, A) ==                  \* bool parameters do not record their name
  {A.ss[j][1] : j \in {x \in A.named : A.owner[x] # 0 /\ Comp[d].ps[A.owner[x]].pt.k \in {"bool", "value"}}}
PC07(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1)
      covered == UNION {r[1]..(r[2] - 1) : r \in Ranges(out.v)}
      nested == \E k \in 1..Len(c.ps) : c.ps[k].pt.ty.n = "@"
  IN out.ok =>
     /\ \A r, q \in Ranges(out.v) : r = q \/ r[2] <= q[1] \/ q[2] <= r[1]   \* no token twice
     /\ (NonGreedy(c) /\ ~nested) =>
          \A i \in 1..Len(toks) :
             i \in covered \/ Punctuation(toks, i) \/ i \in NameToks(out.v)
               \/ i \in BoolNames(d, toks, A)

(* C08: recorded names are the names of the arguments; errors are where the
   offending argument is. *)
SegAt(A, p) == {j \in 1..Len(A.ss) : A.ss[j][1] = p}
PC08(d, toks, out) ==
  LET c == Comp[d]  A == Analysis(d, toks, 1, Len(toks) + 1) IN
  NonGreedy(c) =>
  /\ out.ok => \A k \in 1..Len(c.ps) :
        LET v == out.v.xs[k]  at == NameToks(v) IN
        c.ps[k].role = "named" =>
          \* a top-level name: the argument whose owner is this field
          /\ v.k \in {"flag", "nv", "na"} /\ v.at # 0 =>
               \E j \in A.named : A.ss[j][1] = v.at /\ A.owner[j] = k /\ toks[v.at] = c.ps[k].name
  /\ (~out.ok /\ out.cls = "dup" /\ ~HasNested(c)) =>
        \E i, j \in A.named : i < j /\ A.ss[j][1] = out.at /\ toks[A.ss[i][1]] = toks[out.at]
  /\ (~out.ok /\ out.cls \in {"unknown", "style", "surplus", "order"} /\ ~HasNested(c)) =>
        SegAt(A, out.at) # {}
  /\ (~out.ok /\ out.cls = "least" /\ ~HasNested(c)) => out.at = Len(toks) + 1
=============================================================================
