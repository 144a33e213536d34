------------------------------- MODULE MCBase -------------------------------
(* Helpers shared by the bounded families of the StructMeta properties.    *)
EXTENDS MetaSpec, SequencesExt

CONSTANT Deep          \* TRUE in the thorough tier

IntT == T("LitInt")
StrT == T("LitStr")
IdT  == T("Ident")
ExT  == T("Expr")

\* all sequences over S of length <= n
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* argument sequences joined with commas
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<",">> \o Join(Tail(ss))
ListsOf(S, n) == {Join(x) : x \in SeqsUpTo(S, n)}
Trailing(S) == S \cup {x \o <<",">> : x \in S \ {<<>>}}
\* sequences without repetition
Arrangements(S, n) == {x \in SeqsUpTo(S, n) : \A i, j \in 1..Len(x) : i # j => x[i] # x[j]}
ToSeq(S) == TLCEval(SetToSeq(S))

\* A declaration that remembers what it was made from.
Tag(x, d) == d @@ [tag |-> x]
Family(S) == TLCEval(SetToSeq(S))
TagOf(d) == Decls[d].tag

\* A family: the declarations 1..n and the inputs of each.  The input is chosen in
\* a first step, so that TLC generates inputs in parallel.
PickInit(n) == \E d \in 1..n : m = [ph |-> "pick", d |-> d]
Picked(t) == m.ph = "pick" /\ m' = Start(m.d, t, 1, Len(t) + 1)
Running == m.ph # "pick" /\ Next

\* many parameters
WideNames == <<"l", "k", "j", "i", "h", "g", "f", "e", "d", "c", "b", "a">>
Wide(kinds, n) == [i \in 1..n |-> F(WideNames[i], kinds[((i - 1) % Len(kinds)) + 1])]
Rotate(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
\* the arguments once each in several orders, all but one, and one of them twice
WideLists(s) == {Join(s), Join(Reverse(s)), Join(Rotate(s, Len(s) \div 2))}
                  \cup {Join(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))) : i \in 1..Len(s)}
                  \cup {Join(Append(s, s[i])) : i \in 1..Len(s)}
\* argument forms
Fl(n)    == <<n>>
Va(n, v) == <<n, "=">> \o v
Ar(n, v) == <<n, "(">> \o v \o <<")">>
=============================================================================
