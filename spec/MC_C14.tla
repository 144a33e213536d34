------------------------------- MODULE MC_C14 -------------------------------
(* Printing of constructed values: the structs of StructFamily, enums, and  *)
(* declarations that only derive ToTokens.                                  *)
EXTENDS StructFamily

Only(d) == d @@ [only |-> "ToTokens"]
Bodies == <<UnitV, TupV(<<Fd(IdT)>>), RecV(<<Fd(IdT), Fd(IntT)>>),
            TupV(<<Sym(<<"(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(OptSemi))>>),
            RecV(<<Sym(<<"{">>, Fd(MacroT)), Fd(IdT), Fd(IdT)>>),
            TupV(<<Fd(IntT), Sym(<<"[">>, Fd(BracketT)), Sym(<<"(">>, Fd(MacroT)), Fd(IdT), Sym(<<")", "]">>, Fd(IntT))>>),
            TupV(<<Fd(NodeT(1)), Term(Fd(Punct(IdT, CommaT)))>>)>>
\* every variant is preceded by one that has other fields
Enums == [k \in 1..(Len(Bodies) * Len(Bodies)) |->
            Enum(<<Bodies[((k - 1) \div Len(Bodies)) + 1], Bodies[((k - 1) % Len(Bodies)) + 1]>>)]
\* only printed: delimiters outside of groups, fields that open several groups, lists that are not terminated
TokensOnly == <<
  Only(Struct(TupV(<<Sym(<<"(", "(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(IdT))>>))),
  Only(Struct(TupV(<<Sym(<<"[", "(">>, Fd(MacroT)), Fd(IdT), Sym(<<")", "]">>, Fd(IdT))>>))),
  Only(Struct(RecV(<<Fd(IdT), Sym(<<"{">>, Fd(MacroT)), Fd(IdT), Sym(<<"}", "[">>, Fd(BracketT)), Fd(IntT)>>))),
  Only(Struct(TupV(<<Fd(Punct(NodeT(1), CommaT)), Fd(IdT), Fd(Box(Punct(IntT, SemiT)))>>))),
  Only(Struct(TupV(<<Sym(<<"(">>, Fd(Box(ParenT))), Fd(IdT)>>))),
  Only(Enum(<<TupV(<<Sym(<<"[">>, Fd(BracketT)), Fd(IdT), Sym(<<"]", "(">>, Fd(ParenT)), Fd(IdT), Sym(<<")">>, Fd(IdT))>>), UnitV>>))>>
\* (the declarations of Lead come first and keep their numbers)
TheDecls == TLCEval(Lead \o Enums \o TokensOnly \o SubSeq(StructDecls, Len(Lead) + 1, Len(StructDecls)))
Init == PickInit(1..Len(Decls))
Pick == m.ph = "pick" /\ \E v \in DeclValues(m.d, 2) : PickedV(Pool, v)
Spec == Init /\ [][Pick \/ Running]_m
ASSUME PrintT("@D " \o ToJson(Decls))
=============================================================================
