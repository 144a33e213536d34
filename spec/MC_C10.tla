------------------------------- MODULE MC_C10 -------------------------------
(* Declarations for derive(StructMeta): all short lists of field kinds, all *)
(* short attribute arguments, and all pairs of names.                       *)
EXTENDS LegalMeta, SequencesExt, Json

CONSTANT Deep

IntT == T("LitInt")
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Name(n) == <<List(<<"name", "=", "'" \o n>>)>>
Un == <<List(<<"unnamed">>)>>
S(shape, fs) == [item |-> "struct", shape |-> shape, attrs |-> <<>>, fields |-> fs]
Tup(fs) == S("tup", fs)
Rec(fs) == S("rec", [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.id = <<"q", "r", "s", "t", "u">>[i]]])

\* field kinds, in tuples
Plain(t) == AFd("", t, <<>>)
Kinds == {Plain(t) : t \in {IntT, Opt(IntT), VecT(IntT), Opt(VecT(IntT)), FlagT, Opt(BoolT), NV(IntT), Opt(NA(IntT)), NA(VecT(IntT))}}
           \cup {AFd("", IntT, Name("a")), AFd("", FlagT, Name("b")), AFd("", Opt(IntT), Name("a")), AFd("", VecT(IntT), Name("b"))}
           \cup {Plain(Map(IntT)), AFd("", Map(NA(Opt(IntT))), Un), AFd("", IntT, Un), AFd("", Opt(FlagT), Un)}
\* Option<bool>, Option<Flag> have no reader: only where they are rejected anyhow
NoReader(f) == f.ty \in {Opt(BoolT), Opt(FlagT)}
Few == {Plain(IntT), Plain(Opt(IntT)), Plain(VecT(IntT)), AFd("", IntT, Name("a")), AFd("", FlagT, Name("b")), Plain(Map(IntT))}
Ordered == {Tup(fs) : fs \in SeqsUpTo(Kinds \ {f \in Kinds : NoReader(f) /\ Role(f, NoArgs) # "bad"}, IF Deep THEN 3 ELSE 2)
                              \cup SeqsUpTo(Few, IF Deep THEN 5 ELSE 4)}
\* the same in records, where unnamed fields need the attribute
InRec(f) == IF f.attrs = <<>> /\ ~IsMap(f.ty) THEN [f EXCEPT !.attrs = Un] ELSE f
Records == {Rec([i \in 1..Len(fs) |-> InRec(fs[i])]) : fs \in SeqsUpTo(Few, 3)}
\* names of two fields
Ids == {"a", "b", "r#a", "r#type", "A", "_a"}
Names == {<<>>} \cup {Name(n) : n \in {"a", "b", "type", "r#a", "", "A", "_a", "a_", "a ", "Type"}} \cup {Un}
Named == {S("rec", <<AFd(x, IntT, n), AFd(y, t, o), AFd("z", FlagT, <<>>)>>) :
            x \in Ids, y \in Ids, n \in Names, o \in Names \ {Un}, t \in {IntT}}
\* names given more than once: the last one is the name
Renamed == {S("rec", <<AFd("q", IntT, a), AFd("b", FlagT, o)>>) :
   a \in {<<List(<<"name", "=", "'a">>), List(<<"name", "=", "'b">>)>>, <<List(<<"name", "=", "'b">>), List(<<"name", "=", "'a">>)>>,
          <<List(<<"name", "=", "'a", ",", "name", "=", "'b">>)>>, <<List(<<"name", "=", "'b", ",", "name", "=", "'a">>)>>,
          <<List(<<"name", "=", "'b">>), List(<<"unnamed">>)>>, <<List(<<"unnamed">>), List(<<"name", "=", "'b">>)>>},
   o \in {<<>>, <<List(<<"name", "=", "'a">>)>>, <<List(<<"name", "=", "'b">>), List(<<"name", "=", "'a">>)>>}}
NamesDecls == {d \in Named : Unraw(d.fields[1].id) # Unraw(d.fields[2].id)}
\* arguments of a field
FToks == {"name", "=", "'a", "unnamed", ",", "foo", "1", "()"}
FieldLists == SeqsUpTo(FToks, IF Deep THEN 4 ELSE 3)
   \cup {<<"name", "=", "'a">> \o x : x \in SeqsUpTo(FToks, 2)} \cup {x \o <<",", "name", "=", "'b">> : x \in SeqsUpTo({"unnamed", "name", "foo", ","}, 2)}
   \cup {<<"name", "=", "'a", ",", "name", "=", "'b", ",">>, <<"unnamed", ",", "name", "=", "'a", ",", "unnamed", ",">>,
         <<"name", "=", "'a", ",", ",", "unnamed">>, <<"name", "=", "'a", "name", "=", "'b">>, <<"Name", "=", "'a">>, <<"dump">>,
         <<"name", "==", "'a">>, <<"r#name", "=", "'a">>, <<"name", "=", "-", "1">>, <<"unnamed", "=", "true">>, <<"name", "=", "a">>}
FieldArguments == {Tup(<<AFd("", IntT, <<List(x)>>)>>) : x \in FieldLists}
                    \cup {Rec(<<AFd("", IntT, <<List(<<"unnamed">>), List(x)>>), AFd("", FlagT, <<>>)>>) : x \in SeqsUpTo(FToks, 2)}
\* arguments of the item
IToks == {"dump", "name_filter", "=", "'snake_case", "'camelCase", ",", "foo", "name", "()"}
Filter == <<"name_filter", "=", "'snake_case">>
ItemLists == SeqsUpTo(IToks, IF Deep THEN 4 ELSE 3)
   \cup {Filter \o x : x \in SeqsUpTo(IToks, 2)} \cup {<<x, ",">> \o Filter : x \in IToks} \cup {Filter \o <<",">> \o Filter \o x : x \in {<<>>, <<",">>}}
   \cup {Filter \o <<",", "dump">>, <<"dump", ",", "dump">>, <<"dump", ",">> \o Filter \o <<",">>, <<"name_filter", "=", "'">>, <<"name_filter", "=", "'Snake_case">>,
         <<"name_filter", "=", "'snake_case ">>, <<"name_filter", "=", "snake_case">>, <<"unnamed">>, <<"name", "=", "'a">>}
   \* only the one value, and exactly it
   \cup {<<"name_filter", "=", x>> : x \in {"'snake-case", "'SNAKE_CASE", "'Snake_Case", "' snake_case", "'snakecase", "'snake case", "'snakeCase",
                                            "'SnakeCase", "'snake", "'snake_cas", "'snake_case_", "'_snake_case", "'snake_case,", "'r#snake_case", "'none"}}
With(as, d) == [d EXCEPT !.attrs = as]
ItemArguments == {With(<<List(x)>>, Tup(<<Plain(IntT)>>)) : x \in ItemLists}
   \cup {With(<<List(x), List(y)>>, Rec(<<AFd("", FlagT, <<>>)>>)) : x, y \in {<<>>, <<"dump">>, Filter, Filter \o <<",">>, <<"foo">>}}
   \cup {With(<<List(x)>>, Tup(<<Plain(FlagT)>>)) : x \in {<<>>, <<"dump">>, Filter, <<"foo">>}}
\* attributes without an argument list, items that are no structs
Other(f) == [form |-> f, toks |-> <<>>]
Forms == {With(<<Other(f)>>, Tup(<<Plain(IntT)>>)) : f \in {"path", "nv"}} \cup {Tup(<<Plain(IntT), AFd("", IntT, as)>>) : as \in {<<Other("path")>>, <<Other("nv")>>, <<List(<<>>), Other("path")>>}}
Items_ == {With(as, [item |-> k, shape |-> "rec", attrs |-> <<>>, fields |-> <<AFd("q", IntT, <<>>)>>]) :
             k \in {"enum", "union"}, as \in {<<>>, <<List(<<"dump">>)>>, <<List(<<"foo">>)>>, <<List(Filter)>>}}
           \cup {With(as, S("unit", <<>>)) : as \in {<<>>, <<List(<<"dump">>)>>, <<List(<<"foo">>)>>, <<List(Filter)>>}}
TheItems == TLCEval(SetToSeq(Ordered \cup Records \cup NamesDecls \cup Renamed \cup FieldArguments \cup ItemArguments \cup Forms \cup Items_))
Emit == m.ph = "done" => PrintT("@V " \o ToJson(Vector))
ASSUME PrintT("@D " \o ToJson(Items))
=============================================================================
