------------------------------ MODULE Context -------------------------------
(***************************************************************************)
(* Where a declaration stands and how it is parametrised (C19).            *)
(*   scope  what the names of the generated code mean around it            *)
(*          (tools/context.py): "" nothing special; "shadow" modules named *)
(*          as the crates it uses; "alias" other types, traits, functions  *)
(*          and macros named as those it uses; "all" both; "prelude" the   *)
(*          names of the prelude are others; "bare" there is no prelude;   *)
(*          "types" the types of the fields have names of traits and types *)
(*          that the generated code uses or imports;                       *)
(*          "methods" methods on everything; "block" inside a block;       *)
(*          "macro", "args", "attr" put together by macro_rules from the fragments,    *)
(*          from the item, from the derive attribute                       *)
(*   bound  where the bounds of the type parameters are written: with the  *)
(*          parameter, in a where clause, next to a default, as predicates *)
(*          of every kind (higher-ranked, of projections, of other types)  *)
(* A leaf type is marked with q: "gen" it is a type parameter that this    *)
(* type is substituted for; "lt", "cn" it stands behind a type with a      *)
(* lifetime, a constant parameter of the item; "self" it is `Self`.        *)
(* None of it has a meaning: Bare takes it away, and what the derive makes *)
(* of a declaration is what it makes of the bare one.                      *)
(***************************************************************************)
EXTENDS Types

Scopes == <<"", "shadow", "alias", "all", "prelude", "bare", "types", "methods", "block", "macro", "args", "attr">>
Bounds == <<"inline", "where", "default", "preds">>
Marks  == {"gen", "lt", "cn", "self"}
Markings == <<<<>>, <<"gen">>, <<"lt">>, <<"cn">>, <<"gen", "lt", "cn">>, <<"cn", "gen", "lt", "">>, <<"", "gen">>>>
MarkLeaves == {"LitInt", "LitStr", "Ident", "AnyIdent", "Expr", "TokenStream", "LitBool", "Pair", "Grp", "@", "Comma", "Semi"}
\* (syn reads only tokens optionally, and a parameter is no token: an optional token is marked as a whole)
MarkLeaf(t) == t.n \in MarkLeaves \/ (t.n = "Option" /\ Len(t.a) = 1 /\ t.a[1].n \in {"Comma", "Semi"})

\* the leaves of a type are marked in turn; a marked type and the number of leaves in it
RECURSIVE MarkTy(_, _, _)
MarkTy(t, mk, k) ==
  IF mk = <<>> THEN <<t, k>>
  ELSE IF MarkLeaf(t)
       THEN <<IF t.q = "" THEN [t EXCEPT !.q = mk[(k % Len(mk)) + 1]] ELSE t, k + 1>>
  ELSE IF t.n \in {"Flag", "bool", "String"} \/ t.a = <<>> THEN <<t, k>>
  ELSE LET j == Len(t.a)  r == MarkTy(t.a[IF t.n = "Punct" THEN 1 ELSE j], mk, k)
       IN <<[t EXCEPT !.a[IF t.n = "Punct" THEN 1 ELSE j] = r[1]], r[2]>>
RECURSIVE BareTy(_)
BareTy(t) == IF t.n = "@" THEN [t EXCEPT !.q = ""]
             ELSE [t EXCEPT !.q = IF @ \in Marks THEN "" ELSE @, !.a = [i \in 1..Len(@) |-> BareTy(@[i])]]
=============================================================================
