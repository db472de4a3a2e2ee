------------------------------ MODULE Schemas ------------------------------
(***************************************************************************)
(* Abstract schemas: one record per type with every declared property;     *)
(* an undeclared property is <<>>, a declared one <<x>>.                   *)
(*  [t |-> "none"]                                                         *)
(*  [t |-> "bool"/"bytes"/"uuid4"/"datetime"/"date", value]                *)
(*  [t |-> "int", value, min, max]       [t |-> "float", value, min, max,  *)
(*                                        prec]                            *)
(*  [t |-> "str", value, len, minlen, maxlen, alphabet, substr, pattern]   *)
(*     pattern = <<[p |-> text, x |-> regex tree]>>                        *)
(*  [t |-> "list", elems, type, len, minlen, maxlen]                       *)
(*     elems = <<Seq(schema or Ell)>>                                      *)
(*  [t |-> "dict", keys]    keys = <<Seq(<<key, schema or Ell, optional>>)>> *)
(*  [t |-> "any", types]    types = <<Seq(schema)>>                        *)
(*  [t |-> "alias", name, type]  [t |-> "custom", name, inner]             *)
(***************************************************************************)
EXTENDS Values, Regex

Ell == [t |-> "ell"]
IsEll(s) == s.t = "ell"

SNone == [t |-> "none"]
SBool == [t |-> "bool", value |-> <<>>]
SInt == [t |-> "int", value |-> <<>>, min |-> <<>>, max |-> <<>>]
SFloat == [t |-> "float", value |-> <<>>, min |-> <<>>, max |-> <<>>, prec |-> <<>>]
SStr == [t |-> "str", value |-> <<>>, len |-> <<>>, minlen |-> <<>>, maxlen |-> <<>>,
         alphabet |-> <<>>, substr |-> <<>>, pattern |-> <<>>]
SList == [t |-> "list", elems |-> <<>>, type |-> <<>>, len |-> <<>>, minlen |-> <<>>,
          maxlen |-> <<>>]
SDict == [t |-> "dict", keys |-> <<>>]
SAny == [t |-> "any", types |-> <<>>]
SBytes == [t |-> "bytes", value |-> <<>>]
SUuid == [t |-> "uuid4", value |-> <<>>]
SDatetime == [t |-> "datetime", value |-> <<>>]
SDate == [t |-> "date", value |-> <<>>]
SAlias(n, s) == [t |-> "alias", name |-> <<n>>, type |-> s]

\* element-list forms
Concrete(es) == SelectSeq(es, LAMBDA e : ~IsEll(e))
HasEllipsis(es) == \E i \in 1..Len(es) : IsEll(es[i])
FormOf(es) ==
    IF ~HasEllipsis(es) THEN "exact"
    ELSE IF Len(es) = 1 THEN "open"
    ELSE IF IsEll(es[1]) /\ IsEll(es[Len(es)]) THEN "contains"
    ELSE IF IsEll(es[Len(es)]) THEN "head"
    ELSE IF IsEll(es[1]) THEN "tail" ELSE "broken"
\* `...` only at the ends, and never alone at both
WellFormedElems(es) ==
    /\ \A i \in 1..Len(es) : IsEll(es[i]) => i \in {1, Len(es)}
    /\ ~(Len(es) = 2 /\ IsEll(es[1]) /\ IsEll(es[2]))

Relaxed(ks) == \E i \in 1..Len(ks) : ks[i][1].k = "ell"
SKeyIdx(ks, key) == LET I == {i \in 1..Len(ks) : PyEq(ks[i][1], key)}
                    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE

\* a schema object every operation can be applied to
RECURSIVE WellFormed(_)
WellFormed(s) ==
    CASE s.t = "list" ->
           /\ s.elems # <<>> => /\ WellFormedElems(s.elems[1])
                                /\ \A i \in 1..Len(s.elems[1]) :
                                     IsEll(s.elems[1][i]) \/ WellFormed(s.elems[1][i])
           /\ s.type # <<>> => WellFormed(s.type[1])
           /\ s.elems = <<>> \/ s.type = <<>>
      [] s.t = "dict" ->
           s.keys # <<>> => \A i \in 1..Len(s.keys[1]) :
              IF IsEll(s.keys[1][i][2]) THEN s.keys[1][i][1].k = "ell"
              ELSE WellFormed(s.keys[1][i][2])
      [] s.t = "any" -> s.types # <<>> =>
              /\ Len(s.types[1]) > 0
              /\ \A i \in 1..Len(s.types[1]) : WellFormed(s.types[1][i])
      [] s.t = "alias" -> WellFormed(s.type)
      [] s.t = "custom" -> WellFormed(s.inner)
      [] s.t = "broken" -> FALSE
      [] OTHER -> TRUE
=============================================================================
