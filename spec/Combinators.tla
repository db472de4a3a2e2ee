----------------------------- MODULE Combinators ----------------------------
(***************************************************************************)
(* What combining schemas means, in terms of what the parts mean.          *)
(***************************************************************************)
EXTENDS Declaration

UnionAccepts(parts, w) == \E i \in 1..Len(parts) : Accepts(parts[i], w)

KeysOf(d) == IF d.keys = <<>> THEN <<>> ELSE d.keys[1]
RECURSIVE SumKeys(_)
SumKeys(ds) == IF ds = <<>> THEN <<>>
               ELSE MergeKeys(KeysOf(Head(ds)), SumKeys(Tail(ds)))
SumOf(ds) == [SDict EXCEPT !.keys = <<SumKeys(ds)>>]

HasAll(w, ks) == \A i \in 1..Len(ks) : KeyIdx(w, ks[i]) # 0
DeclaredKeys(d) == SelectSeq([i \in 1..Len(KeysOf(d)) |-> KeysOf(d)[i][1]], LAMBDA k : k.k # "ell")
RequiredAccepts(d, ks, w) == Accepts(d, w) /\ HasAll(w, ks)

\* the schema each combinator is expected to be, where it can be written down
RequiredOf(d, ks) ==
    [d EXCEPT !.keys = <<[i \in 1..Len(KeysOf(d)) |->
        <<KeysOf(d)[i][1], KeysOf(d)[i][2],
          KeysOf(d)[i][3] /\ ~\E j \in 1..Len(ks) : PyEq(ks[j], KeysOf(d)[i][1])>>]>>]

Means(kind, parts, ks, w) ==
    CASE kind = "union" -> UnionAccepts(parts, w)
      [] kind = "sum" -> Accepts(SumOf(parts), w)
      [] kind = "required" -> RequiredAccepts(parts[1], ks, w)
      [] kind = "requiredall" -> RequiredAccepts(parts[1], DeclaredKeys(parts[1]), w)
      [] kind = "same" -> Accepts(parts[1], w)
PartsGrey(kind, parts, w) == \E i \in 1..Len(parts) : HasGrey(parts[i], w)
=============================================================================
