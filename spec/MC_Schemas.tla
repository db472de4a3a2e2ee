----------------------------- MODULE MC_Schemas -----------------------------
(***************************************************************************)
(* Every schema of the small scope - refined by up to Depth declaration    *)
(* calls, or a core schema placed in every kind of position - with the     *)
(* boundary values that belong to it.  The theorems tie the operators of   *)
(* the specification to each other; every (schema, values) pair is         *)
(* replayed into the implementation.                                       *)
(***************************************************************************)
EXTENDS Small, Json
CONSTANTS Depth, Laws, Deep
VARIABLES s, n, vs
vars == <<s, n, vs>>

Init == \/ \E t \in BaseTypes : s = Base(t) /\ n = 0 /\ vs = ValuesFor(s)
        \/ \E c \in Core : s = c /\ n = 20 /\ vs = {}
        \/ \E c \in Beside : s = c /\ n = 21 /\ vs = {}
Refinement == /\ n < Depth
              /\ \E c \in Calls(s.t) : LET r == Refine(s, c[1], c[2]) IN r.ok /\ s' = r.s
              /\ n' = n + 1
              /\ UNCHANGED vs
Placing == n = 20 /\ n' = 10 /\ \E w \in WrapKinds : s' = Wrap(w, s) /\ vs' = WrapVals(w)
\* placed once more, with the values placed alike
Again == /\ Deep /\ n = 10 /\ n' = 11 /\ vs # Inner /\ vs # WindowVals
         /\ \E w \in WrapKinds \ {"two", "anyfirst"} : s' = Wrap(w, s) /\ vs' = PlacedVals(w, vs)
Joining == n = 20 /\ n' = 10 /\ \E d \in Core : s' = Union2(s, d) /\ vs' = Inner
Sliding == n = 21 /\ n' = 10 /\ \E d \in Beside, w \in {"exact", "head", "tail", "contains"} :
                                   s' = Window2(w, s, d) /\ vs' = WindowVals
Next == Refinement \/ Placing \/ Again \/ Joining \/ Sliding
Spec == Init /\ [][Next]_vars
View == <<s, n >= 10, n >= 20, n = 11>>

Conforming == {v \in vs : Accepts(s, v)}
Satisfiable == Conforming # {} => Sat(s)
SatModes == /\ AllSat(s) => HSat(s)
            /\ HSat(s) => Sat(s)
Subs == {v \in vs : Plain(v) /\ SubOk(s, v)}
\* C04, C05, C12 as theorems about the substitution of the specification
Theorems == Laws => \A v \in Subs :
    LET r == Subst(s, v) IN
    /\ WellFormed(r)
    /\ Accepts(s, v) => Accepts(r, v)
    /\ SubOk(r, v) /\ Subst(r, v) = r
    /\ \A w \in vs : /\ Accepts(r, w) => (Accepts(s, w) /\ Carries(v, w, Precs(s)))
                     /\ Keep(s, v, w) => Accepts(r, w)
Emit == n < 20 => PrintT("BEH " \o ToJson([s |-> s, vs |-> SetToSeq(vs)]))
=============================================================================
