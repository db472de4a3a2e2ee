------------------------------ MODULE Seeding ------------------------------
(***************************************************************************)
(* Seeded generation as a state machine.  The state is which seed was set  *)
(* last and what has been generated since; generating is the only thing    *)
(* that moves it on, and what is generated is a function of that state.    *)
(* `table` is that function as far as it has been observed.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

SeedTo(k) == [k |-> k, since |-> <<>>]
\* one operation: "seed" k, "gen" of schema i, or anything else
After(st, op) ==
    CASE op.o = "seed" -> SeedTo(op.i)
      [] op.o = "gen" -> [st EXCEPT !.since = Append(@, op.i)]
      [] OTHER -> st
RECURSIVE StateAfter(_, _)
StateAfter(ops, n) == IF n = 0 THEN SeedTo(0) ELSE After(StateAfter(ops, n - 1), ops[n])
\* the states in which the generations of a history take place
Points(ops) == LET is == {i \in 1..Len(ops) : ops[i].o = "gen"}
               IN [i \in is |-> StateAfter(ops, i)]

\* recorded: obs[n] = [k, since, v]; v is the identity of the generated value
Reproducible(obs) ==
    Cardinality({<<obs[n].k, obs[n].since>> : n \in 1..Len(obs)}) =
    Cardinality({<<obs[n].k, obs[n].since, obs[n].v>> : n \in 1..Len(obs)})
=============================================================================
