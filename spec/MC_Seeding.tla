---------------------------- MODULE MC_Seeding ----------------------------
(***************************************************************************)
(* Every history of seeding, generating and doing other things, after a    *)
(* first seed.  The generator is modelled as a stream that is consumed:    *)
(* `pos` is where a generation starts in the stream of the seed.  Replayed *)
(* on the library, in several processes.                                   *)
(***************************************************************************)
EXTENDS Seeding, TLC, Json
CONSTANT Depth
VARIABLES hist, st, stream
vars == <<hist, st, stream>>
Others == {"validate", "repr", "substitute", "equal", "declare", "refuse", "new-random"}
Ops == {[o |-> "seed", i |-> k] : k \in 1..2} \cup {[o |-> "gen", i |-> i] : i \in 1..3} \cup
       {[o |-> x, i |-> 1] : x \in Others}
\* how much of the stream schema i takes: any fixed amounts will do
Takes(i) == <<1, 2, 4>>[i]
Init == /\ hist \in {<<[o |-> "seed", i |-> k]>> : k \in 1..2}
        /\ st = SeedTo(hist[1].i)
        /\ stream = <<hist[1].i, 0>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ hist' = Append(hist, op)
                           /\ st' = After(st, op)
                           /\ stream' = CASE op.o = "seed" -> <<op.i, 0>>
                                          [] op.o = "gen" -> <<stream[1], stream[2] + Takes(op.i)>>
                                          [] OTHER -> stream
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(is) == IF is = <<>> THEN 0 ELSE Takes(Head(is)) + Total(Tail(is))
\* a consumed stream is a function of the abstract state, and so is everything generated from it
Refines == stream = <<st.k, Total(st.since)>>
Deterministic == st = StateAfter(hist, Len(hist))
Emit == (Len(hist) = Depth /\ hist[Depth].o = "gen") =>
           PrintT("BEH " \o ToJson([ops |-> hist,
                     at |-> [i \in 1..Depth |-> IF hist[i].o = "gen" THEN StateAfter(hist, i) ELSE SeedTo(0)]]))
=============================================================================
