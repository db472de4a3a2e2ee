----------------------------- MODULE MC_Declare -----------------------------
(***************************************************************************)
(* The declaration language as a state machine: a schema being refined by  *)
(* calls with boundary arguments.  A refused call leaves the receiver as   *)
(* it is.  Every chain is replayed into the implementation.                *)
(***************************************************************************)
EXTENDS Small, Json
CONSTANT Depth
VARIABLES s, chain, refused
vars == <<s, chain, refused>>

Init == \E t \in BaseTypes \ {"none"} : s = Base(t) /\ chain = <<>> /\ refused = FALSE
Call == /\ Len(chain) < Depth /\ ~refused
        /\ \E c \in Calls(s.t) :
             LET r == Refine(s, c[1], c[2]) IN
             /\ chain' = Append(chain, c)
             /\ refused' = ~r.ok
             /\ s' = IF r.ok THEN r.s ELSE s
Next == Call
Spec == Init /\ [][Next]_vars

\* C10: what is declared is self-consistent, usable, and declared once
Consistent == SelfConsistent(s) /\ WellFormed(s)
Once == \A c \in Calls(s.t) : Declared(s, c[1]) => ~Refine(s, c[1], c[2]).ok
\* C11: two refinements commute, in outcome and in result
Two(c, d) == LET r == Refine(s, c[1], c[2]) IN IF r.ok THEN Refine(r.s, d[1], d[2]) ELSE Refused
Commute == (~refused /\ Len(chain) < Depth) =>
    \A c, d \in {x \in Calls(s.t) : x[1] # ""} : Two(c, d) = Two(d, c)
\* refining only narrows
Narrows == [][\A v \in ValuesFor(s) : Accepts(s', v) => (Accepts(s, v) \/ (s.t = "float" /\ s'.prec # s.prec))]_vars
\* a fixed value that is contradicted is refused, so declared bounds always admit it
Emit == (Len(chain) = Depth \/ (refused /\ Len(chain) > 0)) =>
           PrintT("BEH " \o ToJson([base |-> s.t, calls |-> chain]))
=============================================================================
