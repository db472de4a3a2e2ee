-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Replays a log recorded from the implementation, one event per step, and *)
(* prints for every event the clauses of the property it violates.         *)
(***************************************************************************)
EXTENDS Laws, Json, IOUtils, TLCExt
VARIABLE step
Log == ndJsonDeserialize(IOEnv.TRACE_FILE)

Clauses(ev) ==
    CASE ev.op = "validate" -> C02Clauses(ev)
      [] ev.op = "gen" -> C01Clauses(ev)
      [] ev.op = "subst4" -> C04Clauses(ev)
      [] ev.op = "subst5" -> C05Clauses(ev)
      [] ev.op = "subst12" -> C12Clauses(ev)
      [] ev.op = "repr" -> C06Clauses(ev)
      [] ev.op = "reprs" -> C06Texts(ev)
      [] ev.op = "call" -> C10Clauses(ev)
      [] ev.op = "combine" -> C13Clauses(ev)
      [] ev.op = "rollout" -> C18Clauses(ev)
      [] ev.op = "native" -> C14Clauses(ev)
      [] ev.op = "eq" -> C15Clauses(ev)
      [] ev.op = "eqv" -> C15Value(ev)
      [] ev.op = "custom" -> C16Clauses(ev)
      [] ev.op = "regex" -> C09Clauses(ev)
      [] ev.op = "seeded" -> C17Clauses(ev)
      [] ev.op = "seeding" -> C17Histories(ev)
      [] ev.op = "session" -> C07Clauses(ev)
      [] ev.op = "migrate" -> C19Clauses(ev)
      [] ev.op = "targets" -> C19Targets(ev)
      [] ev.op = "orders" -> C11Clauses(ev)
      [] ev.op = "errors" -> C03Siblings(ev)
      [] ev.op = "error" -> C03Clauses(ev)
      [] ev.op = "total" -> C08Clauses(ev)

Init == step = 0
Next == /\ step < Len(Log)
        /\ step' = step + 1
        /\ LET c == Clauses(Log[step + 1]) IN IF c = {} THEN TRUE ELSE PrintT(<<"VIOL", step + 1, c>>)
Spec == Init /\ [][Next]_step
=============================================================================
