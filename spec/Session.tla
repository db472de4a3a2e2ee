------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: a pool of schemas that only ever grows.  Every operation is  *)
(* a function of its operands; it may add its result to the pool, and      *)
(* changes nothing that is there already.                                  *)
(*   op = [o, i, j, m, args, v]; arguments may be [a |-> "ref", i]         *)
(***************************************************************************)
EXTENDS Combinators

RECURSIVE Deref(_, _)
Deref(pool, a) ==
    CASE a.a = "ref" -> [a |-> "schema", s |-> pool[a.i]]
      [] a.a = "list" -> [a EXCEPT !.xs = [i \in 1..Len(a.xs) |-> Deref(pool, a.xs[i])]]
      [] a.a = "dict" -> [a EXCEPT !.ps = [i \in 1..Len(a.ps) |->
                                              <<a.ps[i][1], Deref(pool, a.ps[i][2])>>]]
      [] OTHER -> a

App(pool, op) ==
    LET s == pool[op.i] IN
    CASE op.o = "call" ->
           IF op.m \notin Methods(s.t) THEN Refused
           ELSE Refine(s, op.m, [k \in 1..Len(op.args) |-> Deref(pool, op.args[k])])
      [] op.o = "or" -> RefineAny(SAny, <<[a |-> "schema", s |-> s], [a |-> "schema", s |-> pool[op.j]]>>)
      [] op.o = "plus" -> IF s.t = "dict" /\ pool[op.j].t = "dict" THEN Ok(SumOf(<<s, pool[op.j]>>))
                          ELSE Refused
      [] op.o = "mod" -> IF SubOk(s, op.v) THEN Ok(Subst(s, op.v)) ELSE Refused
      [] op.o = "req" -> IF s.t # "dict" THEN Refused
                         ELSE IF s.keys = <<>> THEN Ok(s)
                         ELSE Ok(RequiredOf(s, DeclaredKeys(s)))
      [] OTHER -> Refused       \* validate, repr, fake, iteration: no new schema
Grow(pool, op) == LET r == App(pool, op) IN IF r.ok THEN Append(pool, r.s) ELSE pool

(***************************************************************************)
(* A recorded session, by identity of observations (equal number: equal    *)
(* observation):                                                           *)
(*  births[i]  what was observed of schema i when it entered the pool      *)
(*  alone[i]   what is observed of the same schema in a process of its own *)
(*  steps[k] = [key, res, alone, obs, args, kept, old]                     *)
(*    key, res    the operation with its operands, its result              *)
(*    alone       the result of the same operation in a process of its own *)
(*    obs[i]      what is observed of schema i after the step              *)
(*    args[n]     the n-th operand <<before, after>> the step              *)
(*    kept[n]     values passed in before <<as they were, as they are>>    *)
(*    old[n]      results given before <<as they were, as they are>>       *)
(***************************************************************************)
Purity(h) ==
    LET S == h.steps
        If1(c, n) == IF c THEN {n} ELSE {}
    IN UNION {
        If1(\E i \in 1..Len(S[k].obs) : S[k].obs[i] # h.births[i], "a-schema-changed") \cup
        If1(\E n \in 1..Len(S[k].args) : S[k].args[n][1] # S[k].args[n][2], "an-operand-was-mutated") \cup
        If1(\E n \in 1..Len(S[k].kept) : S[k].kept[n][1] # S[k].kept[n][2], "a-value-was-mutated-later") \cup
        If1(\E n \in 1..Len(S[k].old) : S[k].old[n][1] # S[k].old[n][2], "an-earlier-result-changed") \cup
        If1(S[k].alone # 0 /\ S[k].alone # S[k].res, "the-history-shows-in-the-result") \cup
        If1(\E j \in 1..(k - 1) : S[j].key = S[k].key /\ S[j].res # S[k].res, "repeated-differently")
        : k \in 1..Len(S)} \cup
       UNION {If1(h.alone[i] # <<>> /\ h.alone[i] # h.births[i], "the-history-shows-in-a-schema")
              : i \in 1..Len(h.births)}

\* a session the specification generated: the pool is the one it predicts
RECURSIVE PoolAfter(_, _, _)
PoolAfter(pool, ops, k) == IF k = 0 THEN pool ELSE Grow(PoolAfter(pool, ops, k - 1), ops[k])
=============================================================================
