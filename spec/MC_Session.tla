----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Sessions over a small vocabulary of operations.  hist is the sequence   *)
(* of operations so far; the finished sessions are replayed on the code.   *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
CONSTANT Depth
VARIABLES pool, hist, kind

I(n) == [k |-> "int", n |-> IF n = 0 THEN NZero ELSE IF n < 0 THEN <<-1, 1, <<-n>>>> ELSE <<1, 1, <<n>>>>]
B(b) == [k |-> "bool", b |-> b]
KA == [k |-> "str", t |-> <<97>>]
KB == [k |-> "str", t |-> <<98>>]
Val(v) == [a |-> "val", v |-> v]
Ref(i) == [a |-> "ref", i |-> i]
DotDot == [a |-> "ell"]
Lst(xs) == [a |-> "list", xs |-> xs]
Dct(ps) == [a |-> "dict", ps |-> ps]
Key(v, opt) == [opt |-> opt, v |-> v]
Op == [o |-> "call", i |-> 1, j |-> 1, m |-> "", args |-> <<>>, v |-> VNone]

Calls(t, n) ==
    CASE t = "int" -> {<<"", <<Val(I(x))>>>> : x \in {0, 1}} \cup {<<"min", <<Val(I(1))>>>>, <<"max", <<Val(I(0))>>>>,
                       <<"max", <<Val(I(2))>>>>, <<"", <<Val(B(TRUE))>>>>, <<"min", <<Val(KA)>>>>}
      [] t = "list" -> {<<"", <<Ref(i)>>>> : i \in 1..n} \cup {<<"", <<Lst(<<Ref(i)>>)>>>> : i \in 1..n} \cup
                       {<<"", <<Lst(<<Ref(i), DotDot>>)>>>> : i \in 1..n} \cup
                       {<<"", <<Lst(<<Ref(1), DotDot, Ref(1)>>)>>>>, <<"len", <<Val(I(1))>>>>,
                        <<"len", <<Val(I(0)), Val(I(2))>>>>, <<"", <<Lst(<<>>)>>>>}
      [] t = "dict" -> {<<"", <<Dct(<<<<Key(KA, o), Ref(i)>>>>)>>>> : i \in 1..n, o \in BOOLEAN} \cup
                       {<<"", <<Dct(<<<<Key(KA, TRUE), Ref(i)>>, <<Key(KB, FALSE), Ref(1)>>>>)>>>> : i \in 1..n}
      [] t = "any" -> {<<"", <<Ref(i), Ref(j)>>>> : i, j \in 1..n}
      [] OTHER -> {}
Values0 == {I(0), I(1), B(TRUE), VNone}
Subs == Values0 \cup {VList(<<I(1)>>), VList(<<I(0), I(1)>>), [k |-> "dict", p |-> <<<<KA, I(1)>>>>],
         [k |-> "dict", p |-> <<>>], VList(<<[k |-> "dict", p |-> <<<<KA, I(0)>>>>]>>)}
n == Len(pool)
Kinds == {"call", "declare", "or", "plus", "mod", "req", "look", "mutate", "validate"}
Ops(kd) ==
    CASE kd = "call" -> UNION {{[Op EXCEPT !.i = i, !.m = c[1], !.args = c[2]] : c \in Calls(pool[i].t, n)} : i \in 1..n}
      [] kd = "declare" -> UNION {{[Op EXCEPT !.i = i, !.m = c[1], !.args = c[2]] : c \in Calls(pool[i].t, n)} : i \in 2..4}
      [] kd = "or" -> {[Op EXCEPT !.o = "or", !.i = i, !.j = j] : i, j \in 1..n}
      [] kd = "plus" -> {[Op EXCEPT !.o = "plus", !.i = i, !.j = j] :
           i \in {x \in 1..n : pool[x].t = "dict" /\ pool[x].keys # <<>>}, j \in {x \in 1..n : pool[x].t = "dict"}}
      [] kd = "mod" -> {[Op EXCEPT !.o = "mod", !.i = i, !.v = v] : i \in 1..n, v \in Subs}
      [] kd = "req" -> {[Op EXCEPT !.o = "req", !.i = i] : i \in {x \in 1..n : pool[x].t = "dict"}}
      [] kd = "look" -> {[Op EXCEPT !.o = o, !.i = i] : o \in {"repr", "iter", "fake"}, i \in 1..n}
      [] kd = "mutate" -> {[Op EXCEPT !.o = "mutate"]}
      [] kd = "validate" -> {[Op EXCEPT !.o = "validate", !.i = i, !.v = v] : i \in 1..n, v \in Subs}
Start == <<SInt, SList, SDict, SAny>>
Init == pool = Start /\ hist = <<>> /\ kind = ""
Choose == /\ kind = "" /\ Len(hist) < Depth
          /\ kind' \in {kd \in Kinds : Ops(kd) # {}}
          /\ UNCHANGED <<pool, hist>>
Do == /\ kind \in Kinds
      /\ \E op \in Ops(kind) : /\ pool' = Grow(pool, op)
                                /\ hist' = Append(hist, op)
      /\ kind' = ""
Done == Len(hist) = Depth /\ kind = "" /\ kind' = "done" /\ UNCHANGED <<pool, hist>>
Next == Choose \/ Do \/ Done
vars == <<pool, hist, kind>>
Spec == Init /\ [][Next]_vars

\* every schema a session can reach is one all operations are defined on
Sound == \A i \in 1..n : WellFormed(pool[i]) /\ SelfConsistent(pool[i])
\* the pool is a function of the operations
Function == pool = PoolAfter(Start, hist, Len(hist))
OnlyGrows == [][\A i \in 1..Len(pool) : pool'[i] = pool[i]]_vars
Emit == (Depth > 3 /\ kind = "done") => PrintT("BEH " \o ToJson([ops |-> hist, pool |-> pool]))
=============================================================================
