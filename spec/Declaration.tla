---------------------------- MODULE Declaration ----------------------------
(***************************************************************************)
(* The declaration language: what a chain of calls on a schema produces.   *)
(* Arguments: [a |-> "val", v]  [a |-> "schema", s]  [a |-> "list", xs]    *)
(*            [a |-> "dict", ps |-> Seq(<<[opt, v] , arg>>)]               *)
(*            [a |-> "ell"]  [a |-> "nil"]                                 *)
(* A refused call is Refused (DeclarationError), receiver unchanged.       *)
(***************************************************************************)
EXTENDS Substitution

Refused == [ok |-> FALSE, s |-> [t |-> "none"]]
Ok(s) == [ok |-> TRUE, s |-> s]

BaseTypes == {"none", "bool", "int", "float", "str", "bytes", "list", "dict", "any", "uuid4",
              "datetime", "date"}
Base(t) == CASE t = "none" -> SNone [] t = "bool" -> SBool [] t = "int" -> SInt
             [] t = "float" -> SFloat [] t = "str" -> SStr [] t = "bytes" -> SBytes
             [] t = "list" -> SList [] t = "dict" -> SDict [] t = "any" -> SAny
             [] t = "uuid4" -> SUuid [] t = "datetime" -> SDatetime [] t = "date" -> SDate

IsVal(a, kind) == a.a = "val" /\ IsInstance(a.v, kind)
NumInt(n) == \* lengths, saturated like the harness saturates them
    IF n[1] = 0 THEN 0
    ELSE IF n[2] = 1 THEN n[1] * n[3][1]
    ELSE IF n[2] = 2 THEN n[1] * (n[3][1] * NBase + (IF Len(n[3]) > 1 THEN n[3][2] ELSE 0))
    ELSE n[1] * 1073741824
AsInt(a) == IF a.v.k = "bool" THEN (IF a.v.b THEN 1 ELSE 0) ELSE NumInt(a.v.n)
HasLen(s) == s.len # <<>> \/ s.minlen # <<>> \/ s.maxlen # <<>>

\* is length n / minimum n / maximum n compatible with what is fixed already
FixedLen(s) == s.t = "str" /\ s.value # <<>>
LenAllowed(s, n) ==
    CASE s.t = "str" -> s.value # <<>> => n = Len(s.value[1].t)
      [] s.t = "list" -> s.elems # <<>> =>
           LET m == Len(Concrete(s.elems[1])) IN
           IF HasEllipsis(s.elems[1]) THEN n >= m ELSE n = m
MinAllowed(s, n) ==
    CASE s.t = "str" -> s.value # <<>> => n <= Len(s.value[1].t)
      [] s.t = "list" -> s.elems # <<>> => n <= Len(Concrete(s.elems[1]))
MaxAllowed(s, n) ==
    CASE s.t = "str" -> s.value # <<>> => n >= Len(s.value[1].t)
      [] s.t = "list" -> s.elems # <<>> => n >= Len(Concrete(s.elems[1]))

RefineLen(s, args) ==
    IF HasLen(s) \/ (s.t = "str" /\ s.pattern # <<>>) THEN Refused
    ELSE IF args[1].a = "ell" THEN
        IF Len(args) = 2 /\ IsVal(args[2], "int") /\ MaxAllowed(s, AsInt(args[2]))
        THEN Ok([s EXCEPT !.maxlen = <<AsInt(args[2])>>]) ELSE Refused
    ELSE IF ~IsVal(args[1], "int") THEN Refused
    ELSE IF Len(args) = 1 \/ args[Len(args)].a = "nil" THEN
        IF LenAllowed(s, AsInt(args[1])) THEN Ok([s EXCEPT !.len = <<AsInt(args[1])>>]) ELSE Refused
    ELSE IF args[2].a = "ell" THEN
        IF MinAllowed(s, AsInt(args[1])) THEN Ok([s EXCEPT !.minlen = <<AsInt(args[1])>>]) ELSE Refused
    ELSE IF IsVal(args[2], "int") /\ MinAllowed(s, AsInt(args[1])) /\ MaxAllowed(s, AsInt(args[2]))
         THEN Ok([s EXCEPT !.minlen = <<AsInt(args[1])>>, !.maxlen = <<AsInt(args[2])>>])
    ELSE Refused

RefineNum(s, m, a) ==
    CASE m = "" ->
           IF IsVal(a, s.t) /\ s.value = <<>> /\ s.min = <<>> /\ s.max = <<>>
           THEN Ok([s EXCEPT !.value = <<a.v>>]) ELSE Refused
      [] m = "min" ->
           IF IsVal(a, s.t) /\ s.min = <<>> /\ (s.value # <<>> => VLe(a.v, s.value[1]))
           THEN Ok([s EXCEPT !.min = <<a.v>>]) ELSE Refused
      [] m = "max" ->
           IF IsVal(a, s.t) /\ s.max = <<>> /\ (s.value # <<>> => VLe(s.value[1], a.v))
           THEN Ok([s EXCEPT !.max = <<a.v>>]) ELSE Refused
      [] m = "precision" ->
           IF s.t = "float" /\ IsVal(a, "int") /\ s.prec = <<>> /\ AsInt(a) >= 1 /\ AsInt(a) <= 15
           THEN Ok([s EXCEPT !.prec = <<AsInt(a)>>]) ELSE Refused

StrBare(s) == ~HasLen(s) /\ s.alphabet = <<>> /\ s.substr = <<>>
RefineStr(s, m, args) ==
    LET a == args[1] IN
    IF m = "len" THEN RefineLen(s, args)
    ELSE IF ~IsVal(a, "str") THEN Refused
    ELSE CASE m = "" ->
               IF s.value = <<>> /\ StrBare(s) /\ s.pattern = <<>>
               THEN Ok([s EXCEPT !.value = <<a.v>>]) ELSE Refused
          [] m = "alphabet" ->
               IF /\ s.alphabet = <<>> /\ s.pattern = <<>>
                  /\ s.value # <<>> => \A i \in 1..Len(s.value[1].t) :
                                         \E j \in 1..Len(a.v.t) : s.value[1].t[i] = a.v.t[j]
               THEN Ok([s EXCEPT !.alphabet = <<a.v.t>>]) ELSE Refused
          [] m = "contains" ->
               IF /\ s.substr = <<>> /\ s.pattern = <<>>
                  /\ s.value # <<>> => Substr(a.v.t, s.value[1].t)
               THEN Ok([s EXCEPT !.substr = <<a.v.t>>]) ELSE Refused
          [] m = "regex" ->
               IF /\ s.pattern = <<>> /\ StrBare(s) /\ a.re # <<>>
                  /\ s.value # <<>> => Search(a.re[1].x, s.value[1].t)
               THEN Ok([s EXCEPT !.pattern = a.re]) ELSE Refused

ElemOf(a) == IF a.a = "ell" THEN Ell ELSE a.s
RefineList(s, m, args) ==
    LET a == args[1] IN
    IF m = "len" THEN RefineLen(s, args)
    ELSE IF s.elems # <<>> \/ s.type # <<>> \/ HasLen(s) THEN Refused
    ELSE IF a.a = "schema" THEN Ok([s EXCEPT !.type = <<a.s>>])
    ELSE IF a.a # "list" THEN Refused
    ELSE IF \E i \in 1..Len(a.xs) : a.xs[i].a \notin {"schema", "ell"} THEN Refused
    ELSE LET es == [i \in 1..Len(a.xs) |-> ElemOf(a.xs[i])]
         IN IF WellFormedElems(es) THEN Ok([s EXCEPT !.elems = <<es>>]) ELSE Refused

\* later entries for an equal key win, at the earlier position
RECURSIVE MergeKeys(_, _)
MergeKeys(acc, items) ==
    IF items = <<>> THEN acc
    ELSE LET it == Head(items)
             j == SKeyIdx(acc, it[1])
         IN MergeKeys(IF j = 0 THEN Append(acc, it)
                      ELSE [acc EXCEPT ![j] = <<acc[j][1], it[2], it[3]>>], Tail(items))

RefineDict(s, a) ==
    IF a.a # "dict" \/ s.keys # <<>> THEN Refused
    ELSE IF \E i \in 1..Len(a.ps) :
              IF a.ps[i][1].v.k = "ell" THEN a.ps[i][2].a # "ell" ELSE a.ps[i][2].a # "schema"
         THEN Refused
    ELSE Ok([s EXCEPT !.keys = <<MergeKeys(<<>>, [i \in 1..Len(a.ps) |->
               <<a.ps[i][1].v, ElemOf(a.ps[i][2]), a.ps[i][1].opt>>])>>])

RECURSIVE FlatTypes(_)
FlatTypes(ts) ==
    IF ts = <<>> THEN <<>>
    ELSE (IF Head(ts).t = "any" /\ Head(ts).types # <<>> THEN FlatTypes(Head(ts).types[1])
          ELSE <<Head(ts)>>) \o FlatTypes(Tail(ts))
RefineAny(s, args) ==
    IF s.types # <<>> \/ \E i \in 1..Len(args) : args[i].a # "schema" THEN Refused
    ELSE Ok([s EXCEPT !.types = <<FlatTypes([i \in 1..Len(args) |-> args[i].s])>>])

RefineScalar(s, a) ==
    IF s.value # <<>> THEN Refused
    ELSE LET kind == IF s.t = "uuid4" THEN "uuid" ELSE s.t
         IN IF IsVal(a, kind) /\ (s.t = "uuid4" => a.v.ver = 4)
            THEN Ok([s EXCEPT !.value = <<a.v>>]) ELSE Refused

\* one declaration call; m = "" is calling the schema itself
Refine(s, m, args) ==
    CASE s.t \in {"int", "float"} -> RefineNum(s, m, args[1])
      [] s.t = "str" -> RefineStr(s, m, args)
      [] s.t = "list" -> RefineList(s, m, args)
      [] s.t = "dict" -> RefineDict(s, args[1])
      [] s.t = "any" -> RefineAny(s, args)
      [] OTHER -> RefineScalar(s, args[1])

Methods(t) == CASE t = "int" -> {"", "min", "max"}
                [] t = "float" -> {"", "min", "max", "precision"}
                [] t = "str" -> {"", "len", "alphabet", "contains", "regex"}
                [] t = "list" -> {"", "len"}
                [] t \in {"none", "alias"} -> {}
                [] OTHER -> {""}

\* a program of the declaration language: [c |-> "chain", base, calls] where
\* calls is a sequence of <<method, args>>, arguments holding programs
RECURSIVE Eval(_), EvalArg(_), EvalCalls(_, _)
EvalArg(a) ==
    CASE a.a = "prog" -> [a |-> "schema", s |-> Eval(a.prog).s, ok |-> Eval(a.prog).ok]
      [] a.a = "list" -> [a |-> "list", xs |-> [i \in 1..Len(a.xs) |-> EvalArg(a.xs[i])]]
      [] a.a = "dict" -> [a |-> "dict", ps |-> [i \in 1..Len(a.ps) |-> <<a.ps[i][1], EvalArg(a.ps[i][2])>>]]
      [] OTHER -> a
EvalCalls(s, calls) ==
    IF calls = <<>> THEN Ok(s)
    ELSE IF Head(calls)[1] \notin Methods(s.t) THEN Refused
    ELSE LET args == Head(calls)[2]
             r == Refine(s, Head(calls)[1], [i \in 1..Len(args) |-> EvalArg(args[i])])
         IN IF r.ok THEN EvalCalls(r.s, Tail(calls)) ELSE Refused
Eval(p) == IF p.base \notin BaseTypes THEN Refused ELSE EvalCalls(Base(p.base), p.calls)

\* a fixed value (or fully fixed element list) conforms to its own schema
RECURSIVE FullyFixed(_), TheValue(_)
FullyFixed(s) ==
    CASE s.t = "none" -> TRUE
      [] s.t = "list" -> /\ s.elems # <<>> /\ ~HasEllipsis(s.elems[1])
                         /\ \A i \in 1..Len(s.elems[1]) : FullyFixed(s.elems[1][i])
      [] s.t \in {"dict", "any", "alias", "custom"} -> FALSE
      [] OTHER -> s.value # <<>>
TheValue(s) == CASE s.t = "none" -> VNone
                 [] s.t = "list" -> VList([i \in 1..Len(s.elems[1]) |-> TheValue(s.elems[1][i])])
                 [] OTHER -> s.value[1]
SelfConsistent(s) == FullyFixed(s) => Accepts(s, TheValue(s))
=============================================================================
