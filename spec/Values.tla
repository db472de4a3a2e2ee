------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Python values as tagged records.                                        *)
(*  [k |-> "none"]            [k |-> "bool", b |-> BOOLEAN]                *)
(*  [k |-> "int", n |-> Num]  [k |-> "float", c |-> "fin"/"inf"/"-inf"/    *)
(*  [k |-> "str", t |-> codepoints]                 "nan", n |-> Num]      *)
(*  [k |-> "bytes", t |-> octets]                                          *)
(*  [k |-> "list", e |-> Seq(value)]   [k |-> "tuple", e |-> Seq(value)]   *)
(*  [k |-> "dict", p |-> Seq(<<key, value>>)]                              *)
(*  [k |-> "uuid", t |-> octets, ver |-> version or 0]                     *)
(*  [k |-> "datetime", t |-> fields normalised to UTC, aw |-> BOOLEAN,     *)
(*   off |-> utc offset as text]                                           *)
(*  [k |-> "date", t |-> fields]  [k |-> "ell"]  (the Ellipsis object)     *)
(*  [k |-> "other", cls |-> type name, id |-> equality class]              *)
(* Instances of subclasses of built-ins carry an extra field sub.          *)
(***************************************************************************)
EXTENDS Num, TLC

NumKinds == {"bool", "int", "float"}

VNum(v) == IF v.k = "bool" THEN (IF v.b THEN NOne ELSE NZero) ELSE v.n

VNone == [k |-> "none"]
VBool(b) == [k |-> "bool", b |-> b]
VInt(n) == [k |-> "int", n |-> NOfInt(n)]
VStr(t) == [k |-> "str", t |-> t]
VBytes(t) == [k |-> "bytes", t |-> t]
VList(e) == [k |-> "list", e |-> e]
VDict(p) == [k |-> "dict", p |-> p]
VEll == [k |-> "ell"]
VFloat(n) == [k |-> "float", c |-> "fin", n |-> n]
VNan == [k |-> "float", c |-> "nan", n |-> NZero]
VInf == [k |-> "float", c |-> "inf", n |-> NZero]
VNInf == [k |-> "float", c |-> "-inf", n |-> NZero]

\* order class of a number for comparisons with infinities
VRank(v) == IF v.k # "float" THEN 0
            ELSE CASE v.c = "-inf" -> -1 [] v.c = "inf" -> 1 [] OTHER -> 0
VIsNan(v) == v.k = "float" /\ v.c = "nan"

\* Python's < and <= on numbers
VLt(a, b) == /\ ~VIsNan(a) /\ ~VIsNan(b)
             /\ IF VRank(a) # VRank(b) THEN VRank(a) < VRank(b)
                ELSE VRank(a) = 0 /\ NLt(VNum(a), VNum(b))

VLe(a, b) == ~VIsNan(a) /\ ~VIsNan(b) /\ ~VLt(b, a)

VNumEq(a, b) == /\ ~VIsNan(a) /\ ~VIsNan(b)
                /\ VRank(a) = VRank(b)
                /\ (VRank(a) # 0 \/ VNum(a) = VNum(b))

RECURSIVE PyEq(_, _)
\* Python's == on values (True == 1 == 1.0, nan # nan, datetime # date)
PyEq(a, b) ==
    IF a.k \in NumKinds /\ b.k \in NumKinds THEN VNumEq(a, b)
    ELSE IF a.k # b.k THEN FALSE
    ELSE CASE a.k \in {"none", "ell"} -> TRUE
           [] a.k \in {"str", "bytes", "uuid", "date"} -> a.t = b.t
           [] a.k = "datetime" -> a.aw = b.aw /\ a.t = b.t
           [] a.k \in {"list", "tuple"} ->
                /\ Len(a.e) = Len(b.e)
                /\ \A i \in 1..Len(a.e) : PyEq(a.e[i], b.e[i])
           [] a.k = "dict" ->
                /\ Len(a.p) = Len(b.p)
                /\ \A i \in 1..Len(a.p) : \E j \in 1..Len(b.p) :
                      PyEq(a.p[i][1], b.p[j][1]) /\ PyEq(a.p[i][2], b.p[j][2])
           [] OTHER -> a.id = b.id

\* index of a key in a dict value, 0 if absent (Python's dict lookup)
KeyIdx(v, key) ==
    LET I == {i \in 1..Len(v.p) : PyEq(v.p[i][1], key)}
    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
HasKey(v, key) == \E i \in 1..Len(v.p) : PyEq(v.p[i][1], key)
ValAt(v, key) == v.p[KeyIdx(v, key)][2]

\* Python's isinstance for the built-in kinds the library dispatches on
IsInstance(v, kind) ==
    \/ v.k = kind
    \/ kind = "int" /\ v.k = "bool"
    \/ kind = "date" /\ v.k = "datetime"

\* plain values: what from_native is specified on
PlainKinds == {"none", "bool", "int", "float", "str", "bytes", "datetime", "date"}
RECURSIVE Plain(_)
Plain(v) ==
    CASE v.k \in PlainKinds -> TRUE
      [] v.k = "uuid" -> v.ver = 4
      [] v.k = "list" -> \A i \in 1..Len(v.e) : Plain(v.e[i])
      [] v.k = "dict" -> \A i \in 1..Len(v.p) :
                            v.p[i][1].k \notin {"ell", "optional"} /\ Plain(v.p[i][2])
      [] OTHER -> FALSE

RECURSIVE HasEll(_)
HasEll(v) == CASE v.k = "ell" -> TRUE
               [] v.k = "list" -> \E i \in 1..Len(v.e) : HasEll(v.e[i])
               [] v.k = "dict" -> \E i \in 1..Len(v.p) : v.p[i][1].k = "ell" \/ HasEll(v.p[i][2])
               [] OTHER -> FALSE

\* substring / membership on codepoint sequences
Substr(s, t) == LET n == Len(s) IN
    n = 0 \/ \E i \in 0..(Len(t) - n) : t[i + 1] = s[1] /\ SubSeq(t, i + 1, i + n) = s
=============================================================================
