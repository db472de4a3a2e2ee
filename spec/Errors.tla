------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* What a validation error says, and when it is true.                      *)
(* An error record e has: kind, path (Seq of keys, as values), actual      *)
(* (value), and per kind: type (value kind), exp (value), n (integer),     *)
(* t (codepoints), p (pattern text), key (value), index, ver, expver.      *)
(***************************************************************************)
EXTENDS Semantics

BadKey == [k |-> "bad"]
NoValue == [k |-> "nothing"]

SmallInt(n) == \* a Num as a TLC integer when it is a small index
    IF n[1] = 0 THEN 0
    ELSE IF n[2] = 1 /\ Len(n[3]) = 1 THEN n[1] * n[3][1] ELSE -1000000

\* following a path from the root value
RECURSIVE Follow(_, _)
Follow(v, path) ==
    IF path = <<>> THEN v
    ELSE LET key == Head(path) IN
         CASE v.k \in {"list", "tuple"} ->
                IF key.k # "int" THEN NoValue
                ELSE LET i == SmallInt(key.n) IN
                     IF i >= 0 /\ i < Len(v.e) THEN Follow(v.e[i + 1], Tail(path)) ELSE NoValue
           [] v.k = "dict" ->
                LET j == KeyIdx(v, key) IN
                IF j = 0 THEN NoValue ELSE Follow(v.p[j][2], Tail(path))
           [] OTHER -> NoValue

\* positions of the concrete element j (of m) that may face index i of n
FacesAt(es, i, n) ==
    LET cs == Concrete(es)
        m == Len(cs)
    IN CASE FormOf(es) \in {"exact", "head"} -> {j \in 1..m : j - 1 = i}
         [] FormOf(es) = "tail" -> {j \in 1..m : ((IF n > m THEN n - m ELSE 0) + j) - 1 = i}
         [] FormOf(es) = "contains" -> {j \in 1..m : j - 1 <= i}
         [] OTHER -> {}

RECURSIVE FlatSeq(_, _)
FlatSeq(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatSeq(ss, i + 1)

\* the sub-schemas that apply to the sub-value at a path of value v
RECURSIVE Reach(_, _, _)
Reach(s, v, path) ==
    CASE s.t = "alias" -> Reach(s.type, v, path)
      [] s.t = "custom" -> Reach(s.inner, v, path)
      [] s.t = "any" ->
           (IF path = <<>> THEN <<s>> ELSE <<>>) \o
           (IF s.types = <<>> THEN <<>>
            ELSE FlatSeq([i \in 1..Len(s.types[1]) |-> Reach(s.types[1][i], v, path)], 1))
      [] OTHER ->
           IF path = <<>> THEN <<s>>
           ELSE IF s.t = "list" /\ v.k = "list" /\ Head(path).k = "int" THEN
             LET i == SmallInt(Head(path).n) IN
             IF i < 0 \/ i >= Len(v.e) THEN <<>>
             ELSE (IF s.type = <<>> THEN <<>> ELSE Reach(s.type[1], v.e[i + 1], Tail(path))) \o
                  (IF s.elems = <<>> THEN <<>>
                   ELSE LET cs == Concrete(s.elems[1])
                            J == FacesAt(s.elems[1], i, Len(v.e))
                        IN FlatSeq([j \in 1..Len(cs) |->
                              IF j \in J THEN Reach(cs[j], v.e[i + 1], Tail(path)) ELSE <<>>], 1))
           ELSE IF s.t = "dict" /\ v.k = "dict" /\ s.keys # <<>> THEN
             LET j == SKeyIdx(s.keys[1], Head(path))
                 q == KeyIdx(v, Head(path))
             IN IF j = 0 \/ q = 0 THEN <<>>
                ELSE IF IsEll(s.keys[1][j][2]) THEN <<>>
                ELSE Reach(s.keys[1][j][2], v.p[q][2], Tail(path))
           ELSE <<>>

KindOf(t) == CASE t = "uuid4" -> "uuid" [] OTHER -> t

\* is the stated fact a true consequence of schema r for sub-value x?
FactHolds(e, r, x) ==
    CASE e.kind = "Type" ->
           /\ r.t # "any" /\ KindOf(r.t) = e.type
           /\ ~IsInstance(x, e.type)
      [] e.kind = "Value" ->
           /\ r.t \in {"bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date"}
           /\ r.value # <<>> /\ r.value[1] = e.exp
           /\ (IF r.t = "float"
               THEN x.k = "float" /\ (~FloatEqFixed(e.exp, x, r.prec) \/ FloatGrey(e.exp, x, r.prec))
               ELSE ~PyEq(x, e.exp))
      [] e.kind = "MinValue" ->
           /\ r.t \in {"int", "float"} /\ r.min # <<>> /\ r.min[1] = e.exp
           /\ x.k \in NumKinds /\ ~VLe(e.exp, x)
      [] e.kind = "MaxValue" ->
           /\ r.t \in {"int", "float"} /\ r.max # <<>> /\ r.max[1] = e.exp
           /\ x.k \in NumKinds /\ ~VLe(x, e.exp)
      [] e.kind \in {"Length", "MinLength", "MaxLength"} ->
           /\ r.t \in {"str", "list"} /\ x.k = r.t
           /\ (LET n == IF x.k = "str" THEN Len(x.t) ELSE Len(x.e) IN
               IF e.kind = "Length" THEN r.len = <<e.n>> /\ n # e.n
               ELSE IF e.kind = "MinLength" THEN r.minlen = <<e.n>> /\ n < e.n
               ELSE r.maxlen = <<e.n>> /\ n > e.n)
      [] e.kind = "Alphabet" ->
           /\ r.t = "str" /\ r.alphabet = <<e.t>> /\ x.k = "str"
           /\ \E i \in 1..Len(x.t) : \A j \in 1..Len(e.t) : x.t[i] # e.t[j]
      [] e.kind = "Substr" ->
           r.t = "str" /\ r.substr = <<e.t>> /\ x.k = "str" /\ ~Substr(e.t, x.t)
      [] e.kind = "Regex" ->
           /\ r.t = "str" /\ r.pattern # <<>> /\ r.pattern[1].p = e.p /\ x.k = "str"
           /\ ~Search(r.pattern[1].x, x.t)
      [] e.kind = "MissingElement" ->
           /\ r.t = "list" /\ r.elems # <<>> /\ x.k = "list"
           /\ e.index >= Len(x.e)
           /\ (LET m == Len(Concrete(r.elems[1])) IN
               IF FormOf(r.elems[1]) = "contains" THEN e.index < Len(x.e) + m ELSE e.index < m)
      [] e.kind = "ExtraElement" ->
           /\ r.t = "list" /\ r.elems # <<>> /\ x.k = "list"
           /\ FormOf(r.elems[1]) = "exact"
           /\ e.index < Len(x.e) /\ e.index >= Len(r.elems[1])
      [] e.kind = "MissingKey" ->
           /\ r.t = "dict" /\ r.keys # <<>> /\ x.k = "dict"
           /\ ~HasKey(x, e.key)
           /\ \E i \in 1..Len(r.keys[1]) :
                PyEq(r.keys[1][i][1], e.key) /\ ~r.keys[1][i][3] /\ r.keys[1][i][1].k # "ell"
      [] e.kind = "ExtraKey" ->
           /\ r.t = "dict" /\ r.keys # <<>> /\ x.k = "dict"
           /\ HasKey(x, e.key) /\ ~Relaxed(r.keys[1]) /\ SKeyIdx(r.keys[1], e.key) = 0
      [] e.kind = "SchemaMismatch" ->
           /\ r.t = "any" /\ r.types # <<>> /\ e.n = Len(r.types[1])
           /\ \A i \in 1..Len(r.types[1]) :
                ~Accepts(r.types[1][i], x) \/ HasGrey(r.types[1][i], x)
      [] e.kind = "InvalidUUIDVersion" ->
           r.t = "uuid4" /\ x.k = "uuid" /\ x.ver # 4 /\ e.ver = x.ver /\ e.expver = 4
      [] OTHER -> FALSE

\* rendering of a path from the rendered keys: _[k1][k2]
RECURSIVE RenderPath(_, _)
RenderPath(ks, i) == IF i > Len(ks) THEN <<>> ELSE <<91>> \o ks[i] \o <<93>> \o RenderPath(ks, i + 1)

\* pat occurs in t, not followed by "["
OccursExactly(pat, t) ==
    LET n == Len(pat) IN
    \E i \in 0..(Len(t) - n) :
        /\ t[i + 1] = pat[1]
        /\ SubSeq(t, i + 1, i + n) = pat
        /\ i + n = Len(t) \/ t[i + n + 1] # 91
Occurs(pat, t) ==
    LET n == Len(pat) IN
    \E i \in 0..(Len(t) - n) : t[i + 1] = pat[1] /\ SubSeq(t, i + 1, i + n) = pat

AtRoot == <<32, 97, 116, 32, 95, 91>>       \* " at _["

NamesPath(e) ==
    LET p == <<95>> \o RenderPath(e.keys, 1) IN
    IF e.kind \in {"MissingElement", "MissingKey"}
    THEN LET q == p \o <<91>> \o e.last \o <<93>> IN
         OccursExactly(q, e.msg) \/ (Len(e.keys) > 0 /\ OccursExactly(p, e.msg))
    ELSE IF Len(e.keys) = 0 THEN ~Occurs(AtRoot, e.msg)
    ELSE OccursExactly(p, e.msg)
=============================================================================
