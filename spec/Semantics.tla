----------------------------- MODULE Semantics -----------------------------
(***************************************************************************)
(* What a schema MEANS: Accepts(S, v) states, for each type and each       *)
(* declared property, the condition a value has to satisfy.  It is written *)
(* from the meaning of the declarations, not from the validator: windows   *)
(* are existential, keys are sets, union is disjunction.                   *)
(***************************************************************************)
EXTENDS Schemas

\* `equals its fixed value`: floats up to the documented tolerance
FloatEqFixed(f, v, prec) ==
    IF v.c # "fin" \/ f.c # "fin" THEN v.c = f.c
    ELSE IF prec = <<>> THEN NClose(v.n, f.n)
    ELSE NGridEq(v.n, f.n, prec[1])
FloatGrey(f, v, prec) ==
    /\ v.c = "fin" /\ f.c = "fin"
    /\ IF prec = <<>> THEN NCloseGrey(v.n, f.n) ELSE NGridGrey(v.n, f.n, prec[1])

InBounds(s, v) == /\ s.min # <<>> => VLe(s.min[1], v)
                  /\ s.max # <<>> => VLe(v, s.max[1])

LenOk(s, n) == /\ s.len # <<>> => n = s.len[1]
               /\ s.minlen # <<>> => n >= s.minlen[1]
               /\ s.maxlen # <<>> => n <= s.maxlen[1]

RECURSIVE Accepts(_, _)

\* the concrete elements es match v.e at offset off
Window(es, v, off) == \A i \in 1..Len(es) : Accepts(es[i], v.e[off + i])

ElemsOk(es, v) ==
    LET cs == Concrete(es)
        m == Len(cs)
        n == Len(v.e)
    IN CASE FormOf(es) = "exact" -> n = m /\ Window(cs, v, 0)
         [] FormOf(es) = "open" -> TRUE
         [] FormOf(es) = "head" -> n >= m /\ Window(cs, v, 0)
         [] FormOf(es) = "tail" -> n >= m /\ Window(cs, v, n - m)
         [] FormOf(es) = "contains" -> \E off \in 0..(n - m) : Window(cs, v, off)

KeysOk(ks, v) ==
    /\ \A i \in 1..Len(ks) : ks[i][1].k # "ell" =>
          LET j == KeyIdx(v, ks[i][1]) IN
          IF j = 0 THEN ks[i][3] ELSE Accepts(ks[i][2], v.p[j][2])
    /\ Relaxed(ks) \/ \A j \in 1..Len(v.p) : SKeyIdx(ks, v.p[j][1]) # 0

Accepts(s, v) ==
    CASE s.t = "none" -> v.k = "none"
      [] s.t = "bool" -> v.k = "bool" /\ (s.value # <<>> => v.b = s.value[1].b)
      [] s.t = "int" -> /\ IsInstance(v, "int")
                        /\ s.value # <<>> => VNumEq(v, s.value[1])
                        /\ InBounds(s, v)
      [] s.t = "float" -> /\ v.k = "float"
                          /\ s.value # <<>> => FloatEqFixed(s.value[1], v, s.prec)
                          /\ InBounds(s, v)
      [] s.t = "str" -> /\ v.k = "str"
                        /\ s.value # <<>> => v.t = s.value[1].t
                        /\ LenOk(s, Len(v.t))
                        /\ s.alphabet # <<>> => \A i \in 1..Len(v.t) :
                              \E j \in 1..Len(s.alphabet[1]) : v.t[i] = s.alphabet[1][j]
                        /\ s.substr # <<>> => Substr(s.substr[1], v.t)
                        /\ s.pattern # <<>> => Search(s.pattern[1].x, v.t)
      [] s.t = "bytes" -> v.k = "bytes" /\ (s.value # <<>> => v.t = s.value[1].t)
      [] s.t = "uuid4" -> v.k = "uuid" /\ v.ver = 4 /\ (s.value # <<>> => v.t = s.value[1].t)
      [] s.t = "datetime" -> v.k = "datetime" /\ (s.value # <<>> => PyEq(v, s.value[1]))
      [] s.t = "date" -> IsInstance(v, "date") /\ (s.value # <<>> => PyEq(v, s.value[1]))
      [] s.t = "list" -> /\ v.k = "list"
                         /\ LenOk(s, Len(v.e))
                         /\ s.type # <<>> => \A i \in 1..Len(v.e) : Accepts(s.type[1], v.e[i])
                         /\ s.elems # <<>> => ElemsOk(s.elems[1], v)
      [] s.t = "dict" -> v.k = "dict" /\ (s.keys # <<>> => KeysOk(s.keys[1], v))
      [] s.t = "any" -> s.types = <<>> \/
                        \E i \in 1..Len(s.types[1]) : Accepts(s.types[1][i], v)
      [] s.t = "alias" -> Accepts(s.type, v)
      [] s.t = "custom" -> Accepts(s.inner, v)

\* float leaves of a value / fixed float leaves of a schema, to recognise
\* verdicts that hinge on binary rounding
RECURSIVE FloatLeaves(_), FixedFloats(_)
FloatLeaves(v) ==
    CASE v.k = "float" -> {v}
      [] v.k \in {"list", "tuple"} -> UNION {FloatLeaves(v.e[i]) : i \in 1..Len(v.e)}
      [] v.k = "dict" -> UNION {FloatLeaves(v.p[i][2]) : i \in 1..Len(v.p)}
      [] OTHER -> {}
FixedFloats(s) ==
    CASE s.t = "float" -> IF s.value = <<>> THEN {} ELSE {<<s.value[1], s.prec>>}
      [] s.t = "list" -> (IF s.type = <<>> THEN {} ELSE FixedFloats(s.type[1])) \cup
                         (IF s.elems = <<>> THEN {}
                          ELSE UNION {FixedFloats(s.elems[1][i]) : i \in 1..Len(s.elems[1])})
      [] s.t = "dict" -> IF s.keys = <<>> THEN {}
                         ELSE UNION {FixedFloats(s.keys[1][i][2]) : i \in 1..Len(s.keys[1])}
      [] s.t = "any" -> IF s.types = <<>> THEN {}
                        ELSE UNION {FixedFloats(s.types[1][i]) : i \in 1..Len(s.types[1])}
      [] s.t = "alias" -> FixedFloats(s.type)
      [] s.t = "custom" -> FixedFloats(s.inner)
      [] OTHER -> {}
HasGrey(s, v) == \E f \in FixedFloats(s), x \in FloatLeaves(v) : FloatGrey(f[1], x, f[2])
=============================================================================
