---------------------------- MODULE Substitution ----------------------------
(***************************************************************************)
(* Substitution of a plain value into a schema.                            *)
(*   SubOk(s, v)     v fits s, dict keys may be left out; where v conforms *)
(*                   to s, a conforming alternative/window has to fit      *)
(*   Carries(v, w)   w has v's data at v's positions                       *)
(*   Keep(s, v, w)   w is v's data completed by what s allows elsewhere,   *)
(*                   whatever window/alternative the substitution took:    *)
(*                   every result of the substitution has to accept w      *)
(*   Subst(s, v)     the substitution itself, as an operation              *)
(***************************************************************************)
EXTENDS Generation

\* same kind, same content
RECURSIVE Same(_, _)
Same(a, b) ==
    IF a.k # b.k THEN FALSE
    ELSE CASE a.k = "float" -> a.c = b.c /\ a.n = b.n
           [] a.k \in {"list", "tuple"} ->
                Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Same(a.e[i], b.e[i])
           [] a.k = "dict" ->
                /\ Len(a.p) = Len(b.p)
                /\ \A i \in 1..Len(a.p) : \E j \in 1..Len(b.p) :
                     Same(a.p[i][1], b.p[j][1]) /\ Same(a.p[i][2], b.p[j][2])
           [] OTHER -> PyEq(a, b)

\* equal up to Python's bool/int identification and the float tolerance
RECURSIVE Like(_, _)
Like(a, b) ==
    IF a.k = "float" /\ b.k = "float" THEN FloatEqFixed(a, b, <<>>) \/ FloatGrey(a, b, <<>>)
    ELSE IF {a.k, b.k} \subseteq {"bool", "int"} THEN VNumEq(a, b)
    ELSE IF a.k # b.k THEN FALSE
    ELSE CASE a.k \in {"list", "tuple"} ->
                Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Like(a.e[i], b.e[i])
           [] a.k = "dict" ->
                /\ Len(a.p) = Len(b.p)
                /\ \A i \in 1..Len(a.p) :
                     LET j == KeyIdx(b, a.p[i][1]) IN j # 0 /\ Like(a.p[i][2], b.p[j][2])
           [] OTHER -> PyEq(a, b)

\* the precisions declared anywhere in s
RECURSIVE Precs(_)
Precs(s) ==
    CASE s.t = "float" -> {s.prec[i] : i \in 1..Len(s.prec)}
      [] s.t = "list" -> (IF s.type = <<>> THEN {} ELSE Precs(s.type[1])) \cup
                         (IF s.elems = <<>> THEN {}
                          ELSE UNION {Precs(s.elems[1][i]) : i \in 1..Len(s.elems[1])})
      [] s.t = "dict" -> IF s.keys = <<>> THEN {}
                         ELSE UNION {Precs(s.keys[1][i][2]) : i \in 1..Len(s.keys[1])}
      [] s.t = "any" -> IF s.types = <<>> THEN {}
                        ELSE UNION {Precs(s.types[1][i]) : i \in 1..Len(s.types[1])}
      [] s.t = "alias" -> Precs(s.type)
      [] s.t = "custom" -> Precs(s.inner)
      [] OTHER -> {}

\* w equals v up to twice the tolerance (a schema with a fixed float may keep
\* its own value) or within a declared precision
FloatCarried(v, w, ps) ==
    IF v.c # "fin" \/ w.c # "fin" THEN v.c = w.c
    ELSE \/ v.n = w.n
         \/ /\ v.n[1] = w.n[1]
            /\ NLe(NMulPow10(NAbs(NSub(v.n, w.n)), 10),
                   NMul(IF NLe(NAbs(v.n), NAbs(w.n)) THEN NAbs(w.n) ELSE NAbs(v.n), 21))
         \/ \E p \in ps : NLe(NMulPow10(NAbs(NSub(v.n, w.n)), p), NAdd(NOne, NHalf)) \/ v.n[2] > 3

RECURSIVE Carries(_, _, _)
Carries(v, w, ps) ==
    IF v.k = "float" /\ w.k = "float" THEN FloatCarried(v, w, ps)
    ELSE IF {v.k, w.k} \subseteq {"bool", "int"} THEN VNumEq(v, w)
    ELSE IF v.k # w.k THEN FALSE
    ELSE CASE v.k = "list" ->
                Len(v.e) = Len(w.e) /\ \A i \in 1..Len(v.e) : Carries(v.e[i], w.e[i], ps)
           [] v.k = "dict" ->
                \A i \in 1..Len(v.p) :
                   LET j == KeyIdx(w, v.p[i][1]) IN j # 0 /\ Carries(v.p[i][2], w.p[j][2], ps)
           [] OTHER -> PyEq(v, w)

RECURSIVE SubOk(_, _)
SubWindow(es, v, off) == \A i \in 1..Len(es) : SubOk(es[i], v.e[off + i])
OnlyRelaxed(ks) == \A i \in 1..Len(ks) : ks[i][1].k = "ell"
SubOk(s, v) ==
    CASE s.t = "alias" -> SubOk(s.type, v)
      [] s.t = "custom" -> SubOk(s.inner, v)
      [] s.t = "any" -> IF s.types = <<>> THEN Plain(v)
                        ELSE LET I == {i \in 1..Len(s.types[1]) : SubOk(s.types[1][i], v)}
                             IN I # {} /\ (Accepts(s, v) => \E i \in I : Accepts(s.types[1][i], v))
      [] s.t = "list" ->
           /\ v.k = "list" /\ LenOk(s, Len(v.e))
           /\ s.elems = <<>> /\ s.type = <<>> => Plain(v)
           /\ s.type # <<>> => \A i \in 1..Len(v.e) : SubOk(s.type[1], v.e[i])
           /\ s.elems # <<>> =>
                LET cs == Concrete(s.elems[1])
                    m == Len(cs)
                    n == Len(v.e)
                    f == FormOf(s.elems[1])
                    W(off) == /\ off >= 0 /\ off + m <= n /\ SubWindow(cs, v, off)
                              /\ \A i \in 1..n : i <= off \/ i > off + m => Plain(v.e[i])
                IN IF f = "exact" THEN n = m /\ W(0)
                   ELSE IF f \in {"open", "head"} THEN W(0)
                   ELSE IF f = "tail" THEN W(n - m)
                   ELSE LET O == {off \in 0..(n - m) : W(off)}
                        IN O # {} /\ (Accepts(s, v) => \E off \in O : Window(cs, v, off))
      [] s.t = "dict" ->
           /\ v.k = "dict"
           /\ IF s.keys = <<>> \/ (Len(s.keys[1]) = 1 /\ OnlyRelaxed(s.keys[1])) THEN Plain(v)
              ELSE \A i \in 1..Len(v.p) :
                     LET j == SKeyIdx(s.keys[1], v.p[i][1]) IN
                     j # 0 /\ s.keys[1][j][1].k # "ell" /\ SubOk(s.keys[1][j][2], v.p[i][2])
      [] OTHER -> Accepts(s, v)

RECURSIVE Keep(_, _, _)
KeepWindow(es, v, w, off) ==
    \A i \in 1..Len(v.e) : IF i > off /\ i <= off + Len(es) THEN Keep(es[i - off], v.e[i], w.e[i])
                           ELSE Same(v.e[i], w.e[i])
Keep(s, v, w) ==
    CASE s.t = "alias" -> Keep(s.type, v, w)
      [] s.t = "custom" -> Keep(s.inner, v, w)
      [] s.t = "any" -> IF s.types = <<>> THEN Same(v, w)
                        ELSE \A i \in 1..Len(s.types[1]) :
                               SubOk(s.types[1][i], v) => Keep(s.types[1][i], v, w)
      [] s.t = "list" ->
           IF w.k # "list" THEN FALSE
           ELSE IF Len(w.e) # Len(v.e) THEN FALSE
           ELSE IF s.type # <<>> THEN \A i \in 1..Len(v.e) : Keep(s.type[1], v.e[i], w.e[i])
           ELSE IF s.elems = <<>> THEN Same(v, w)
           ELSE LET cs == Concrete(s.elems[1])
                    m == Len(cs)
                    n == Len(v.e)
                    f == FormOf(s.elems[1])
                IN IF f \in {"exact", "head", "open"} THEN KeepWindow(cs, v, w, 0)
                   ELSE IF f = "tail" THEN KeepWindow(cs, v, w, n - m)
                   ELSE \A off \in 0..(n - m) :
                          SubWindow(cs, v, off) => KeepWindow(cs, v, w, off)
      [] s.t = "dict" ->
           IF w.k # "dict" THEN FALSE
           ELSE IF s.keys = <<>> THEN Same(v, w)
           ELSE LET ks == s.keys[1] IN
                /\ \A i \in 1..Len(v.p) :
                     LET j == KeyIdx(w, v.p[i][1])
                         q == SKeyIdx(ks, v.p[i][1])
                     IN /\ j # 0
                        /\ IF q = 0 THEN Same(v.p[i][2], w.p[j][2])
                           ELSE Keep(ks[q][2], v.p[i][2], w.p[j][2])
                /\ \A q \in 1..Len(ks) :
                     (ks[q][1].k # "ell" /\ ~HasKey(v, ks[q][1])) =>
                        LET j == KeyIdx(w, ks[q][1]) IN
                        IF j = 0 THEN ks[q][3] ELSE Accepts(ks[q][2], w.p[j][2])
                /\ \A j \in 1..Len(w.p) :
                     HasKey(v, w.p[j][1]) \/ SKeyIdx(ks, w.p[j][1]) # 0 \/ Relaxed(ks)
      [] OTHER -> Same(v, w)

\* the exact schema of a plain value
RECURSIVE Native(_)
Native(v) ==
    CASE v.k = "none" -> SNone
      [] v.k = "bool" -> [SBool EXCEPT !.value = <<v>>]
      [] v.k = "int" -> [SInt EXCEPT !.value = <<v>>]
      [] v.k = "float" -> [SFloat EXCEPT !.value = <<v>>]
      [] v.k = "str" -> [SStr EXCEPT !.value = <<v>>]
      [] v.k = "bytes" -> [SBytes EXCEPT !.value = <<v>>]
      [] v.k = "uuid" -> [SUuid EXCEPT !.value = <<v>>]
      [] v.k = "datetime" -> [SDatetime EXCEPT !.value = <<v>>]
      [] v.k = "date" -> [SDate EXCEPT !.value = <<v>>]
      [] v.k = "list" -> [SList EXCEPT !.elems = <<[i \in 1..Len(v.e) |-> Native(v.e[i])]>>]
      [] v.k = "dict" -> [SDict EXCEPT !.keys =
                            <<[i \in 1..Len(v.p) |-> <<v.p[i][1], Native(v.p[i][2]), FALSE>>]>>]

\* the substitution, for SubOk(s, v); windows: the first one v conforms
\* to, else the first one it fits
RECURSIVE Subst(_, _)
SubstElems(cs, v, off) ==
    [i \in 1..Len(v.e) |-> IF i > off /\ i <= off + Len(cs) THEN Subst(cs[i - off], v.e[i])
                           ELSE Native(v.e[i])]
Subst(s, v) ==
    CASE s.t = "none" -> s
      [] s.t = "float" -> IF s.value # <<>> /\ s.prec = <<>> THEN s ELSE [s EXCEPT !.value = <<v>>]
      [] s.t \in {"bool", "int", "str", "bytes", "uuid4", "datetime", "date"} ->
           [s EXCEPT !.value = <<v>>]
      [] s.t = "alias" -> [s EXCEPT !.type = Subst(s.type, v)]
      [] s.t = "custom" -> [s EXCEPT !.inner = Subst(s.inner, v)]
      [] s.t = "any" ->
           IF s.types = <<>> THEN [s EXCEPT !.types = <<<<Native(v)>>>>]
           ELSE LET ok == SelectSeq([i \in 1..Len(s.types[1]) |-> i],
                                    LAMBDA i : SubOk(s.types[1][i], v))
                IN [s EXCEPT !.types = <<[i \in 1..Len(ok) |-> Subst(s.types[1][ok[i]], v)]>>]
      [] s.t = "list" ->
           IF s.type # <<>>
           THEN [s EXCEPT !.type = <<>>,
                          !.elems = <<[i \in 1..Len(v.e) |-> Subst(s.type[1], v.e[i])]>>]
           ELSE IF s.elems = <<>>
           THEN [s EXCEPT !.elems = <<[i \in 1..Len(v.e) |-> Native(v.e[i])]>>]
           ELSE LET cs == Concrete(s.elems[1])
                    n == Len(v.e)
                    f == FormOf(s.elems[1])
                    off == IF f = "tail" THEN n - Len(cs)
                           ELSE IF f = "contains"
                           THEN LET fits == {o \in 0..(n - Len(cs)) : SubWindow(cs, v, o)}
                                    full == {o \in fits : Window(cs, v, o)}
                                    best == IF full = {} THEN fits ELSE full
                                IN CHOOSE o \in best : \A p \in best : o <= p
                           ELSE 0
                IN [s EXCEPT !.elems = <<SubstElems(cs, v, off)>>]
      [] s.t = "dict" ->
           IF s.keys = <<>> THEN Native(v)
           ELSE LET ks == s.keys[1]
                    decl == [i \in 1..Len(ks) |->
                       IF ks[i][1].k = "ell" THEN ks[i]
                       ELSE IF HasKey(v, ks[i][1])
                       THEN <<ks[i][1], Subst(ks[i][2], ValAt(v, ks[i][1])), FALSE>>
                       ELSE ks[i]]
                    new == SelectSeq(v.p, LAMBDA p : SKeyIdx(ks, p[1]) = 0)
                IN [s EXCEPT !.keys = <<[i \in 1..Len(new) |-> <<new[i][1], Native(new[i][2]), FALSE>>]
                                        \o decl>>]
=============================================================================
