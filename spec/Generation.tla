----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* Which schemas a generator can be asked to serve.                        *)
(* Sat(s): some value conforms.  HSat(s): additionally every alternative   *)
(* and every element schema generation may visit is satisfiable.           *)
(***************************************************************************)
EXTENDS Semantics

\* anchors only at the two ends of the pattern
RECURSIVE NoAts(_)
NoAts(x) == CASE x.r = "at" -> FALSE
              [] x.r \in {"seq", "alt"} -> \A j \in 1..Len(x.xs) : NoAts(x.xs[j])
              [] x.r \in {"rep", "grp", "look"} -> NoAts(x.x)
              [] OTHER -> TRUE
StartAnchors == {"bol", "A"}
EndAnchors == {"eol", "Z"}
AnchorsAtEnds(x) ==
    IF x.r = "at" THEN x.a \in StartAnchors \cup EndAnchors
    ELSE IF x.r = "seq"
    THEN \A j \in 1..Len(x.xs) :
           \/ NoAts(x.xs[j])
           \/ x.xs[j].r = "at" /\ j = 1 /\ x.xs[j].a \in StartAnchors
           \/ x.xs[j].r = "at" /\ j = Len(x.xs) /\ x.xs[j].a \in EndAnchors
    ELSE NoAts(x)
PatternSat(x) == Supported(x) /\ AnchorsAtEnds(x)

LenLo(s) == LET a == IF s.minlen = <<>> THEN 0 ELSE s.minlen[1]
                b == IF s.len = <<>> THEN a ELSE NMax(a, s.len[1])
            IN NMax(b, 0)
\* some length n with lo <= n and no upper bound below it
LenFeasible(s, atleast) ==
    LET lo == NMax(LenLo(s), atleast) IN
    /\ s.len # <<>> => lo = s.len[1]
    /\ s.maxlen # <<>> => lo <= s.maxlen[1]

BoundsSat(s) ==
    /\ s.min # <<>> => ~VIsNan(s.min[1])
    /\ s.max # <<>> => ~VIsNan(s.max[1])
    /\ (s.min # <<>> /\ s.max # <<>>) => VLe(s.min[1], s.max[1])

StrSat(s) ==
    IF s.pattern # <<>> THEN PatternSat(s.pattern[1].x) /\ s.len = <<>> /\ s.minlen = <<>> /\
                             s.maxlen = <<>> /\ s.alphabet = <<>> /\ s.substr = <<>>
    ELSE LET sub == IF s.substr = <<>> THEN <<>> ELSE s.substr[1] IN
         /\ LenFeasible(s, Len(sub))
         /\ s.alphabet # <<>> =>
              /\ \A i \in 1..Len(sub) : \E j \in 1..Len(s.alphabet[1]) : sub[i] = s.alphabet[1][j]
              /\ s.alphabet[1] = <<>> => LenLo(s) = 0

\* mode: "sat", "hsat", or "all" (optional keys count as well)
RECURSIVE SatH(_, _)
SatH(s, mode) ==
    CASE s.t \in {"none"} -> TRUE
      [] s.t \in {"bool", "bytes", "uuid4", "datetime", "date"} ->
           s.value # <<>> => Accepts(s, s.value[1])
      [] s.t \in {"int", "float"} ->
           IF s.value # <<>> THEN Accepts(s, s.value[1]) ELSE BoundsSat(s)
      [] s.t = "str" -> IF s.value # <<>> THEN Accepts(s, s.value[1]) ELSE StrSat(s)
      [] s.t = "list" ->
           IF s.elems # <<>> THEN
             LET es == s.elems[1]
                 m == Len(Concrete(es))
             IN /\ WellFormedElems(es)
                /\ \A i \in 1..Len(es) : IsEll(es[i]) \/ SatH(es[i], mode)
                /\ IF HasEllipsis(es) THEN LenFeasible(s, m) ELSE LenOk(s, m)
           ELSE /\ LenFeasible(s, 0)
                /\ s.type # <<>> => SatH(s.type[1], mode) \/ (mode = "sat" /\ LenLo(s) = 0)
      [] s.t = "dict" ->
           s.keys # <<>> => \A i \in 1..Len(s.keys[1]) :
              \/ s.keys[1][i][1].k = "ell"
              \/ s.keys[1][i][3] /\ mode # "all"
              \/ SatH(s.keys[1][i][2], mode)
      [] s.t = "any" ->
           s.types # <<>> =>
             /\ Len(s.types[1]) > 0
             /\ IF mode # "sat" THEN \A i \in 1..Len(s.types[1]) : SatH(s.types[1][i], mode)
                ELSE \E i \in 1..Len(s.types[1]) : SatH(s.types[1][i], mode)
      [] s.t = "alias" -> SatH(s.type, mode)
      [] s.t = "custom" -> SatH(s.inner, mode)
      [] OTHER -> FALSE
Sat(s) == SatH(s, "sat")
HSat(s) == SatH(s, "hsat")
AllSat(s) == SatH(s, "all")
=============================================================================
