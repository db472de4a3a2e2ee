------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular-expression programs as trees, and what they match.              *)
(*   [r |-> "lit", c]            one codepoint                             *)
(*   [r |-> "any"]               .                                         *)
(*   [r |-> "cat", k]            \d \w \s \D \W \S  (k = "d","w",...)      *)
(*   [r |-> "set", neg, items]   items: [i|->"c",c] [i|->"r",lo,hi]        *)
(*                               [i|->"k",k] (category)                    *)
(*   [r |-> "seq", xs] [r |-> "alt", xs]                                   *)
(*   [r |-> "rep", lo, hi (-1 = unbounded), q ("greedy"/"lazy"/"poss"), x] *)
(*   [r |-> "grp", g ("cap"/"non"/"named"/"atomic"), x]                    *)
(*   [r |-> "at", a ("bol"/"A"/"eol"/"Z"/"b"/"B")]                         *)
(*   [r |-> "look", a (">"/"<"), neg, x]   [r |-> "ref", n]                *)
(* Positions are 0..Len(t).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Unicode

Digits == 48..57
Lower == 97..122
Upper == 65..90
IsDigit(c) == IF c < 128 THEN c \in Digits ELSE InRanges(c, UniDigitRanges)
IsWord(c) == IF c < 128 THEN c \in Digits \/ c \in Lower \/ c \in Upper \/ c = 95 ELSE InRanges(c, UniWordRanges)
IsSpace(c) == IF c < 128 THEN c \in 9..13 \/ c \in 28..32 ELSE InRanges(c, UniSpaceRanges)
InCat(c, k) == CASE k = "d" -> IsDigit(c)
                 [] k = "w" -> IsWord(c)
                 [] k = "s" -> IsSpace(c)
                 [] k = "D" -> ~IsDigit(c)
                 [] k = "W" -> ~IsWord(c)
                 [] k = "S" -> ~IsSpace(c)

InItem(c, it) == CASE it.i = "c" -> c = it.c
                   [] it.i = "r" -> it.lo <= c /\ c <= it.hi
                   [] it.i = "k" -> InCat(c, it.k)
InSet(c, x) == LET m == \E j \in 1..Len(x.items) : InItem(c, x.items[j])
               IN IF x.neg THEN ~m ELSE m

\* constructs the generator is specified to support
RECURSIVE Supported(_)
Supported(x) ==
    CASE x.r \in {"lit", "any"} -> TRUE
      [] x.r = "cat" -> x.k \in {"d", "w"}
      [] x.r = "set" -> \A j \in 1..Len(x.items) :
                           x.items[j].i = "k" => x.items[j].k \in {"d", "w"}
      [] x.r \in {"seq", "alt"} -> \A j \in 1..Len(x.xs) : Supported(x.xs[j])
      [] x.r = "rep" -> x.q \in {"greedy", "lazy"} /\ Supported(x.x)
      [] x.r = "grp" -> x.g \in {"cap", "non", "named"} /\ Supported(x.x)
      [] x.r = "at" -> TRUE
      [] OTHER -> FALSE

\* backtracking-free meaning is only exact without these
RECURSIVE Regular(_)
Regular(x) ==
    CASE x.r \in {"lit", "any", "cat", "set", "at"} -> TRUE
      [] x.r \in {"seq", "alt"} -> \A j \in 1..Len(x.xs) : Regular(x.xs[j])
      [] x.r = "rep" -> x.q # "poss" /\ Regular(x.x)
      [] x.r = "look" -> Regular(x.x)
      [] x.r = "grp" -> x.g # "atomic" /\ Regular(x.x)
      [] OTHER -> FALSE

\* between a word character and something else (an empty text has no boundary at all, and \B refuses it)
AtBoundary(t, i) == (i > 0 /\ IsWord(t[i])) # (i < Len(t) /\ IsWord(t[i + 1]))
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), RepEnds(_, _, _, _, _), Closure(_, _, _, _), Upto(_, _, _, _, _)
\* positions reachable from the set of positions I by matching x in t
Ends(x, t, I) ==
    IF I = {} THEN {} ELSE
    CASE x.r = "lit" -> {i + 1 : i \in {j \in I : j < Len(t) /\ t[j + 1] = x.c}}
      [] x.r = "any" -> {i + 1 : i \in {j \in I : j < Len(t) /\ t[j + 1] # 10}}
      [] x.r = "cat" -> {i + 1 : i \in {j \in I : j < Len(t) /\ InCat(t[j + 1], x.k)}}
      [] x.r = "set" -> {i + 1 : i \in {j \in I : j < Len(t) /\ InSet(t[j + 1], x)}}
      [] x.r = "seq" -> SeqEnds(x.xs, 1, t, I)
      [] x.r = "alt" -> UNION {Ends(x.xs[j], t, I) : j \in 1..Len(x.xs)}
      [] x.r = "grp" -> Ends(x.x, t, I)
      [] x.r = "rep" -> LET R == RepEnds(x.x, x.lo, t, I, 0)
                        IN IF x.hi = -1 THEN Closure(x.x, t, R, R)
                           ELSE Upto(x.x, x.hi - x.lo, t, R, R)
      [] x.r = "look" -> {i \in I : (IF x.a = ">" THEN Ends(x.x, t, {i}) # {}
                                    ELSE \E k \in 0..i : i \in Ends(x.x, t, {k})) # x.neg}
      [] x.r = "at" -> CASE x.a \in {"bol", "A"} -> I \cap {0}
                         [] x.a = "Z" -> I \cap {Len(t)}
                         [] x.a = "eol" ->
                              I \cap ({Len(t)} \cup
                                 (IF Len(t) > 0 /\ t[Len(t)] = 10 THEN {Len(t) - 1} ELSE {}))
                         [] x.a = "b" -> {i \in I : AtBoundary(t, i)}
                         [] x.a = "B" -> {i \in I : ~AtBoundary(t, i) /\ Len(t) > 0}
SeqEnds(xs, k, t, I) == IF k > Len(xs) THEN I ELSE SeqEnds(xs, k + 1, t, Ends(xs[k], t, I))
\* exactly n iterations (stops early once the set is stable or empty)
RepEnds(x, n, t, I, done) ==
    IF done >= n \/ I = {} THEN I
    ELSE LET J == Ends(x, t, I) IN IF J = I THEN I ELSE RepEnds(x, n, t, J, done + 1)
\* from the seen positions I, the newest of them F
Closure(x, t, I, F) == LET N == Ends(x, t, F) \ I IN IF N = {} THEN I ELSE Closure(x, t, I \cup N, N)
Upto(x, n, t, I, F) == IF n = 0 THEN I
                       ELSE LET N == Ends(x, t, F) \ I
                            IN IF N = {} THEN I ELSE Upto(x, n - 1, t, I \cup N, N)

FullMatch(x, t) == Len(t) \in Ends(x, t, {0})
Search(x, t) == Ends(x, t, 0..Len(t)) # {}

\* anchors only where the pattern begins or ends
RECURSIVE HasAt(_), AtEnds(_, _, _), Dead(_)
HasAt(x) ==
    CASE x.r = "at" -> TRUE
      [] x.r \in {"seq", "alt"} -> \E j \in 1..Len(x.xs) : HasAt(x.xs[j])
      [] x.r \in {"rep", "grp", "look"} -> HasAt(x.x)
      [] OTHER -> FALSE
AtEnds(x, first, last) ==
    CASE x.r = "at" -> IF x.a \in {"bol", "A"} THEN first ELSE x.a \in {"eol", "Z"} /\ last
      [] x.r = "seq" -> \A j \in 1..Len(x.xs) :
             AtEnds(x.xs[j], first /\ \A i \in 1..(j - 1) : x.xs[i].r = "at",
                             last /\ \A i \in (j + 1)..Len(x.xs) : x.xs[i].r = "at")
      [] x.r = "alt" -> \A j \in 1..Len(x.xs) : AtEnds(x.xs[j], first, last)
      [] x.r = "grp" -> AtEnds(x.x, first, last)
      [] x.r = "rep" -> ~HasAt(x.x)
      [] OTHER -> TRUE
\* a class nothing is in
Dead(x) ==
    CASE x.r = "set" -> \/ x.neg /\ \E j \in 1..Len(x.items) :
                              x.items[j].i = "r" /\ x.items[j].lo = 0 /\ x.items[j].hi >= 1114111
                        \/ x.neg /\ \E i, j \in 1..Len(x.items) :
                              /\ x.items[i].i = "k" /\ x.items[j].i = "k"
                              /\ <<x.items[i].c, x.items[j].c>> \in {<<"d", "D">>, <<"w", "W">>, <<"s", "S">>,
                                                                     <<"w", "D">>, <<"d", "W">>}
      [] x.r \in {"seq", "alt"} -> \E j \in 1..Len(x.xs) : Dead(x.xs[j])
      [] x.r \in {"rep", "grp"} -> Dead(x.x)
      [] OTHER -> FALSE
\* a pattern that generation has to handle
Generatable(x) == Supported(x) /\ AtEnds(x, TRUE, TRUE) /\ ~Dead(x)
=============================================================================
