------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* Every small pattern: an atom grown by repetition, grouping,             *)
(* concatenation and alternation with further atoms.  The matcher of the   *)
(* specification is held against two other definitions of the same         *)
(* language; every pattern is replayed into generation and validation.     *)
(***************************************************************************)
EXTENDS Regex, SequencesExt, TLC, Json
CONSTANTS Depth, Texts
VARIABLES tree, n
vars == <<tree, n>>

L(c) == [r |-> "lit", c |-> c]
Dot == [r |-> "any"]
K(c) == [r |-> "cat", k |-> c]
ItC(c) == [i |-> "c", c |-> c]
ItR(lo, hi) == [i |-> "r", lo |-> lo, hi |-> hi]
ItK(c) == [i |-> "k", k |-> c]
Set(neg, items) == [r |-> "set", neg |-> neg, items |-> items]
A(a) == [r |-> "at", a |-> a]
Seq2(a, b) == [r |-> "seq", xs |-> <<a, b>>]
Alt2(a, b) == [r |-> "alt", xs |-> <<a, b>>]
Rep(lo, hi, q, a) == [r |-> "rep", lo |-> lo, hi |-> hi, q |-> q, x |-> a]
Grp(g, a) == [r |-> "grp", g |-> g, x |-> a]

\* the atoms, by number (a set of them would compare codepoints with category letters)
Leaf(i) == <<L(97), L(98), Dot, K("d"), K("w"), Set(FALSE, <<ItR(97, 98)>>), Set(FALSE, <<ItC(97), ItK("d")>>),
             Set(TRUE, <<ItC(97)>>), Set(TRUE, <<ItK("w")>>), Set(TRUE, <<ItR(97, 122), ItK("d")>>),
             A("bol"), A("eol"), A("A"), A("Z"),
             K("s"), Set(FALSE, <<ItK("D")>>), [r |-> "look", a |-> ">", neg |-> FALSE, x |-> L(97)],
             [r |-> "look", a |-> "<", neg |-> TRUE, x |-> L(97)]>>[i]
Nd(i) == [r |-> "leaf", i |-> i]
Leaves == {Nd(i) : i \in 1..18}
Atoms == {Nd(i) : i \in 1..14}
Few == {Nd(i) : i \in {1, 3, 8, 11, 12}}
RECURSIVE Tree(_)
Tree(y) == CASE y.r = "leaf" -> Leaf(y.i)
             [] y.r \in {"seq", "alt"} -> [y EXCEPT !.xs = [j \in 1..Len(y.xs) |-> Tree(y.xs[j])]]
             [] OTHER -> [y EXCEPT !.x = Tree(y.x)]
IsAt(y) == y.r = "leaf" /\ y.i \in 11..14
Next1(y, S) == {Rep(lh[1], lh[2], q, y) : lh \in IF IsAt(y) THEN {} ELSE {<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>},
                                          q \in {"greedy", "lazy"}}
               \cup {Grp(g, y) : g \in {"cap", "non"}}
               \cup {Seq2(y, a) : a \in S} \cup {Seq2(a, y) : a \in S}
               \cup {Alt2(y, a) : a \in S} \cup {Alt2(a, y) : a \in S}
Init == n = 0 /\ tree \in Leaves
Next == n < Depth /\ n' = n + 1 /\ tree' \in Next1(tree, IF n = 0 THEN Atoms ELSE Few)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------- the same meaning
Sigma == {97, 98, 48, 10, 33}
Words(k) == UNION {[1..i -> Sigma] : i \in 0..k}
\* the texts of at most k characters of Sigma that x describes; x has no anchors or lookarounds
RECURSIVE Lang(_, _)
Join(P, Q, k) == {p \o q : p \in P, q \in Q} \cap Words(k)
RECURSIVE Power(_, _, _), Star(_, _, _)
Power(P, i, k) == IF i = 0 THEN {<<>>} ELSE Join(P, Power(P, i - 1, k), k)
Star(P, Q, k) == LET M == Q \cup Join(Q, P, k) IN IF M = Q THEN Q ELSE Star(P, M, k)
Lang(y, k) ==
    CASE y.r = "lit" -> {<<y.c>>} \cap Words(k)
      [] y.r = "any" -> {<<c>> : c \in Sigma \ {10}}
      [] y.r = "cat" -> {<<c>> : c \in {d \in Sigma : InCat(d, y.k)}}
      [] y.r = "set" -> {<<c>> : c \in {d \in Sigma : InSet(d, y)}}
      [] y.r = "seq" -> Join(Lang(y.xs[1], k), Lang(y.xs[2], k), k)
      [] y.r = "alt" -> Lang(y.xs[1], k) \cup Lang(y.xs[2], k)
      [] y.r = "grp" -> Lang(y.x, k)
      [] y.r = "rep" -> LET P == Lang(y.x, k) Q == Power(P, y.lo, k)
                        IN IF y.hi = -1 THEN Star(P, Q, k)
                           ELSE UNION {Power(P, i, k) : i \in y.lo..y.hi}
RECURSIVE Plainly(_)
Plainly(y) == CASE y.r \in {"at", "look"} -> FALSE
                [] y.r \in {"seq", "alt"} -> \A j \in 1..Len(y.xs) : Plainly(y.xs[j])
                [] y.r \in {"rep", "grp"} -> Plainly(y.x)
                [] OTHER -> TRUE
Cut(t, i, j) == SubSeq(t, i + 1, j)
x == Tree(tree)
Meaning == Plainly(x) =>
    LET M == Lang(x, Texts) IN
    \A t \in Words(Texts) : /\ FullMatch(x, t) <=> t \in M
                            /\ Search(x, t) <=> \E i \in 0..Len(t) : \E j \in i..Len(t) : Cut(t, i, j) \in M
\* a full match is found by a search; only anchors make a search depend on where it looks
Found == \A t \in Words(Texts) : FullMatch(x, t) => Search(x, t)
\* what generation handles can be matched at all
Possible == (Generatable(x) /\ Plainly(x)) => \E t \in Words(3) : FullMatch(x, t)
Emit == PrintT("BEH " \o ToJson([x |-> x, n |-> n]))
=============================================================================
