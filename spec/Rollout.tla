------------------------------- MODULE Rollout ------------------------------
(***************************************************************************)
(* Nested mappings and their flattened form.                               *)
(* A mapping is a sequence of entries [key, opt, node]; key is a sequence  *)
(* of codepoints, or EllKey; node is [n |-> "leaf", id] or                 *)
(* [n |-> "map", items] with at least one entry.  Entry order is not       *)
(* significant for equality.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EllKey == <<-1>>
Leaf(id) == [n |-> "leaf", id |-> id, items |-> <<>>]
Map(items) == [n |-> "map", id |-> 0, items |-> items]
Entry(k, o, x) == [key |-> k, opt |-> o, node |-> x]

\* does sep occur in t at position i (1-based)
At(sep, t, i) == i + Len(sep) - 1 <= Len(t) /\ \A j \in 1..Len(sep) : t[i + j - 1] = sep[j]
RECURSIVE Find(_, _, _)
Find(sep, t, i) == IF i > Len(t) THEN 0 ELSE IF At(sep, t, i) THEN i ELSE Find(sep, t, i + 1)
Head1(sep, t) == LET i == Find(sep, t, 1) IN IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1)
HasSep(sep, t) == Find(sep, t, 1) # 0
Tail1(sep, t) == SubSeq(t, Find(sep, t, 1) + Len(sep), Len(t))

RECURSIVE Flatten(_, _)
Flatten(m, sep) ==
    IF m = <<>> THEN <<>>
    ELSE LET e == Head(m) IN
         (IF e.node.n = "leaf" THEN <<e>>
          ELSE LET sub == Flatten(e.node.items, sep)
               IN [i \in 1..Len(sub) |-> Entry(e.key \o sep \o sub[i].key, sub[i].opt, sub[i].node)])
         \o Flatten(Tail(m), sep)

RECURSIVE EqMap(_, _), EqNode(_, _)
EqNode(a, b) == IF a.n = "leaf" \/ b.n = "leaf" THEN a.n = b.n /\ a.id = b.id
                ELSE EqMap(a.items, b.items)
EqMap(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) :
                     a[i].key = b[j].key /\ a[i].opt = b[j].opt /\ EqNode(a[i].node, b[j].node)

\* the inverse: group by first part, keep leaves, recur
PlaceAt(acc, key, item) ==
    LET I == {i \in 1..Len(acc) : acc[i].key = key /\ ~acc[i].opt /\ acc[i].node.n = "map"} IN
    IF I = {} THEN Append(acc, Entry(key, FALSE, Map(<<item>>)))
    ELSE LET i == CHOOSE i \in I : TRUE
         IN [acc EXCEPT ![i] = Entry(key, FALSE, Map(Append(acc[i].node.items, item)))]
RECURSIVE Group(_, _, _), Unflatten(_, _)
Group(acc, flat, sep) ==
    IF flat = <<>> THEN acc
    ELSE LET e == Head(flat) IN
         Group(IF e.key = EllKey \/ ~HasSep(sep, e.key) THEN Append(acc, e)
               ELSE PlaceAt(acc, Head1(sep, e.key), Entry(Tail1(sep, e.key), e.opt, e.node)),
               Tail(flat), sep)
Unflatten(flat, sep) ==
    LET g == Group(<<>>, flat, sep)
    IN [i \in 1..Len(g) |-> IF g[i].node.n = "map"
                            THEN Entry(g[i].key, g[i].opt, Map(Unflatten(g[i].node.items, sep)))
                            ELSE g[i]]

\* no join of keys can be split elsewhere (only matters for longer separators)
RECURSIVE Separable(_, _)
Separable(m, sep) ==
    /\ \A i \in 1..Len(m) : m[i].key # EllKey => ~HasSep(sep, m[i].key)
    /\ \A i \in 1..Len(m) : m[i].node.n = "map" =>
          /\ Separable(m[i].node.items, sep)
          /\ \A j \in 1..Len(m[i].node.items) :
               LET k == m[i].key \o sep \o m[i].node.items[j].key
               IN Find(sep, k, 1) = Len(m[i].key) + 1
\* optional only on leaves, ... only at the top
RECURSIVE Markers(_, _)
Markers(m, top) ==
    \A i \in 1..Len(m) :
        /\ m[i].opt => m[i].node.n = "leaf"
        /\ m[i].key = EllKey => top /\ ~m[i].opt /\ m[i].node.n = "leaf"
        /\ m[i].node.n = "map" => m[i].node.items # <<>> /\ Markers(m[i].node.items, FALSE)
Flattenable(m, sep) == Separable(m, sep) /\ Markers(m, TRUE)
=============================================================================
