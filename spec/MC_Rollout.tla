----------------------------- MODULE MC_Rollout -----------------------------
(***************************************************************************)
(* Every mapping over a small key alphabet is rebuilt entry by entry from  *)
(* its flattened form, in every order of the flattened entries: the state  *)
(* is the mapping, the flat entries still to place, and what is placed.    *)
(***************************************************************************)
EXTENDS Rollout, TLC, Json
VARIABLES m, todo, placed
Sep == <<46>>
Keys == {<<>>, <<97>>, <<98>>}
L(i) == {Leaf(i)}
Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i].key # s[j].key \/ s[i].opt # s[j].opt
Entries(nodes) == {Entry(k, o, x) : k \in Keys, o \in BOOLEAN, x \in nodes}
Level(nodes) ==
    {<<>>} \cup {<<e>> : e \in Entries(nodes)} \cup
    {s \in {<<e, f>> : e \in Entries(nodes), f \in Entries((nodes \ {Leaf(1)}) \cup {Leaf(2)})} :
        Injective(s)}
Maps1 == {s \in Level({Leaf(1)}) : Len(s) > 0}
SmallMaps == {Map(s) : s \in {t \in Maps1 : \A i \in 1..Len(t) : t[i].key # <<98>>}}
Maps2 == {s \in Level({Leaf(1)} \cup SmallMaps) : Markers(s, TRUE)}
Deep == {<<Entry(<<97>>, FALSE, Map(s))>> : s \in {t \in Maps2 : Len(t) > 0 /\ Len(t) < 2}}
Ell == Entry(EllKey, FALSE, Leaf(9))
All == Maps2 \cup Deep \cup {s \o <<Ell>> : s \in {t \in Maps2 : Len(t) < 2}}
Init == /\ m \in All
        /\ todo = Flatten(m, Sep)
        /\ placed = <<>>
Place(i) == /\ placed' = Append(placed, todo[i])
            /\ todo' = SubSeq(todo, 1, i - 1) \o SubSeq(todo, i + 1, Len(todo))
            /\ UNCHANGED m
Next == \E i \in 1..Len(todo) : Place(i)
Spec == Init /\ [][Next]_<<m, todo, placed>>

RoundTrip == todo = <<>> => EqMap(Unflatten(placed, Sep), m)
Identity == EqMap(Unflatten(m, Sep), m)
Partial == EqMap(Unflatten(Flatten(Unflatten(placed, Sep), Sep), Sep), Unflatten(placed, Sep))
Emit == todo = <<>> => PrintT("BEH " \o ToJson([m |-> m, flat |-> placed]))
=============================================================================
