----------------------------- MODULE Migration -----------------------------
(***************************************************************************)
(* Rewriting the top-level from-imports of a module.                       *)
(* A module is a sequence of statements:                                   *)
(*   [k |-> "other", id |-> n]          equal n: equal statements          *)
(*   [k |-> "from", mod |-> text, names |-> Seq(<<name, local>>)]          *)
(*      an absolute from-import (local = name when there is no `as`);      *)
(*      star imports and relative ones are "other"                         *)
(* mapping: a sequence of <<module, name, new module, new name>>           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MapIdx(mp, mod, name) == {i \in 1..Len(mp) : mp[i][1] = mod /\ mp[i][2] = name}
Mapped(mp, mod, name) == MapIdx(mp, mod, name) # {}
Target(mp, mod, name) ==
    IF Mapped(mp, mod, name)
    THEN LET i == CHOOSE x \in MapIdx(mp, mod, name) : TRUE IN <<mp[i][3], mp[i][4]>>
    ELSE <<mod, name>>

\* what a statement binds, in order: <<origin module, origin name, local name>>
Bindings(st) == [i \in 1..Len(st.names) |-> <<st.mod, st.names[i][1], st.names[i][2]>>]
\* ... and what it has to bind after the rewriting
Wanted(st, mp) == [i \in 1..Len(st.names) |->
    LET t == Target(mp, st.mod, st.names[i][1]) IN <<t[1], t[2], st.names[i][2]>>]

\* the statements, with every run of from-imports gathered into one block
RECURSIVE Blocks(_, _, _)
Blocks(p, mp, want) ==
    IF p = <<>> THEN <<>>
    ELSE LET rest == Blocks(Tail(p), mp, want) IN
         IF Head(p).k = "other" THEN <<[k |-> "other", id |-> Head(p).id, bs |-> <<>>]>> \o rest
         ELSE LET bs == IF want THEN Wanted(Head(p), mp) ELSE Bindings(Head(p)) IN
              IF rest # <<>> /\ Head(rest).k = "from"
              THEN <<[k |-> "from", id |-> 0, bs |-> bs \o Head(rest).bs]>> \o Tail(rest)
              ELSE <<[k |-> "from", id |-> 0, bs |-> bs]>> \o rest

\* what a block leaves bound
Final(bs) == {bs[i] : i \in {x \in 1..Len(bs) : \A y \in (x + 1)..Len(bs) : bs[y][3] # bs[x][3]}}
Count(bs, b) == Cardinality({i \in 1..Len(bs) : bs[i] = b})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Elems(bs) == {bs[i] : i \in 1..Len(bs)}

Preserved(in, out, mp) ==
    LET a == Blocks(in, mp, TRUE)
        b == Blocks(out, mp, FALSE)
    IN /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) :
            /\ a[i].k = b[i].k
            /\ a[i].id = b[i].id
            /\ Elems(a[i].bs) = Elems(b[i].bs)
            /\ Final(a[i].bs) = Final(b[i].bs)
HasMapped(in, mp) == \E i \in 1..Len(in) : in[i].k = "from" /\
    \E j \in 1..Len(in[i].names) : Mapped(mp, in[i].mod, in[i].names[j][1])

(***************************************************************************)
(* The rewriting, statement by statement.                                  *)
(***************************************************************************)
Mods(st, mp) == \* target modules, in order of first use; the own module last
    LET w == Wanted(st, mp)
        m(i) == Mapped(mp, st.mod, st.names[i][1])
        idx == SelectSeq([i \in 1..Len(w) |-> i],
                  LAMBDA i : m(i) /\ \A j \in 1..(i - 1) : ~(m(j) /\ w[j][1] = w[i][1]))
    IN [i \in 1..Len(idx) |-> w[idx[i]][1]]
From(mod, bs) == [k |-> "from", mod |-> mod, names |-> [i \in 1..Len(bs) |-> <<bs[i][2], bs[i][3]>>]]
TwiceBound(st) == \E i, j \in 1..Len(st.names) : i # j /\ st.names[i][2] = st.names[j][2]
Rewrite(st, mp) ==
    IF st.k = "other" THEN <<st>>
    ELSE LET w == Wanted(st, mp)
             m(i) == Mapped(mp, st.mod, st.names[i][1])
             pick(S) == [i \in 1..Len(S) |-> w[S[i]]]
             all == [i \in 1..Len(w) |-> i]
         IN IF TwiceBound(st) THEN [i \in 1..Len(w) |-> From(w[i][1], <<w[i]>>)]
            ELSE [i \in 1..Len(Mods(st, mp)) |-> From(Mods(st, mp)[i],
                     pick(SelectSeq(all, LAMBDA x : m(x) /\ w[x][1] = Mods(st, mp)[i])))] \o
                 (IF \E i \in 1..Len(w) : ~m(i)
                  THEN <<From(st.mod, pick(SelectSeq(all, LAMBDA x : ~m(x))))>> ELSE <<>>)
RECURSIVE RewriteAll(_, _)
RewriteAll(p, mp) == IF p = <<>> THEN <<>> ELSE Rewrite(Head(p), mp) \o RewriteAll(Tail(p), mp)
=============================================================================
