---------------------------- MODULE MC_Migration ----------------------------
(***************************************************************************)
(* Modules of up to Size statements, every statement in every shape and    *)
(* layout.  Text is modelled as physical lines of pieces <<statement,      *)
(* part>>; the rewriting splices the pieces of one statement at a time,    *)
(* last statement first, as an implementation on line and column           *)
(* positions has to.                                                       *)
(***************************************************************************)
EXTENDS Migration, Json
CONSTANT Size
VARIABLES prog, lines, todo

Mp == <<<<"d", "a", "n1", "a">>, <<"d", "b", "n2", "b">>, <<"d", "c", "n1", "c">>, <<"e", "a", "n1", "a">>>>
F(mod, names) == [k |-> "from", mod |-> mod, names |-> names]
O(id) == [k |-> "other", id |-> id]
Shapes == {F("d", <<<<"a", "a">>>>), F("d", <<<<"a", "x">>, <<"u", "u">>>>),
           F("d", <<<<"a", "a">>, <<"b", "b">>, <<"c", "z">>>>),
           F("d", <<<<"a", "x">>, <<"b", "x">>>>), F("d", <<<<"u", "x">>, <<"a", "x">>>>),
           F("o", <<<<"a", "a">>>>), F("e", <<<<"a", "a">>, <<"q", "w">>>>), O(1), O(2), O(3)}
\* how a statement is written: parts (physical lines it spans), and whether it
\* goes on the line the one before ends on
Layouts == {[parts |-> q, join |-> j] : q \in {1, 2}, j \in BOOLEAN}
Block(st) == st.k = "other" /\ st.id = 3          \* a compound statement: alone on its lines
Stmt == {[st |-> s, lay |-> l] : s \in Shapes, l \in Layouts}
Fits(p, x) == x.lay.join => p # <<>> /\ ~Block(x.st) /\ ~Block(p[Len(p)].st)

\* physical lines of pieces
Piece(i, part) == [i |-> i, part |-> part, out |-> <<>>]
RECURSIVE Layout(_, _)
Layout(p, k) ==
    IF k = 0 THEN <<>>
    ELSE LET before == Layout(p, k - 1)
             first == IF p[k].lay.join THEN Append(before[Len(before)], Piece(k, 1)) ELSE <<Piece(k, 1)>>
             init == IF p[k].lay.join THEN SubSeq(before, 1, Len(before) - 1) ELSE before
         IN init \o <<first>> \o (IF p[k].lay.parts = 2 THEN <<<<Piece(k, 2)>>>> ELSE <<>>)

Init == \E n \in 0..Size : prog = <<>> /\ lines = <<>> /\ todo = -n - 1
Extend == /\ todo < -1
          /\ \E x \in Stmt : Fits(prog, x) /\ prog' = Append(prog, x)
          /\ todo' = todo + 1
          /\ UNCHANGED lines
Lay == todo = -1 /\ lines' = Layout(prog, Len(prog)) /\ todo' = Len(prog) /\ UNCHANGED prog
Where(ls, i, part) == CHOOSE l \in 1..Len(ls) : \E c \in 1..Len(ls[l]) :
                         ls[l][c].i = i /\ ls[l][c].part = part /\ ls[l][c].out = <<>>
Col(line, i) == CHOOSE c \in 1..Len(line) : line[c].i = i
Splice == /\ todo > 0
          /\ IF prog[todo].st.k = "other" THEN UNCHANGED lines
             ELSE LET a == Where(lines, todo, 1)
                      b == Where(lines, todo, prog[todo].lay.parts)
                      pre == SubSeq(lines[a], 1, Col(lines[a], todo) - 1)
                      post == SubSeq(lines[b], Col(lines[b], todo) + 1, Len(lines[b]))
                      new == [i |-> todo, part |-> 0, out |-> Rewrite(prog[todo].st, Mp)]
                  IN lines' = SubSeq(lines, 1, a - 1) \o <<pre \o <<new>> \o post>> \o
                              SubSeq(lines, b + 1, Len(lines))
          /\ todo' = todo - 1
          /\ UNCHANGED prog
Next == Extend \/ Lay \/ Splice
Spec == Init /\ [][Next]_<<prog, lines, todo>>

In == [i \in 1..Len(prog) |-> prog[i].st]
\* reading the text back
RECURSIVE ReadLine(_), Read(_)
ReadLine(ps) == IF ps = <<>> THEN <<>>
                ELSE (IF Head(ps).part > 1 THEN <<>>
                      ELSE IF Head(ps).part = 1 THEN <<prog[Head(ps).i].st>> ELSE Head(ps).out)
                     \o ReadLine(Tail(ps))
Read(ls) == IF ls = <<>> THEN <<>> ELSE ReadLine(Head(ls)) \o Read(Tail(ls))
Spliced == todo = 0 => Read(lines) = RewriteAll(In, Mp)
Correct == todo = 0 => Preserved(In, Read(lines), Mp)
Idle == (todo = 0 /\ ~HasMapped(In, Mp)) => Preserved(In, In, Mp)
Again == todo = 0 => Preserved(RewriteAll(In, Mp), RewriteAll(RewriteAll(In, Mp), Mp), Mp)
Emit == todo = 0 => PrintT("BEH " \o ToJson([p |-> prog]))
=============================================================================
