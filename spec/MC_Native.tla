------------------------------ MODULE MC_Native ------------------------------
(***************************************************************************)
(* The exact schema of every small plain value, against every other small  *)
(* value; values that are not plain, at any place, are refused.            *)
(***************************************************************************)
EXTENDS Small, Json
VARIABLES v, stage
vars == <<v, stage>>

Leaf == {VNone, VBool(TRUE), VBool(FALSE), VInt(0), VInt(1), VInt(-1), [k |-> "int", n |-> N64], F0, F1, F15, FEps, FM, VNan, VInf, VNInf,
         Fl(N64), VStr(<<>>), VStr(<<97>>), VStr(<<65>>), VStr(<<97, 97>>), VStr(<<49>>), VBytes(<<>>), VBytes(<<97>>), UuidA, UuidB, Dt1, Dt2, Dt3, Da1, Da2}
Short == {VNone, VBool(TRUE), VInt(0), VInt(1), F1, VStr(<<97>>), VStr(<<>>)}
Keys == {KA, KB, VInt(0), VNone, VStr(<<>>), VBytes(<<97>>)}
One == {VList(<<>>), VDict(<<>>)} \cup {VList(<<x>>) : x \in Leaf} \cup {VList(<<x, y>>) : x, y \in Short} \cup
       {VDict(<<<<KA, x>>>>) : x \in Leaf} \cup {VDict(<<<<k, VInt(1)>>>>) : k \in Keys} \cup
       {VDict(<<<<KA, x>>, <<KB, y>>>>) : x, y \in {VInt(1), VNone, F1}} \cup
       {VDict(<<<<KB, VInt(1)>>, <<KA, VNone>>>>), VList(<<VInt(1), VInt(1), VInt(1)>>)} \cup
       {VList(<<x, y, z>>) : x, y, z \in {VBool(TRUE), VInt(1), F1}} \cup {VList(<<x, y, z>>) : x, y, z \in {VBool(FALSE), VInt(0), F0, FM}} \cup
       {VDict(<<<<KA, x>>, <<KB, y>>>>) : x, y \in {VBool(TRUE), F1}}
Inside == {VList(<<>>), VDict(<<>>), VList(<<VInt(1)>>), VList(<<VNone>>), VList(<<VInt(1), VInt(0)>>), VDict(<<<<KA, VInt(1)>>>>),
           VDict(<<<<KA, VNone>>>>), VDict(<<<<KB, VInt(1)>>>>), VStr(<<97>>), VInt(1)}
Two == {VList(<<x>>) : x \in Inside} \cup {VDict(<<<<KA, x>>>>) : x \in Inside} \cup {VList(<<x, x>>) : x \in Inside} \cup
       {VDict(<<<<KA, x>>, <<KB, y>>>>) : x \in Inside, y \in {VList(<<>>), VInt(1)}} \cup
       {VList(<<VList(<<x>>)>>) : x \in Inside} \cup {VDict(<<<<KA, VDict(<<<<KA, x>>>>)>>>>) : x \in Inside}
All == Leaf \cup One \cup Two
NotP == {Tup, Uuid5, VEll, [k |-> "tuple", e |-> <<>>]}
Refusals == NotP \cup {VList(<<x>>) : x \in NotP} \cup {VList(<<VInt(1), VList(<<x>>)>>) : x \in NotP} \cup
            {VDict(<<<<KA, x>>>>) : x \in NotP} \cup {VDict(<<<<KA, VInt(1)>>, <<KB, VList(<<VDict(<<<<KA, x>>>>)>>)>>>>) : x \in NotP}

Init == stage = 0 /\ v = VNone
Next == stage = 0 /\ \/ stage' = 1 /\ v' \in All
                     \/ stage' = 2 /\ v' \in Refusals
Spec == Init /\ [][Next]_vars

Exact == stage = 1 =>
    LET s == Native(v) IN
    /\ Plain(v) /\ WellFormed(s) /\ AllSat(s) /\ (FullyFixed(s) => TheValue(s) = v)
    /\ \A w \in All \cup Refusals : (Same(v, w) => Accepts(s, w)) /\ (Accepts(s, w) => Like(v, w))
    /\ SubOk(SAny, v) /\ Subst(SAny, v).types[1][1] = s
Refuse == stage = 2 => ~Plain(v)
Emit == /\ stage > 0 => PrintT("BEH " \o ToJson([kind |-> "v", v |-> v]))
        /\ stage = 0 => PrintT("BEH " \o ToJson([kind |-> "ws", ws |-> SetToSeq(All \cup Refusals)]))
=============================================================================
