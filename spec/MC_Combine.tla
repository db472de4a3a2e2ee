----------------------------- MODULE MC_Combine -----------------------------
(***************************************************************************)
(* Every small combination of schemas - unions of two and three, sums of   *)
(* two dicts, requirements, aliases - against what its parts mean; sums of *)
(* three and requirements of sums in the model only.  Every combination is *)
(* replayed into the implementation with its values.                       *)
(***************************************************************************)
EXTENDS Small, Json
VARIABLES kind, parts, keys
vars == <<kind, parts, keys>>

SOne == [SStr EXCEPT !.minlen = <<1>>]
DictKeys == {a \o b \o e : a \in {<<>>, <<<<KA, S1, FALSE>>>>, <<<<KA, SInt, TRUE>>>>, <<<<KA, SAny, FALSE>>>>},
                           b \in {<<>>, <<<<KB, SOne, FALSE>>>>, <<<<KB, SStr, TRUE>>>>},
                           e \in {<<>>, EllKey}} \cup
            {EllKey \o <<<<KA, SStr, FALSE>>>>, EllKey \o <<<<KB, SInt, TRUE>>, <<KA, SInt, FALSE>>>>,
             <<<<VInt(0), SInt, FALSE>>>>, <<<<VInt(0), SInt, TRUE>>, <<KA, SNone, FALSE>>>>,
             <<<<VNone, SInt, TRUE>>>>, <<<<VStr(<<>>), SInt, TRUE>>>>, <<<<VStr(<<>>), SStr, FALSE>>, <<KB, SStr, FALSE>>>>}
Ds == {[SDict EXCEPT !.keys = <<ks>>] : ks \in DictKeys}
DictVals == {DictOf(a, b) : a \in Maybe({VInt(1), VInt(2), VStr(<<97>>)}), b \in Maybe({VInt(1), VStr(<<>>), VStr(<<97>>)})} \cup
            {VDict(<<<<KC, VInt(1)>>>>), VDict(<<<<KA, VInt(1)>>, <<KC, VNone>>>>), VDict(<<<<KB, VInt(1)>>, <<KA, VInt(1)>>>>),
             VDict(<<<<VInt(0), VInt(1)>>>>), VDict(<<<<VInt(0), VInt(1)>>, <<KA, VNone>>>>), VDict(<<<<VInt(0), VNone>>, <<KA, VInt(1)>>>>),
             VDict(<<<<VNone, VInt(1)>>>>), VDict(<<<<VNone, VInt(1)>>, <<KA, VInt(1)>>>>),
             VDict(<<<<VStr(<<>>), VInt(1)>>>>), VDict(<<<<VStr(<<>>), VStr(<<>>)>>, <<KB, VStr(<<97>>)>>>>), VNone, VList(<<>>)}
Three == {d \in Ds : Len(d.keys[1]) > 0 /\ (d.keys[1][1][2] = S1 \/ d.keys[1][1][1] = VEll \/ Len(d.keys[1]) = 3)}
Members == Core \cup Alts
Triple == Alts \cup {[SAny EXCEPT !.types = <<<<SNone, S1>>>>]}
Values == IF kind \in {"union", "same"} THEN Inner \cup {VInt(-1), VStr(Tx(2)), F1} ELSE DictVals

Init == /\ kind \in {"union", "sum", "required", "same"}
        /\ parts = <<>> /\ keys = <<>>
Part == /\ Len(parts) < CASE kind \in {"union", "sum"} -> 3 [] OTHER -> 1
        /\ keys = <<>>
        /\ \E p \in CASE kind = "same" -> Members
                       [] kind = "union" -> IF parts = <<>> THEN Members
                                            ELSE IF Len(parts) = 1 THEN Members
                                            ELSE IF parts[1] \in Triple /\ parts[2] \in Triple THEN Triple ELSE {}
                       [] OTHER -> IF parts = <<>> THEN Ds
                                   ELSE IF Len(parts) = 1 THEN Ds
                                   ELSE IF parts[1] \in Three /\ parts[2] \in Three THEN Three ELSE {} : parts' = Append(parts, p)
        /\ UNCHANGED <<kind, keys>>
\* the keys that are asked for
Ask == /\ kind = "required" /\ Len(parts) = 1 /\ keys = <<>>
       /\ \E S \in SUBSET {DeclaredKeys(parts[1])[i] : i \in 1..Len(DeclaredKeys(parts[1]))} : keys' = SetToSeq(S)
       /\ UNCHANGED <<kind, parts>>
Next == Part \/ Ask
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ laws
\* d2's declaration of a key, else d1's; anything else only if one is relaxed
Governs(k, w) == LET j == SKeyIdx(parts[2].keys[1], k)
                     i == SKeyIdx(parts[1].keys[1], k)
                     d == IF j # 0 THEN parts[2].keys[1][j] ELSE parts[1].keys[1][i]
                 IN IF HasKey(w, k) THEN Accepts(d[2], ValAt(w, k)) ELSE d[3]
SumIs(w) == /\ w.k = "dict"
            /\ \A p \in 1..2 : \A i \in 1..Len(DeclaredKeys(parts[p])) : Governs(DeclaredKeys(parts[p])[i], w)
            /\ \/ Relaxed(parts[1].keys[1]) \/ Relaxed(parts[2].keys[1])
               \/ \A i \in 1..Len(w.p) : SKeyIdx(parts[1].keys[1], w.p[i][1]) # 0 \/ SKeyIdx(parts[2].keys[1], w.p[i][1]) # 0
SumLaw == (kind = "sum" /\ Len(parts) = 2) => \A w \in Values :
    /\ Accepts(SumOf(parts), w) <=> SumIs(w)
    /\ parts[1] = parts[2] => (Accepts(SumOf(parts), w) <=> Accepts(parts[1], w))
Associative == (kind = "sum" /\ Len(parts) = 3) => \A w \in Values :
    LET ab == SumOf(<<SumOf(<<parts[1], parts[2]>>), parts[3]>>)
        bc == SumOf(<<parts[1], SumOf(<<parts[2], parts[3]>>)>>)
    IN Accepts(ab, w) = Accepts(SumOf(parts), w) /\ Accepts(bc, w) = Accepts(SumOf(parts), w)
RequiredLaw == (kind = "required" /\ Len(parts) = 1) => \A w \in Values :
    Accepts(RequiredOf(parts[1], keys), w) <=> RequiredAccepts(parts[1], keys, w)
UnionLaw == (kind = "union" /\ parts # <<>>) => \A w \in Values :
    Accepts([SAny EXCEPT !.types = <<FlatTypes(parts)>>], w) <=> UnionAccepts(parts, w)
Ready == CASE kind = "union" -> Len(parts) >= 2
           [] kind = "sum" -> Len(parts) = 2
           [] OTHER -> Len(parts) = 1
Emit == Ready => PrintT("BEH " \o ToJson([kind |-> kind, parts |-> parts, keys |-> keys]))
Vals == (kind \in {"union", "sum"} /\ parts = <<>>) => PrintT("BEH " \o ToJson([kind |-> "values", of |-> kind, vs |-> SetToSeq(Values)]))
=============================================================================
