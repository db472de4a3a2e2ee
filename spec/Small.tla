------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* A small scope: boundary arguments for every declaration call, and       *)
(* boundary values, from which the exhaustive models (MC_Declare,          *)
(* MC_Schemas, MC_Combine, MC_Native) draw.                                *)
(***************************************************************************)
EXTENDS Combinators, SequencesExt

\* ---------------------------------------------------------------- values
Tx(i) == CASE i = 0 -> <<>> [] i = 1 -> <<97>> [] i = 2 -> <<97, 98>> [] i = 3 -> <<98>>
           [] i = 4 -> <<98, 97>> [] i = 5 -> <<97, 98, 97>> [] i = 6 -> <<233>> [] i = 7 -> <<32, 98>> [] i = 8 -> <<98, 10>>
N05 == NHalf
N15 == <<1, 1, <<1, 16384>>>>
N64 == <<1, 5, <<16>>>>                       \* 2^64
Fl(n) == VFloat(n)
F0 == Fl(NZero)   F1 == Fl(NOne)   F15 == Fl(N15)  FM == Fl(NNeg(N05))
FEps == Fl(NAdd(NOne, <<1, -2, <<4096>>>>))   \* 1 + 2^-33
FNear == Fl(NAdd(NOne, <<1, 0, <<1024>>>>))   \* 1.03125
UuidA == [k |-> "uuid", ver |-> 4,
          t |-> <<136, 99, 19, 225, 59, 138, 67, 114, 155, 144, 12, 154, 238, 25, 158, 93>>]
UuidB == [UuidA EXCEPT !.t[16] = 94]
Uuid5 == [UuidA EXCEPT !.t[7] = 83, !.ver = 5]
Dt1 == [k |-> "datetime", t |-> <<2020, 1, 2, 0, 0, 0, 0>>, aw |-> FALSE, off |-> ""]
Dt2 == [Dt1 EXCEPT !.t[7] = 1]
Dt3 == [Dt1 EXCEPT !.aw = TRUE, !.off = "0"]
Da1 == [k |-> "date", t |-> <<2020, 1, 2>>]
Da2 == [k |-> "date", t |-> <<2020, 1, 3>>]
Tup == [k |-> "tuple", e |-> <<VInt(1)>>]
KA == VStr(<<97>>)   KB == VStr(<<98>>)   KC == VStr(<<99>>)

Ints == {VInt(i) : i \in {-1, 0, 1, 2}} \cup {[k |-> "int", n |-> N64]}
Floats == {F0, F1, F15, FM, FEps, FNear, VNan, VInf, VNInf}
Strs == {VStr(Tx(i)) : i \in 0..8}
Scalars == {VNone, VBool(TRUE), VBool(FALSE), VBytes(<<>>), VBytes(<<97>>), UuidA, UuidB, Uuid5,
            Dt1, Dt2, Dt3, Da1, Da2} \cup Ints \cup Floats \cup Strs
Few == {VNone, VBool(TRUE), VInt(0), VInt(1), F1, VStr(<<>>), VStr(<<97>>)}
ListsOf(S, n) == UNION {{VList(q) : q \in [1..i -> S]} : i \in 0..n}
Lists == ListsOf({VInt(1), VInt(2), VStr(<<97>>)}, 3) \cup ListsOf({VNone, F1, VBool(TRUE)}, 1) \cup
         {VList(<<VList(<<>>)>>), VList(<<VInt(1), VInt(2), VStr(<<97>>), VInt(1)>>),
          VList(<<VStr(<<97>>), VInt(1), VInt(2), VInt(2)>>)}
DictOf(a, b) == VDict((IF a = <<>> THEN <<>> ELSE <<<<KA, a[1]>>>>) \o
                      (IF b = <<>> THEN <<>> ELSE <<<<KB, b[1]>>>>))
Maybe(S) == {<<>>} \cup {<<x>> : x \in S}
Dicts == {DictOf(a, b) : a \in Maybe({VInt(1), VInt(2), VStr(<<97>>), VNone}), b \in Maybe({VInt(1), VStr(<<97>>)})}
         \cup {VDict(<<<<KC, VInt(1)>>>>), VDict(<<<<KA, VInt(1)>>, <<KC, VNone>>>>),
               VDict(<<<<KB, VInt(1)>>, <<KA, VInt(1)>>>>), VDict(<<<<VInt(0), VInt(1)>>>>),
               VDict(<<<<VNone, VInt(1)>>, <<KA, VInt(1)>>>>)}
Odd == {VList(<<>>), VList(<<VInt(1)>>), VDict(<<>>), VDict(<<<<KA, VInt(1)>>>>), Tup}

\* ------------------------------------------------------------- arguments
Val(v) == [a |-> "val", v |-> v]
AEll == [a |-> "ell"]
Sch(s) == [a |-> "schema", s |-> s]
Lens(ns) == {<<"len", <<Val(VInt(n))>>>> : n \in ns} \cup
            {<<"len", <<Val(VInt(n)), AEll>>>> : n \in ns} \cup
            {<<"len", <<AEll, Val(VInt(n))>>>> : n \in ns} \cup
            {<<"len", <<Val(VInt(a)), Val(VInt(b))>>>> : a, b \in ns}
Of(m, S) == {<<m, <<Val(v)>>>> : v \in S}
Lit(c) == [r |-> "lit", c |-> c]
At(x) == [r |-> "at", a |-> x]
Cat(xs) == [r |-> "seq", xs |-> xs]
Re(p, t, x) == <<"regex", <<[a |-> "val", v |-> VStr(t), re |-> <<[p |-> p, x |-> x]>>]>>>>
Regexes == {Re("a", <<97>>, Lit(97)), Re("^b$", <<94, 98, 36>>, Cat(<<At("bol"), Lit(98), At("eol")>>)),
            Re("[^a]", <<91, 94, 97, 93>>, [r |-> "set", neg |-> TRUE, items |-> <<[i |-> "c", c |-> 97]>>]),
            Re("a*", <<97, 42>>, [r |-> "rep", lo |-> 0, hi |-> -1, q |-> "greedy", x |-> Lit(97)])}

S1 == [SInt EXCEPT !.value = <<VInt(1)>>]
S2 == [SInt EXCEPT !.value = <<VInt(2)>>]
SA == [SStr EXCEPT !.value = <<VStr(<<97>>)>>]
SIntOrStr == [SAny EXCEPT !.types = <<<<SInt, SStr>>>>]
Elems == {<<>>, <<SInt>>, <<S1>>, <<SStr>>, <<SIntOrStr>>, <<S1, S2>>, <<SInt, SStr>>, <<SStr, SInt>>, <<S1, SA>>,
          <<SInt, S2, SStr>>}
Marked(es) == {es} \cup {es \o <<Ell>>} \cup (IF es = <<>> THEN {} ELSE {<<Ell>> \o es, <<Ell>> \o es \o <<Ell>>})
AList(es) == [a |-> "list", xs |-> [i \in 1..Len(es) |-> IF IsEll(es[i]) THEN AEll ELSE Sch(es[i])]]
ListArgs == {AList(es) : es \in UNION {Marked(es) : es \in Elems}} \cup {Sch(SInt), Sch(SStr), Sch(S1), Sch(SIntOrStr)} \cup
            {AList(<<S1, Ell, S2>>), AList(<<Ell, Ell>>)}
ADict(ks) == [a |-> "dict", ps |-> [i \in 1..Len(ks) |->
                <<[opt |-> ks[i][3], v |-> ks[i][1]], IF IsEll(ks[i][2]) THEN AEll ELSE Sch(ks[i][2])>>]]
KeyDecls(k, S) == {<<>>} \cup {<<<<k, x, o>>>> : x \in S, o \in BOOLEAN}
EllKey == <<<<VEll, Ell, FALSE>>>>
KeyLists == {a \o b \o e : a \in KeyDecls(KA, {SInt, S1, SAny}), b \in KeyDecls(KB, {SStr, SInt}), e \in {<<>>, EllKey}} \cup
            {EllKey \o <<<<KA, SInt, FALSE>>>>, EllKey \o <<<<KA, SInt, TRUE>>, <<KB, SStr, FALSE>>>>,
             <<<<KA, SInt, TRUE>>, <<KA, SStr, FALSE>>>>, <<<<VInt(0), SInt, FALSE>>>>, <<<<VNone, SInt, TRUE>>>>,
             <<<<KB, SStr, FALSE>>, <<KA, SInt, FALSE>>>>}
DictArgs == {ADict(ks) : ks \in KeyLists}
SNarrow == [SInt EXCEPT !.min = <<VInt(1)>>]
Alts == {SInt, SStr, S1, SNone, SNarrow, SAny, SIntOrStr}
AnyArgs == {<<Sch(a)>> : a \in Alts} \cup {<<Sch(a), Sch(b)>> : a, b \in Alts}

Calls(t) ==
    CASE t = "int" -> Of("", {VInt(0), VInt(1), VInt(-1), VBool(TRUE), VStr(<<97>>)}) \cup
                      Of("min", {VInt(i) : i \in {-1, 0, 1, 2}}) \cup Of("max", {VInt(i) : i \in {-1, 0, 1, 2}})
      [] t = "float" -> Of("", {F0, F1, F15, FEps, VNan, VInf, VInt(1)}) \cup
                        Of("min", {F0, F1, F15, VNInf, VNan}) \cup Of("max", {F0, F1, FM, VInf, FEps}) \cup
                        Of("precision", {VInt(0), VInt(1), VInt(2), VInt(11), VBool(TRUE)})
      [] t = "str" -> Of("", {VStr(Tx(i)) : i \in {0, 1, 2, 7}}) \cup Lens(0..2) \cup
                      Of("alphabet", {VStr(Tx(i)) : i \in {0, 1, 2}}) \cup
                      Of("contains", {VStr(Tx(i)) : i \in {0, 1, 3, 4}}) \cup Regexes
      [] t = "list" -> {<<"", <<x>>>> : x \in ListArgs} \cup Lens(0..2)
      [] t = "dict" -> {<<"", <<x>>>> : x \in DictArgs}
      [] t = "any" -> {<<"", x>> : x \in AnyArgs}
      [] t = "bool" -> Of("", {VBool(TRUE), VBool(FALSE), VInt(1)})
      [] t = "bytes" -> Of("", {VBytes(<<>>), VBytes(<<97>>), VStr(<<97>>)})
      [] t = "uuid4" -> Of("", {UuidA, UuidB, Uuid5})
      [] t = "datetime" -> Of("", {Dt1, Dt2, Dt3, Da1})
      [] t = "date" -> Of("", {Da1, Da2, Dt1})
      [] OTHER -> {}

\* ------------------------------------------- schemas one step deeper
Core == {SNone, SInt, S1, SA, SNarrow, [SStr EXCEPT !.minlen = <<1>>],
         [SFloat EXCEPT !.value = <<F15>>, !.prec = <<1>>], [SInt EXCEPT !.value = <<VInt(0)>>],
         SAny, SIntOrStr, [SAny EXCEPT !.types = <<<<SNone, S1>>>>], SBool,
         SList, [SList EXCEPT !.type = <<SInt>>], [SList EXCEPT !.elems = <<<<SInt>>>>],
         [SList EXCEPT !.elems = <<<<S1, Ell>>>>], [SList EXCEPT !.elems = <<<<Ell, S1>>>>],
         [SList EXCEPT !.elems = <<<<Ell, S1, Ell>>>>], [SList EXCEPT !.type = <<SInt>>, !.len = <<1>>],
         SDict, [SDict EXCEPT !.keys = <<<<>>>>], [SDict EXCEPT !.keys = <<<<<<KA, SInt, FALSE>>>>>>],
         [SDict EXCEPT !.keys = <<<<<<KA, S1, TRUE>>>>>>],
         [SDict EXCEPT !.keys = <<<<<<KA, SInt, FALSE>>, <<VEll, Ell, FALSE>>>>>>],
         [SDict EXCEPT !.keys = <<<<<<KA, SInt, TRUE>>, <<KB, SStr, FALSE>>>>>>]}
WrapKinds == {"exact", "two", "head", "tail", "contains", "typed", "typedlen", "req", "opt", "relaxed", "any", "anyfirst", "alias"}
Wrap(w, s) ==
    CASE w = "exact" -> [SList EXCEPT !.elems = <<<<s>>>>]
      [] w = "two" -> [SList EXCEPT !.elems = <<<<s, S1>>>>]
      [] w = "head" -> [SList EXCEPT !.elems = <<<<s, Ell>>>>]
      [] w = "tail" -> [SList EXCEPT !.elems = <<<<Ell, s>>>>]
      [] w = "contains" -> [SList EXCEPT !.elems = <<<<Ell, s, Ell>>>>]
      [] w = "typed" -> [SList EXCEPT !.type = <<s>>]
      [] w = "typedlen" -> [SList EXCEPT !.type = <<s>>, !.maxlen = <<1>>]
      [] w = "req" -> [SDict EXCEPT !.keys = <<<<<<KA, s, FALSE>>>>>>]
      [] w = "opt" -> [SDict EXCEPT !.keys = <<<<<<KB, SInt, FALSE>>, <<KA, s, TRUE>>>>>>]
      [] w = "relaxed" -> [SDict EXCEPT !.keys = <<<<<<VEll, Ell, FALSE>>, <<KA, s, FALSE>>>>>>]
      [] w = "any" -> [SAny EXCEPT !.types = <<FlatTypes(<<SNone, s>>)>>]
      [] w = "anyfirst" -> [SAny EXCEPT !.types = <<FlatTypes(<<s, SA>>)>>]
      [] w = "alias" -> SAlias("Al", s)
Inner == {VNone, VBool(TRUE), VInt(0), VInt(1), VInt(2), F15, VStr(<<>>), VStr(<<97>>), VList(<<>>), VList(<<VInt(1)>>),
          VList(<<VStr(<<97>>), VInt(1)>>), VList(<<VInt(1), VInt(2)>>),
          VDict(<<>>), VDict(<<<<KA, VInt(1)>>>>), VDict(<<<<KA, VInt(2)>>, <<KB, VStr(<<97>>)>>>>), VDict(<<<<KB, VStr(<<>>)>>>>)}
\* members of which one fits only in part and another fits completely
Pairs == {VDict(<<>>), VDict(<<<<KA, VInt(1)>>>>), VDict(<<<<KB, VStr(<<>>)>>>>), VDict(<<<<KA, VInt(2)>>, <<KB, VStr(<<97>>)>>>>),
          VList(<<>>), VList(<<VInt(1)>>), VInt(1), VNone}
\* equal, and of different kinds
Twins == {VInt(1), VBool(TRUE), F1, VInt(0), VBool(FALSE), Fl(NZero)}
WrapVals(w) ==
    CASE w \in {"any", "anyfirst", "alias"} -> Inner
      [] w \in {"req", "relaxed"} ->
           {VDict(<<<<KA, x>>>>) : x \in Inner} \cup {VDict(<<<<KB, VInt(1)>>, <<KA, x>>>>) : x \in Inner} \cup {VDict(<<>>), VNone}
      [] w = "opt" ->
           {VDict(<<<<KA, x>>>>) : x \in {VInt(1), VNone}} \cup {VDict(<<<<KB, VInt(1)>>, <<KA, x>>>>) : x \in Inner}
           \cup {VDict(<<>>), VDict(<<<<KB, VInt(2)>>>>), VDict(<<<<KB, VStr(<<97>>)>>>>), VNone}
      [] OTHER -> {VList(<<>>)} \cup {VList(<<x>>) : x \in Inner} \cup {VList(<<x, VInt(1)>>) : x \in Inner}
                  \cup {VList(<<x, y>>) : x, y \in Pairs} \cup {VList(<<x, y>>) : x, y \in Twins} \cup {VList(<<VInt(1), x>>) : x \in Inner} \cup {VList(<<VNone, x, VInt(1)>>) : x \in Inner} \cup {VNone}
\* values for a schema placed twice
Slim(v) == CASE v.k = "list" -> Len(v.e) <= 1 [] v.k = "dict" -> Len(v.p) <= 1 [] OTHER -> TRUE
PlacedVals(w, vs) ==
    CASE w \in {"any", "alias"} -> vs \cup {VNone, VInt(1)}
      [] w \in {"req", "relaxed"} -> {VDict(<<<<KA, x>>>>) : x \in vs} \cup {VDict(<<>>)}
      [] w = "opt" -> {VDict(<<<<KB, VInt(1)>>, <<KA, x>>>>) : x \in vs} \cup {VDict(<<>>), VDict(<<<<KB, VInt(2)>>>>)}
      [] OTHER -> {VList(<<>>)} \cup {VList(<<x>>) : x \in vs} \cup {VList(<<VNone, x, VInt(1)>>) : x \in {y \in vs : Slim(y)}}
\* two schemas side by side: unions, and windows of two elements
Union2(c, d) == [SAny EXCEPT !.types = <<FlatTypes(<<c, d>>)>>]
Window2(w, c, d) == [SList EXCEPT !.elems = <<CASE w = "head" -> <<c, d, Ell>> [] w = "tail" -> <<Ell, c, d>>
                                                [] w = "contains" -> <<Ell, c, d, Ell>>
                                                [] w = "exact" -> <<c, d>>>>]
Beside == {SInt, S1, SAny, [SStr EXCEPT !.minlen = <<1>>], [SAny EXCEPT !.types = <<<<SNone, S1>>>>],
           [SDict EXCEPT !.keys = <<<<<<KA, SInt, FALSE>>>>>>], [SDict EXCEPT !.keys = <<<<<<KA, S1, TRUE>>>>>>],
           [SDict EXCEPT !.keys = <<<<<<KA, SInt, FALSE>>, <<VEll, Ell, FALSE>>>>>>]}
WindowVals == ListsOf({VInt(1), VInt(2), VNone, VStr(<<97>>), VDict(<<>>), VDict(<<<<KA, VInt(1)>>>>)}, 2) \cup
              ListsOf({VInt(1), VInt(2), VDict(<<>>), VDict(<<<<KA, VInt(1)>>>>)}, 3) \cup
              {VList(<<VNone, VInt(1), VInt(1), VNone>>), VList(<<VInt(1), VNone, VInt(1), VInt(1)>>)}
ValuesFor(s) == CASE s.t = "list" -> Lists \cup Few \cup Odd
                  [] s.t = "dict" -> Dicts \cup Few \cup Odd
                  [] s.t = "str" -> Strs \cup Few \cup Odd
                  [] s.t = "any" -> Scalars \cup Odd
                  [] s.t = "none" -> Scalars \cup Odd
                  [] s.t = "int" -> Ints \cup Few \cup Odd
                  [] s.t = "float" -> Floats \cup Few \cup Odd
                  [] OTHER -> Scalars \cup Odd

\* the property a call declares is declared already
Declared(s, m) ==
    CASE m = "len" -> HasLen(s)
      [] m = "min" -> s.min # <<>>
      [] m = "max" -> s.max # <<>>
      [] m = "precision" -> s.prec # <<>>
      [] m = "alphabet" -> s.alphabet # <<>>
      [] m = "contains" -> s.substr # <<>>
      [] m = "regex" -> s.pattern # <<>>
      [] m = "" /\ s.t = "list" -> s.elems # <<>> \/ s.type # <<>>
      [] m = "" /\ s.t = "dict" -> s.keys # <<>>
      [] m = "" /\ s.t = "any" -> s.types # <<>>
      [] OTHER -> s.value # <<>>
=============================================================================
