-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact dyadic rationals: every Python int and every finite Python float  *)
(* is one.  TLC integers are 32 bit, so a number is                        *)
(*      <<sign, top, digits>>                                              *)
(* with sign in {-1,0,1}, digits a big-endian sequence of base-2^15 limbs  *)
(* whose first and last elements are non-zero, and value                   *)
(*      sign * SUM digits[i] * 2^(15*(top-i)).                             *)
(* The form is canonical, so numeric equality is structural equality.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

NBase == 32768
NZero == <<0, 0, <<>>>>

NMax(a, b) == IF a >= b THEN a ELSE b
NMin(a, b) == IF a <= b THEN a ELSE b

RECURSIVE NLex(_, _, _)
NLex(d, e, i) ==
    IF i > Len(d) THEN (IF i > Len(e) THEN 0 ELSE -1)
    ELSE IF i > Len(e) THEN 1
    ELSE IF d[i] < e[i] THEN -1
    ELSE IF d[i] > e[i] THEN 1
    ELSE NLex(d, e, i + 1)

\* compare magnitudes of two non-zero numbers
NMag(a, b) == IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
              ELSE NLex(a[3], b[3], 1)

NCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0
              ELSE a[1] * NMag(a, b)

NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NAbs(a)   == IF a[1] < 0 THEN <<1, a[2], a[3]>> ELSE a
NNeg(a)   == <<-a[1], a[2], a[3]>>

\* digit of weight 2^(15*w) (w = top - i)
NDigit(a, w) == LET i == a[2] - w IN
                IF i < 1 \/ i > Len(a[3]) THEN 0 ELSE a[3][i]

NBot(a) == a[2] - Len(a[3])       \* weight of the least significant limb

\* strip leading/trailing zero limbs of a big-endian limb sequence whose
\* first limb has weight top-1
RECURSIVE NFirstNZ(_, _)
NFirstNZ(d, i) == IF i > Len(d) THEN 0 ELSE IF d[i] # 0 THEN i ELSE NFirstNZ(d, i + 1)
RECURSIVE NLastNZ(_, _)
NLastNZ(d, i) == IF i < 1 THEN 0 ELSE IF d[i] # 0 THEN i ELSE NLastNZ(d, i - 1)

NNorm(s, top, d) ==
    LET f == NFirstNZ(d, 1) IN
    IF f = 0 THEN NZero
    ELSE <<s, top - (f - 1), SubSeq(d, f, NLastNZ(d, Len(d)))>>

\* |a| - |b| for |a| >= |b|, both non-zero: limbs little-endian accumulation
RECURSIVE NSubAcc(_, _, _, _, _, _)
NSubAcc(a, b, w, hi, borrow, acc) ==
    IF w > hi THEN acc
    ELSE LET x == NDigit(a, w) - NDigit(b, w) - borrow
             y == IF x < 0 THEN x + NBase ELSE x
         IN NSubAcc(a, b, w + 1, hi, IF x < 0 THEN 1 ELSE 0, <<y>> \o acc)
NSubMag(a, b) ==
    LET lo == NMin(NBot(a), NBot(b))
        hi == NMax(a[2], b[2]) - 1
    IN NNorm(1, hi + 1, NSubAcc(a, b, lo, hi, 0, <<>>))

RECURSIVE NAddAcc(_, _, _, _, _, _)
NAddAcc(a, b, w, hi, carry, acc) ==
    IF w > hi THEN <<carry>> \o acc
    ELSE LET x == NDigit(a, w) + NDigit(b, w) + carry
         IN NAddAcc(a, b, w + 1, hi, x \div NBase, <<x % NBase>> \o acc)
NAddMag(a, b) ==
    LET lo == NMin(NBot(a), NBot(b))
        hi == NMax(a[2], b[2]) - 1
    IN NNorm(1, hi + 2, NAddAcc(a, b, lo, hi, 0, <<>>))

NSub(a, b) ==
    IF b[1] = 0 THEN a
    ELSE IF a[1] = 0 THEN NNeg(b)
    ELSE IF a[1] # b[1] THEN LET m == NAddMag(a, b) IN <<a[1], m[2], m[3]>>
    ELSE LET c == NMag(a, b) IN
         IF c = 0 THEN NZero
         ELSE IF c > 0 THEN LET m == NSubMag(a, b) IN <<a[1], m[2], m[3]>>
         ELSE LET m == NSubMag(b, a) IN <<-a[1], m[2], m[3]>>
NAdd(a, b) == NSub(a, NNeg(b))

\* multiplication by a small natural number k < 2^15
RECURSIVE NMulAcc(_, _, _, _, _)
NMulAcc(d, k, i, carry, acc) ==
    IF i < 1 THEN <<carry>> \o acc
    ELSE LET x == d[i] * k + carry
         IN NMulAcc(d, k, i - 1, x \div NBase, <<x % NBase>> \o acc)
NMul(a, k) == IF a[1] = 0 \/ k = 0 THEN NZero
              ELSE NNorm(a[1], a[2] + 1, NMulAcc(a[3], k, Len(a[3]), 0, <<>>))

RECURSIVE NMulPow10(_, _)
NMulPow10(a, p) == IF p <= 0 THEN a
                   ELSE IF p >= 4 THEN NMulPow10(NMul(a, 10000), p - 4)
                   ELSE NMulPow10(NMul(a, 10), p - 1)

NOfInt(n) == IF n = 0 THEN NZero
             ELSE LET m == IF n < 0 THEN -n ELSE n
                      s == IF n < 0 THEN -1 ELSE 1
                  IN NNorm(s, 3, <<m \div (NBase * NBase), (m \div NBase) % NBase, m % NBase>>)

\* floor of |a| as a number, and the fractional part
NIntPart(a) == \* towards zero
    IF a[2] <= 0 THEN NZero
    ELSE NNorm(a[1], a[2], SubSeq(a[3], 1, NMin(a[2], Len(a[3]))))
NFrac(a) == NSub(a, NIntPart(a))

NHalf == <<1, 0, <<16384>>>>
NOne  == <<1, 1, <<1>>>>
NIsOdd(a) == a[1] # 0 /\ NDigit(a, 0) % 2 = 1     \* a an integer

\* Python's round() of a rational: half to even
NRound(a) ==
    LET m == NAbs(a)
        ip == NIntPart(m)
        fr == NSub(m, ip)
        c == NCmp(fr, NHalf)
        r == IF c > 0 \/ (c = 0 /\ NIsOdd(ip)) THEN NAdd(ip, NOne) ELSE ip
    IN IF r[1] = 0 THEN NZero ELSE <<a[1], r[2], r[3]>>

\* math.isclose with its default relative tolerance 1e-9, exactly
NClose(a, b) ==
    \/ a = b
    \/ /\ a[1] = b[1]
       /\ a[2] - b[2] \in {-1, 0, 1}
       /\ NLe(NMulPow10(NAbs(NSub(a, b)), 9),
              IF NLe(NAbs(a), NAbs(b)) THEN NAbs(b) ELSE NAbs(a))
\* pairs whose closeness depends on float rounding (relative distance within
\* 1e-6 of the tolerance itself) or on subnormal spacing
NCloseGrey(a, b) ==
    /\ a # b /\ a[1] = b[1] /\ a[1] # 0
    /\ a[2] - b[2] \in {-1, 0, 1}
    /\ LET d == NMulPow10(NAbs(NSub(a, b)), 9)
           m == IF NLe(NAbs(a), NAbs(b)) THEN NAbs(b) ELSE NAbs(a)
           e == NAbs(NSub(d, m))
       IN \/ NLe(NMulPow10(e, 6), m)
          \/ m[2] <= -65

\* equality on the decimal grid 10^-p, as rounding to p digits decides it
NGridEq(a, b, p) == a = b \/ NRound(NMulPow10(a, p)) = NRound(NMulPow10(b, p))
\* a*10^p is so near a rounding boundary, or so large, that the binary
\* rounding of the product may decide
NGridGrey1(a, p) ==
    LET x == NAbs(NMulPow10(a, p))
        d == NAbs(NSub(NFrac(x), NHalf))
    IN \/ x[2] > 4                                        \* |x| >= 2^60
       \/ x[2] = 4 /\ x[3][1] >= 16                     \* |x| >= 2^49
       \/ NLe(NMulPow10(d, 12), NAdd(x, NOne))
NGridGrey(a, b, p) == a # b /\ (NGridGrey1(a, p) \/ NGridGrey1(b, p))
=============================================================================
