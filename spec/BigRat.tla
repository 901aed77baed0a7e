------------------------------- MODULE BigRat -------------------------------
(* Exact rational numbers for the specification.  TLC integers are 32 bit,  *)
(* so numerators and denominators are little-endian sequences of base 10000 *)
(* limbs.  A number is <<s, n, d>>: s = -1, 0, 1 is the sign, n/d the       *)
(* normalised magnitude.  Special values have the same shape so that every  *)
(* observation can be compared without a type error:                        *)
(*    s = 2 : +infinity     s = -2 : -infinity    s = 3 : not a number      *)
(*    s = 4 : "None"        s = 5 : anything that is not a number           *)
(* The P... operators are the definitions.  The R... operators are the ones *)
(* used everywhere; the Java class vf.BigRatOverrides evaluates them with    *)
(* java.math.BigInteger, and MCBigRat.tla checks that both agree.           *)
EXTENDS Integers, Sequences

Base == 10000

(* ---------------- natural numbers ---------------------------------------*)
RECURSIVE NTrim(_)
NTrim(s) == IF s = <<>> THEN <<>>
            ELSE IF s[Len(s)] = 0 THEN NTrim(SubSeq(s, 1, Len(s)-1)) ELSE s

NDig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE NAddC(_, _, _, _)
NAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == NDig(a, i) + NDig(b, i) + c
       IN  <<t % Base>> \o NAddC(a, b, i+1, t \div Base)
NAdd(a, b) == NAddC(a, b, 1, 0)

RECURSIVE NSubB(_, _, _, _)
NSubB(a, b, i, c) ==        \* requires a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - NDig(b, i) - c
       IN  <<t % Base>> \o NSubB(a, b, i+1, IF t < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubB(a, b, 1, 0))

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i-1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NMulD(_, _, _, _)
NMulD(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET t == a[i] * k + c IN <<t % Base>> \o NMulD(a, k, i+1, t \div Base)
RECURSIVE NMul(_, _)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE NTrim(NAdd(NMulD(a, Head(b), 1, 0), <<0>> \o NMul(a, Tail(b))))

(* largest q in lo..hi with d*q <= r *)
RECURSIVE NQDigit(_, _, _, _)
NQDigit(r, d, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF NCmp(NTrim(NMulD(d, m, 1, 0)), r) <= 0 THEN NQDigit(r, d, m, hi) ELSE NQDigit(r, d, lo, m-1)

RECURSIVE NDivStep(_, _, _, _, _)
NDivStep(a, d, i, q, r) ==
  IF i = 0 THEN <<NTrim(q), r>>
  ELSE LET r1 == NTrim(<<a[i]>> \o r)
           k  == NQDigit(r1, d, 0, Base-1)
       IN  NDivStep(a, d, i-1, <<k>> \o q, NSub(r1, NTrim(NMulD(d, k, 1, 0))))
NDivMod(a, d) == NDivStep(a, d, Len(a), <<>>, <<>>)

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])

(* ---------------- rationals ----------------------------------------------*)
One1 == <<1>>
RZero == <<0, <<>>, One1>>
PInf == <<2, <<>>, <<>>>>
NInf == <<-2, <<>>, <<>>>>
NaN  == <<3, <<>>, <<>>>>
None == <<4, <<>>, <<>>>>

IsFin(a) == a[1] \in {-1, 0, 1}
IsInf(a) == a[1] \in {-2, 2}

PNorm(s, n, d) ==
  IF n = <<>> THEN RZero
  ELSE LET g == NGcd(n, d) IN <<s, NDivMod(n, g)[1], NDivMod(d, g)[1]>>

PMul(a, b) == IF IsFin(a) /\ IsFin(b) THEN PNorm(a[1]*b[1], NMul(a[2], b[2]), NMul(a[3], b[3])) ELSE NaN
PDiv(a, b) == IF IsFin(a) /\ IsFin(b) /\ b[1] # 0
              THEN PNorm(a[1]*b[1], NMul(a[2], b[3]), NMul(a[3], b[2]))
              ELSE NaN
PAdd(a, b) ==
  IF ~(IsFin(a) /\ IsFin(b)) THEN NaN
  ELSE LET x == NMul(a[2], b[3])
           y == NMul(b[2], a[3])
           d == NMul(a[3], b[3])
       IN IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
          ELSE IF a[1] = b[1] THEN PNorm(a[1], NAdd(x, y), d)
          ELSE LET c == NCmp(x, y)
               IN  IF c = 0 THEN RZero
                   ELSE IF c > 0 THEN PNorm(a[1], NSub(x, y), d) ELSE PNorm(b[1], NSub(y, x), d)
(* total order on finite values and infinities *)
PCmp(a, b) ==
  IF IsInf(a) \/ IsInf(b)
  THEN IF a = b THEN 0 ELSE IF a = PInf \/ b = NInf THEN 1 ELSE -1
  ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE a[1] * NCmp(NMul(a[2], b[3]), NMul(b[2], a[3]))

PFloor(a) == \* floor of a non-negative rational, as a rational
  IF a[1] = 0 THEN RZero
  ELSE LET q == NDivMod(a[2], a[3])[1] IN IF q = <<>> THEN RZero ELSE <<1, q, One1>>

RAdd(a, b) == PAdd(a, b)
RMul(a, b) == PMul(a, b)
RDiv(a, b) == PDiv(a, b)
RCmp(a, b) == PCmp(a, b)
RFloorPos(a) == PFloor(a)

(* ---------------- derived ------------------------------------------------*)
RNeg(a) == IF a[1] \in {-1, 0, 1, -2, 2} THEN <<-a[1], a[2], a[3]>> ELSE a
RSub(a, b) == RAdd(a, RNeg(b))
RAbs(a) == IF a[1] \in {-1, -2} THEN <<-a[1], a[2], a[3]>> ELSE a
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE IntLimbs(_)
IntLimbs(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o IntLimbs(k \div Base)
RI(k) == IF k = 0 THEN RZero ELSE IF k > 0 THEN <<1, IntLimbs(k), One1>> ELSE <<-1, IntLimbs(-k), One1>>
RQ(k, m) == RDiv(RI(k), RI(m))
ROne == <<1, One1, One1>>
RTwo == <<1, <<2>>, One1>>
RHalf == <<1, One1, <<2>>>>
RSq(a) == RMul(a, a)
RIsZero(a) == a[1] = 0

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

(* 1e-9: tolerance of the comparison between the exact specification and a   *)
(* double precision implementation                                           *)
Tol == <<1, One1, <<0, 0, 10>>>>

(* |o - e| <= tol * (1 + |e|) ; special values must be identical             *)
RNearT(o, e, tol) ==
  IF IsFin(o) /\ IsFin(e)
  THEN RLe(RAbs(RSub(o, e)), RMul(tol, RAdd(ROne, RAbs(e))))
  ELSE o[1] = e[1]
RNear(o, e) == RNearT(o, e, Tol)
(* with an explicit scale: |o - e| <= Tol * (1 + |e| + scale) *)
RNearS(o, e, scale) ==
  IF IsFin(o) /\ IsFin(e)
  THEN RLe(RAbs(RSub(o, e)), RMul(Tol, RAdd(RAdd(ROne, RAbs(scale)), RAbs(e))))
  ELSE o[1] = e[1]
=============================================================================
