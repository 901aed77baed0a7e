------------------------------- MODULE Optics -------------------------------
(* Paraxial optics over exact rationals: what one element, a product of     *)
(* elements, a ray or a beam IS.  Pure operators, no state.                 *)
(*                                                                          *)
(* A leaf element is a record                                               *)
(*   [k, p, L, fv, bv, n1, n2, ap, na, label, flip]                         *)
(* k : kind, p : parameters of the kind,                                    *)
(*   matrix <<A,B,C,D>>  lens <<f>>  mirror <<R>>  space <<d>>              *)
(*   di <<n1,n2,R>>  thick <<n,R1,R2>>  slab <<n>>  aperture <<>>           *)
(*   axicon <<n,alpha>>                                                     *)
(* A summary ("Sum") is the ABCD matrix with length, vertices, indices.     *)
EXTENDS BigRat, FiniteSets

RInv(a) == IF IsInf(a) THEN RZero ELSE RDiv(ROne, a)   \* 1/R, R may be infinite
IsNone(a) == a[1] = 4

Abcd(A, B, C, D) == [A |-> A, B |-> B, C |-> C, D |-> D]

ThickAbcd(n, R1, R2, t) ==
  LET u == RSub(ROne, n)             \* 1 - n
      v == RSub(n, ROne)             \* n - 1
      i1 == RInv(R1)
      i2 == RInv(R2)
      tn == RDiv(t, n)
  IN Abcd(RAdd(RMul(RMul(tn, u), i1), ROne),
          tn,
          RNeg(RMul(v, RAdd(RSub(i1, i2), RMul(RMul(tn, v), RMul(i1, i2))))),
          RAdd(RMul(RMul(tn, v), i2), ROne))

DiAbcd(n1, n2, R) ==
  Abcd(ROne, RZero, RNeg(RMul(RDiv(RSub(n2, n1), n2), RInv(R))), RDiv(n1, n2))

MatOf(e) ==
  CASE e.k = "matrix" -> Abcd(e.p[1], e.p[2], e.p[3], e.p[4])
    [] e.k = "lens"   -> Abcd(ROne, RZero, RNeg(RInv(e.p[1])), ROne)
    [] e.k = "mirror" -> Abcd(ROne, RZero, RMul(RTwo, RInv(e.p[1])), ROne)
    [] e.k = "space"  -> Abcd(ROne, e.p[1], RZero, ROne)
    [] e.k = "di"     -> DiAbcd(e.p[1], e.p[2], e.p[3])
    [] e.k = "thick"  -> ThickAbcd(e.p[1], e.p[2], e.p[3], e.L)
    [] e.k = "slab"   -> ThickAbcd(e.p[1], PInf, PInf, e.L)
    [] OTHER          -> Abcd(ROne, RZero, RZero, ROne)

MkSum(m, L, fv, bv, n1, n2) ==
  [A |-> m.A, B |-> m.B, C |-> m.C, D |-> m.D, L |-> L, fv |-> fv, bv |-> bv, n1 |-> n1, n2 |-> n2]
SumOf(e) == MkSum(MatOf(e), e.L, e.fv, e.bv, e.n1, e.n2)
IdSum == MkSum(Abcd(ROne, RZero, RZero, ROne), RZero, None, None, ROne, ROne)
SpaceSum(d, n) == MkSum(Abcd(ROne, d, RZero, ROne), d, None, None, n, n)

Det(s) == RSub(RMul(s.A, s.D), RMul(s.B, s.C))
IsIdentity(s) == s.A = ROne /\ s.D = ROne /\ RIsZero(s.B) /\ RIsZero(s.C)

AbcdMul(l, r) == Abcd(RAdd(RMul(l.A, r.A), RMul(l.B, r.C)), RAdd(RMul(l.A, r.B), RMul(l.B, r.D)),
                      RAdd(RMul(l.C, r.A), RMul(l.D, r.C)), RAdd(RMul(l.C, r.B), RMul(l.D, r.D)))

(* l applied after r.  An identity matrix carries no index of refraction.   *)
SumMul(l, r) ==
  MkSum(AbcdMul(l, r), RAdd(l.L, r.L),
        IF IsNone(r.fv) /\ ~IsNone(l.fv) THEN RAdd(r.L, l.fv) ELSE r.fv,
        IF ~IsNone(l.bv) THEN RAdd(r.L, l.bv) ELSE r.bv,
        IF IsIdentity(l) THEN r.n1 ELSE IF IsIdentity(r) THEN l.n1 ELSE r.n1,
        IF IsIdentity(l) THEN r.n2 ELSE IF IsIdentity(r) THEN l.n2 ELSE l.n2)

(* ------------------------------ constructors -----------------------------*)
Leaf(k, p, L, fv, bv, n1, n2, ap, na, label) ==
  [k |-> k, p |-> p, L |-> L, fv |-> fv, bv |-> bv, n1 |-> n1, n2 |-> n2,
   ap |-> ap, na |-> na, label |-> label, flip |-> FALSE]

(* What a constructor call yields: c = [k, p, L, fv, bv, n1, n2, ap, na, label] *)
(* where L, fv, bv, n1, n2 only matter for kinds that take them             *)
Construct(c) ==
  CASE c.k = "matrix"   -> Leaf(c.k, c.p, c.L, c.fv, c.bv, c.n1, c.n2, c.ap, c.na, c.label)
    [] c.k = "lens"     -> Leaf(c.k, c.p, RZero, RZero, RZero, ROne, ROne, c.ap, PInf, c.label)
    [] c.k = "mirror"   -> Leaf(c.k, c.p, RZero, RZero, RZero, ROne, ROne, c.ap, PInf, c.label)
    [] c.k = "space"    -> Leaf(c.k, c.p, c.p[1], None, None, c.n1, c.n1, c.ap, PInf, c.label)
    [] c.k = "di"       -> Leaf(c.k, c.p, RZero, RZero, RZero, c.p[1], c.p[2], c.ap, PInf, c.label)
    [] c.k = "thick"    -> Leaf(c.k, c.p, c.L, RZero, c.L, ROne, ROne, c.ap, PInf, c.label)
    [] c.k = "slab"     -> Leaf(c.k, c.p, c.L, RZero, c.L, ROne, ROne, c.ap, PInf, c.label)
    [] c.k = "aperture" -> Leaf(c.k, c.p, RZero, None, None, ROne, ROne, c.ap, c.na, c.label)
    [] c.k = "axicon"   -> Leaf(c.k, c.p, RZero, None, None, ROne, ROne, c.ap, PInf, c.label)

Eps == RQ(1, 100000)
(* a constructor refuses non-positive apertures and matrices whose           *)
(* determinant contradicts the indices                                      *)
CtorRefuses(c) ==
  \/ RLe(c.ap, RZero) \/ RLe(c.na, RZero)
  \/ LET s == SumOf(Construct(c)) IN RLt(Eps, RAbs(RSub(Det(s), RDiv(s.n1, s.n2))))

(* ------------------------------ turning around ----------------------------*)
Mirror(v, L) == IF IsNone(v) THEN v ELSE RSub(L, v)
FlipLeaf(e) ==
  LET f == [e EXCEPT !.flip = ~e.flip, !.n1 = e.n2, !.n2 = e.n1,
                     !.fv = Mirror(e.bv, e.L), !.bv = Mirror(e.fv, e.L)]
  IN CASE e.k = "mirror" -> [f EXCEPT !.p = <<RNeg(e.p[1])>>]
       [] e.k = "di"     -> [f EXCEPT !.p = <<e.p[2], e.p[1], RNeg(e.p[3])>>]
       [] e.k = "thick"  -> [f EXCEPT !.p = <<e.p[1], RNeg(e.p[3]), RNeg(e.p[2])>>]
       [] e.k = "matrix" -> LET d == Det(SumOf(e))
                            IN [f EXCEPT !.p = <<RDiv(e.p[4], d), RDiv(e.p[2], d), RDiv(e.p[3], d), RDiv(e.p[1], d)>>]
       [] OTHER          -> f

(* the same optics seen from the other side: M -> [D B; C A] / det          *)
Reversed(s) ==
  LET d == Det(s) IN
  MkSum(Abcd(RDiv(s.D, d), RDiv(s.B, d), RDiv(s.C, d), RDiv(s.A, d)), s.L,
        Mirror(s.bv, s.L), Mirror(s.fv, s.L), s.n2, s.n1)

(* ------------------------------ rays -------------------------------------*)
(* ray = [y, th, z, bl]                                                      *)
Ray4(y, th, z, bl) == [y |-> y, th |-> th, z |-> z, bl |-> bl]
Half(d) == IF IsInf(d) THEN d ELSE RMul(d, RHalf)
(* the aperture test at the entrance of an element: the edge is transmitted *)
Exceeds(r, e) == RLt(Half(e.ap), RAbs(r.y)) \/ RLt(e.na, RAbs(r.th))
Deviation(e) == RMul(RSub(e.p[1], ROne), e.p[2])
ThroughLeaf(e, r) ==
  IF r.bl THEN r
  ELSE LET m  == MatOf(e)
           th == RAdd(RMul(m.C, r.y), RMul(m.D, r.th))
           th2 == IF e.k = "axicon"
                  THEN (IF r.y[1] = 1 THEN RSub(th, Deviation(e))
                        ELSE IF r.y[1] = -1 THEN RAdd(th, Deviation(e)) ELSE th)
                  ELSE th
       IN Ray4(RAdd(RMul(m.A, r.y), RMul(m.B, r.th)), th2, RAdd(r.z, e.L), Exceeds(r, e))

(* A ray that misses the entrance of an element with length is stopped      *)
(* there and stays there.  For a thin element entrance and exit coincide:    *)
(* the angle recorded with the blocked ray is the one after the element.     *)
EntryBlocked(e, r) == ~r.bl /\ RLt(RZero, e.L) /\ Exceeds(r, e)

(* records of the trace through one leaf *)
LeafTrace(e, r) ==
  IF RLt(RZero, e.L)
  THEN LET r1 == IF EntryBlocked(e, r) THEN [r EXCEPT !.bl = TRUE] ELSE r
       IN  <<r1, ThroughLeaf(e, r1)>>
  ELSE <<ThroughLeaf(e, r)>>

(* comparisons too close to call for a double precision implementation      *)
Close(a, b) == ~IsInf(b) /\ RLe(RAbs(RSub(a, b)), RMul(Tol, RAdd(ROne, RAbs(b))))
Marginal(e, r) == ~r.bl /\ (Close(RAbs(r.y), Half(e.ap)) \/ Close(RAbs(r.th), e.na)
                            \/ (e.k = "axicon" /\ Close(r.y, RZero) /\ ~RIsZero(r.y)))

(* ------------------------------ first order properties -------------------*)
HasPower(s) == RLt(Eps, RAbs(s.C))
IsImaging(s) == RLt(RAbs(s.B), Eps)
(* values on which a comparison with the threshold Eps is too close to call *)
NearEps(x) == RLe(RAbs(RSub(RAbs(x), Eps)), RMul(Tol, RI(10)))

EFL(s) == IF HasPower(s)
          THEN [f1 |-> RNeg(RDiv(RDiv(s.n1, s.n2), s.C)), f2 |-> RNeg(RDiv(ROne, s.C))]
          ELSE [f1 |-> PInf, f2 |-> PInf]
PP(s, z) == IF HasPower(s)
            THEN [z1 |-> RSub(z, RDiv(RSub(RDiv(s.n1, s.n2), s.D), s.C)),
                  z2 |-> RAdd(RAdd(z, s.L), RDiv(RSub(ROne, s.A), s.C))]
            ELSE [z1 |-> None, z2 |-> None]
Foci(s, z) == IF HasPower(s)
              THEN [z1 |-> RSub(PP(s, z).z1, EFL(s).f1), z2 |-> RAdd(PP(s, z).z2, EFL(s).f2)]
              ELSE [z1 |-> None, z2 |-> None]
BFL(s) == IF ~IsNone(s.bv) /\ HasPower(s) THEN RSub(Foci(s, RZero).z2, s.bv) ELSE None
FFL(s) == IF ~IsNone(s.fv) /\ HasPower(s) THEN RSub(s.fv, Foci(s, RZero).z1) ELSE None

(* conjugates: [d, m] with m a summary or the marker "none"                  *)
FwdConj(s) == IF RIsZero(s.D) THEN [d |-> PInf, some |-> FALSE, m |-> IdSum]
              ELSE LET d == RNeg(RDiv(s.B, s.D))
                   IN [d |-> d, some |-> TRUE, m |-> SumMul(SpaceSum(d, s.n2), s)]
BwdConj(s) == IF RIsZero(s.A) THEN [d |-> PInf, some |-> FALSE, m |-> IdSum]
              ELSE LET d == RNeg(RDiv(s.B, s.A))
                   IN [d |-> d, some |-> TRUE, m |-> SumMul(s, SpaceSum(d, s.n1))]

(* ------------------------------ Gaussian beams ---------------------------*)
(* beam = [re, im, z, n, lam, clip], q = re + i im                           *)
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CAbs2(a) == RAdd(RSq(a[1]), RSq(a[2]))
CDiv(a, b) == LET d == CAbs2(b)
              IN <<RDiv(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), d),
                   RDiv(RSub(RMul(a[2], b[1]), RMul(a[1], b[2])), d)>>
CScale(k, a) == <<RMul(k, a[1]), RMul(k, a[2])>>
(* pi to 44 decimals *)
Pi == RDiv(<<1, <<6939, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>, One1>>,
           <<1, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, One1>>)

QThrough(s, q) == CDiv(CAdd(CScale(s.A, q), <<s.B, RZero>>), CAdd(CScale(s.C, q), <<s.D, RZero>>))
(* squared beam size from q: w^2 = lam |q|^2 / (pi n im q) *)
W2(q, lam, n) == RDiv(RMul(lam, CAbs2(q)), RMul(RMul(Pi, n), q[2]))
=============================================================================
