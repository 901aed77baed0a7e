------------------------------ MODULE Imaging -------------------------------
(* Stops, pupils and fields of an imaging path.                              *)
EXTENDS World

(* planes with an aperture, and how much of it an axial ray of unit slope fills *)
RECURSIVE StopCands(_, _, _)
StopCands(st, leaves, rays) ==
  IF leaves = <<>> THEN <<>>
  ELSE LET e == st.el[Head(leaves)]
           c(r) == [z |-> r.z, d |-> e.ap, fill |-> IF IsInf(e.ap) THEN RZero ELSE RDiv(RAbs(r.y), e.ap)]
       IN (IF RLt(RZero, e.L) THEN <<c(rays[1]), c(rays[2])>> ELSE <<c(rays[2])>>)
          \o StopCands(st, Tail(leaves), Tail(rays))

AxisRay == Ray4(RZero, ROne, RZero, FALSE)
Cands(st, g) == LET f == Flat(st, g) IN StopCands(st, f, FreeRays(st, f, AxisRay))
HasFiniteAperture(st, g) == \E k \in 1..Len(Flat(st, g)) : ~IsInf(st.el[Flat(st, g)[k]].ap)
RECURSIVE MaxFill(_, _)
MaxFill(cs, m) == IF cs = <<>> THEN m ELSE MaxFill(Tail(cs), RMax(m, Head(cs).fill))
(* degenerate: the axial ray is on the axis at every aperture                 *)
Degenerate(st, g) == RLe(MaxFill(Cands(st, g), RZero), RQ(1, 1000000))
(* all planes that fill within 1e-9 of the maximum are acceptable answers      *)
StopSet(st, g) ==
  LET cs == Cands(st, g)  m == MaxFill(cs, RZero)
  IN {cs[k] : k \in {j \in 1..Len(cs) : ~IsInf(cs[j].d) /\ RLe(RMul(m, RSub(ROne, Tol)), cs[j].fill)}}
(* Named deviation: the code does not consider the entrance plane of an        *)
(* element with length (only its exit plane).                                  *)
RECURSIVE ExitCands(_, _, _)
ExitCands(st, leaves, rays) ==
  IF leaves = <<>> THEN <<>>
  ELSE LET e == st.el[Head(leaves)]
       IN <<[z |-> rays[2].z, d |-> e.ap, fill |-> IF IsInf(e.ap) THEN RZero ELSE RDiv(RAbs(rays[2].y), e.ap)]>>
          \o ExitCands(st, Tail(leaves), Tail(rays))
StopSetDeviation(st, g) ==
  LET f == Flat(st, g)  cs == ExitCands(st, f, FreeRays(st, f, AxisRay))  m == MaxFill(cs, RZero)
  IN {cs[k] : k \in {j \in 1..Len(cs) : ~IsInf(cs[j].d) /\ RLe(RMul(m, RSub(ROne, Tol)), cs[j].fill)}}
(* the stop is unambiguous as an optical plane *)
TheStop(st, g) ==
  LET cs == Cands(st, g)  m == MaxFill(cs, RZero)
      k == CHOOSE j \in 1..Len(cs) : cs[j].fill = m /\ \A i \in 1..(j-1) : cs[i].fill # m
  IN cs[k]
Unambiguous(st, g) == \A c \in StopSet(st, g) \cup StopSetDeviation(st, g) : RNear(c.z, TheStop(st, g).z) /\ c.d = TheStop(st, g).d

StopMatrix(st, g) == UpTo(st, g, TheStop(st, g).z).s

(* chief ray from height y; [some, ray] *)
ChiefRay(st, g, y) ==
  LET m == StopMatrix(st, g)
  IN IF ~HasFiniteAperture(st, g) \/ IsImaging(m) THEN [some |-> FALSE, r |-> AxisRay]
     ELSE [some |-> TRUE, r |-> Ray4(y, RNeg(RDiv(RMul(m.A, y), m.B)), RZero, FALSE)]

(* slope of the rays from height y through the edges of the stop *)
MarginalPair(st, g, y) ==
  LET m == StopMatrix(st, g)
      h == RMul(TheStop(st, g).d, RHalf)
      a == RDiv(RSub(h, RMul(m.A, y)), m.B)
      b == RDiv(RSub(RNeg(h), RMul(m.A, y)), m.B)
  IN [up |-> RMax(a, b), down |-> RMin(a, b)]

(* object height at which the chief ray is blocked by each leaf               *)
Thr(x, lim) == IF IsInf(lim) \/ RIsZero(x) THEN PInf ELSE RDiv(lim, RAbs(x))
RECURSIVE Thresholds(_, _, _)
Thresholds(st, leaves, rays) ==
  IF leaves = <<>> THEN <<>>
  ELSE LET e == st.el[Head(leaves)]  r == rays[1]
       IN <<[z |-> r.z, d |-> e.ap, h |-> RMin(Thr(r.y, Half(e.ap)), Thr(r.th, e.na))]>>
          \o Thresholds(st, Tail(leaves), Tail(rays))
UnitChief(st, g) == ChiefRay(st, g, ROne).r
FieldThresholds(st, g) ==
  LET f == Flat(st, g) IN Thresholds(st, f, FreeRays(st, f, UnitChief(st, g)))
RECURSIVE MinH(_, _)
MinH(ts, m) == IF ts = <<>> THEN m ELSE MinH(Tail(ts), RMin(m, Head(ts).h))
HalfField(st, g) == MinH(FieldThresholds(st, g), PInf)

(* the search stops at the documented maximum height *)
MaxHeight == RI(10000)
FieldCase(st, g) ==
  IF ~HasFiniteAperture(st, g) THEN "none"
  ELSE IF Degenerate(st, g) \/ ~Unambiguous(st, g) THEN "skip"
  ELSE IF RIsZero(TheStop(st, g).z) THEN "none"
  ELSE IF IsImaging(StopMatrix(st, g)) THEN "skip"
  ELSE LET h == HalfField(st, g)
       IN IF h = PInf \/ RLt(RMul(RI(4), MaxHeight), h) THEN "none"
          ELSE IF RLt(RMul(RQ(9, 10), MaxHeight), h) \/ RLt(h, RQ(1, 1000)) THEN "skip" ELSE "some"
FieldTol == RQ(1, 100000)
FieldStopSet(st, g) ==
  LET ts == FieldThresholds(st, g)  h == HalfField(st, g)
  IN {ts[k] : k \in {j \in 1..Len(ts) : RLe(ts[j].h, RAdd(h, RMul(FieldTol, RAdd(ROne, h))))}}

(* entrance pupil: position and diameter as seen from in front *)
Pupil(st, g) ==
  LET m == StopMatrix(st, g)
  IN IF RIsZero(m.A) THEN [z |-> NInf, d |-> PInf]
     ELSE [z |-> RDiv(m.B, m.A), d |-> RDiv(TheStop(st, g).d, RAbs(m.A))]

RECURSIVE SinSeries(_, _, _, _)
SinSeries(x2, term, k, acc) ==
  IF k > 41 THEN acc
  ELSE LET t == RNeg(RDiv(RMul(term, x2), RI(k * (k+1)))) IN SinSeries(x2, t, k+2, RAdd(acc, t))
Sin(x) == SinSeries(RSq(x), x, 2, x)
RECURSIVE CosSeries(_, _, _, _)
CosSeries(x2, term, k, acc) ==
  IF k > 40 THEN acc
  ELSE LET t == RNeg(RDiv(RMul(term, x2), RI(k * (k+1)))) IN CosSeries(x2, t, k+2, RAdd(acc, t))
Cos(x) == CosSeries(RSq(x), ROne, 1, ROne)

OptInv(n, r1, r2) == RMul(n, RSub(RMul(r1.th, r2.y), RMul(r1.y, r2.th)))
=============================================================================
