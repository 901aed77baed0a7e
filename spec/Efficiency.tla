----------------------------- MODULE Efficiency -----------------------------
(* Where the light of a source goes, in terms of the invariants of its rays    *)
(* with the axial and principal rays (the efficiency report).  A ray r of the   *)
(* object is a*principal + b*axial; its invariants with the two are b and a     *)
(* times the Lagrange invariant of the path.                                    *)
EXTENDS Imaging

(* [some, p, a, n, lagr]: principal and axial rays, front index, Lagrange invariant *)
Reference(st, g) ==
  LET c == FieldCase(st, g)  n == Derived(st, Items(st, g)).n1
  IN IF c # "some" THEN [case |-> c, p |-> AxisRay, a |-> AxisRay, n |-> n]
     ELSE [case |-> c, p |-> ChiefRay(st, g, HalfField(st, g)).r, n |-> n,
           a |-> Ray4(RZero, MarginalPair(st, g, RZero).up, RZero, FALSE)]

Coeff(n, x, y, lagr) == RDiv(OptInv(n, x, y), lagr)
InvB(n, p, a, r) == Coeff(n, r, p, RAbs(OptInv(n, a, p)))      \* how much of the axial ray
InvA(n, p, a, r) == Coeff(n, a, r, RAbs(OptInv(n, a, p)))      \* how much of the principal ray
OutsideB(n, p, a, r) == RLt(ROne, RAbs(InvB(n, p, a, r)))
OutsideA(n, p, a, r) == RLt(ROne, RAbs(InvA(n, p, a, r)))
OnEdge(x) == RLe(RAbs(RSub(RAbs(x), ROne)), RQ(1, 10000000))

(* "lost": cannot get through, whatever the apertures between the stops;        *)
(* otherwise it is transmitted, or "vignetted" by one of those apertures         *)
Fate(st, g, p, a, r) ==
  LET n == Derived(st, Items(st, g)).n1
  IN IF OutsideB(n, p, a, r) \/ OutsideA(n, p, a, r) THEN "lost"
     ELSE IF Through(st, g, r).bl THEN "vignetted" ELSE "through"
FateUnsure(st, g, p, a, r, exact) ==
  LET n == Derived(st, Items(st, g)).n1 IN OnEdge(InvB(n, p, a, r)) \/ OnEdge(InvA(n, p, a, r)) \/ (~exact /\ TooClose(st, Flat(st, g), r))
=============================================================================
