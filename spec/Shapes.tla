------------------------------- MODULE Shapes --------------------------------
(* How surfaces and lenses are drawn: through their vertices on the axis, up to *)
(* the rim, to within the width of the lines.                                    *)
EXTENDS Optics

NearDraw(o, x) == IsFin(o) /\ RLe(RAbs(RSub(o, x)), RAdd(RQ(11, 1000), RMul(RQ(1, 1000000), RAbs(x))))
(* a surface of radius R drawn from the axis at v up to height h ends at x *)
Sagged(x, v, R, h) ==
  LET s == RSub(x, v)
  IN IF IsInf(R) THEN NearDraw(x, v)
     ELSE IF RLe(RAbs(R), h) THEN NearDraw(x, RAdd(v, R))
     ELSE \* s^2 - 2 R s + h^2 = 0, the root next to the axis
          /\ RLe(RQ(-11, 1000), RMul(s, RI(R[1]))) /\ RLe(RAbs(s), RAdd(RAbs(R), RQ(11, 1000)))
          \* (to within the width of the bars that show the rim)
          /\ RLe(RAbs(RAdd(RSub(RSq(s), RMul(RTwo, RMul(R, s))), RSq(h))),
                 RAdd(RMul(RQ(1, 10000000), RSq(R)), RMul(RQ(22, 1000), RAbs(R))))

(* the surfaces of a sequence of elements, with where they are *)
Interfaces(es) == {k \in 1..Len(es) : es[k].k = "di"}
RECURSIVE LengthTo(_, _)
LengthTo(es, k) == IF k <= 1 THEN RZero ELSE RAdd(LengthTo(es, k - 1), es[k - 1].L)
NextInterface(es, k) == CHOOSE j \in Interfaces(es) : j > k /\ \A i \in Interfaces(es) : i > k => j <= i
ThickAfter(es, k) == IF \E j \in Interfaces(es) : j > k THEN RSub(LengthTo(es, NextInterface(es, k)), LengthTo(es, k)) ELSE RZero
(* as a list of radius, index behind, distance to the next *)
RECURSIVE SurfacesFrom(_, _)
SurfacesFrom(es, k) ==
  IF k > Len(es) THEN <<>>
  ELSE (IF es[k].k = "di" THEN <<[R |-> es[k].p[3], n |-> es[k].n2, L |-> ThickAfter(es, k)]>> ELSE <<>>) \o SurfacesFrom(es, k + 1)
SurfaceList(es) == SurfacesFrom(es, 1)
InContact(es) == \E k \in Interfaces(es) : (\E j \in Interfaces(es) : j > k) /\ RIsZero(ThickAfter(es, k))
(* the lens seen from the other side *)
TurnedEls(es) == [k \in 1..Len(es) |-> FlipLeaf(es[Len(es) + 1 - k])]

(* o: [h, all, rims]: height, crossings of the axis, ends of the surfaces; lens of height h at z *)
DrawnLens(o, es, z, h) ==
  LET v(k) == RAdd(z, LengthTo(es, k))
  IN /\ RNear(o.h, h)
     /\ \A k \in Interfaces(es) : (\E j \in 1..Len(o.all) : NearDraw(o.all[j], v(k))) /\ (\E j \in 1..Len(o.rims) : Sagged(o.rims[j], v(k), es[k].p[3], h))
     /\ \A j \in 1..Len(o.all) : \E k \in Interfaces(es) : NearDraw(o.all[j], v(k))
     /\ \A j \in 1..Len(o.rims) : \E k \in Interfaces(es) : Sagged(o.rims[j], v(k), es[k].p[3], h)
(* an objective: from its back aperture at zb, along a barrel up to the shoulder zs, to its front aperture at zf *)
DrawnBarrel(o, zb, hb, zs, zf, hf) ==
  LET ends == (IF RLe(hf, hb) THEN {zb, zs} ELSE {}) \cup (IF RLe(hb, hf) THEN {zf} ELSE {})
  IN /\ RNear(o.h, IF RLe(hf, hb) THEN hb ELSE hf)
     /\ \A x \in {zb, zf} : \E j \in 1..Len(o.all) : NearDraw(o.all[j], x)
     /\ \A j \in 1..Len(o.all) : NearDraw(o.all[j], zb) \/ NearDraw(o.all[j], zf)
     /\ \A x \in ends : \E j \in 1..Len(o.rims) : NearDraw(o.rims[j], x)
     /\ \A j \in 1..Len(o.rims) : \E x \in ends : NearDraw(o.rims[j], x)
=============================================================================
