------------------------------ MODULE MCGlasses ------------------------------
(* The tables are consistent: each dispersion formula gives the published      *)
(* index at the d line and the published Abbe number, names are unambiguous,   *)
(* every part of the catalogue has the focal lengths it states.                *)
EXTENDS Lenses, TLC
VARIABLES k, kind
Root(a, g) == LET h == RMul(RHalf, RAdd(g, RDiv(a, g))) IN RMul(RHalf, RAdd(h, RDiv(a, h)))   \* Newton, from a good guess
d == RQ(5875618, 10000000)
F == RQ(4861327, 10000000)
C == RQ(6562725, 10000000)
Idx(g, x) == IF g = AirNo THEN ROne ELSE Root(N2(g, x), GlassTable[g].nd)

Init == \/ kind = "glass" /\ k \in 1..Len(Glasses)
        \/ kind = "part" /\ k \in 1..Len(Catalogue)
Next == UNCHANGED <<k, kind>>

FormulaGivesIndex == kind = "glass" => RLe(RAbs(RSub(Idx(k, d), GlassTable[k].nd)), RQ(1, 100000))
FormulaGivesAbbe == (kind = "glass" /\ k # AirNo) =>
  RLe(RAbs(RSub(RDiv(RSub(Idx(k, d), ROne), RSub(Idx(k, F), Idx(k, C))), GlassTable[k].V)), RQ(2, 100))
(* in the visible every glass is transparent and normally dispersive *)
Transparent == (kind = "glass" /\ k # AirNo) =>
  \A j \in 4..7 : RLt(N2(k, RQ(j + 1, 10)), N2(k, RQ(j, 10))) /\ RLt(ROne, N2(k, RQ(j + 1, 10)))
NamesUnambiguous == kind = "glass" =>
  /\ Find(Glasses[k].name) = k /\ Find(Printed[k]) = k /\ Find(Plain(Glasses[k].name)) = k
  /\ k \in Matches(Idx(k, d), d, RQ(1, 1000000))

PartIndex(c) == [j \in 1..Len(c.mats) |-> IF c.mats[j][1] = "" THEN Dec(c.mats[j][2]) ELSE Idx(ByName(c.mats[j][1]), Dec(c.w))]
FocalLengths == (kind = "part" /\ Catalogue[k].k # "objective") =>
  LET c == Catalogue[k]  s == Whole(PartElements(c, PartIndex(c)))
  IN Within5(EFL(s).f2, Num(c, 1)) /\ Within5(BFL(s), Num(c, 2))
PartsUnambiguous == kind = "part" => Part(Catalogue[k].name) = k
(* every objective has its focal length, from focal plane to focal plane, both ways round *)
ObjectiveFocuses == (kind = "part" /\ Catalogue[k].k = "objective") =>
  \A fl \in BOOLEAN :
    LET c == Catalogue[k]  o == Objective(Num(c, 1), Num(c, 2), Num(c, 3), Num(c, 4), Num(c, 5), fl)
    IN /\ RIsZero(o.sum.A) /\ RIsZero(o.sum.D) /\ o.sum.B = Num(c, 1) /\ RMul(o.sum.C, Num(c, 1)) = RNeg(ROne)
       /\ o.sum.L = Num(c, 3)
=============================================================================
