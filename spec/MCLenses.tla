------------------------------ MODULE MCLenses -------------------------------
(* Every small prescription of a lens, objective or system: facts about what     *)
(* they must be, and prescriptions for harness/d_lenses.py to make.              *)
EXTENDS Lenses, TLC, Json
CONSTANT Fine      \* all the combinations, or the main ones
VARIABLE p
(* what is said about the glass of an element: glass, index; the wavelength      *)
Mats == <<[g |-> "N_BK7", n |-> None], [g |-> "", n |-> RQ(3, 2)], [g |-> "N_SF10", n |-> RQ(7, 4)], [g |-> "", n |-> None]>>
Asked == <<None, RQ(6, 10), RI(11)>>
Radii == {RI(50), RI(-40), PInf}
Few == IF Fine THEN Radii ELSE {RI(50), PInf}
Doublets == {[k |-> "doublet", p |-> <<a, t, b, u, d>>, m |-> <<i, j>>, w |-> w, v |-> v] :
               a \in Few, b \in Radii, d \in Few, t \in {RI(6)}, u \in (IF Fine THEN {RI(2), RI(3)} ELSE {RI(2)}),
               i \in 1..4, j \in (IF Fine THEN 1..4 ELSE {2, 3}), w \in 1..3, v \in (IF Fine THEN 1..3 ELSE {1, 2})}
Singlets == {[k |-> "singlet", p |-> <<a, t, b>>, m |-> <<i>>, w |-> w, v |-> v] : a \in Radii, b \in Radii, t \in {RI(6), RI(2)}, i \in 1..4, w \in 1..3, v \in 1..3}
(* f, NA, focus to focus, back aperture, working distance; flips; magnification and field number given or not *)
Objectives == {[k |-> "objective", p |-> <<f, na, RAdd(RMul(RTwo, f), x), RI(5), wd>>, m |-> <<m>>, w |-> w, v |-> 1] :
                 f \in {RI(9), RQ(9, 2)}, na \in {RQ(1, 4), ROne}, x \in {RZero, RI(30)}, wd \in {RI(2), RQ(1, 2)}, m \in 0..3, w \in 1..4}
Systems == {[k |-> "4f", p |-> <<a, b, d, e>>, m |-> <<>>, w |-> 1, v |-> 1] : a \in {RI(50), RI(-40), RI(10)}, b \in {RI(50), RI(-40), RI(10)}, d \in {PInf, RI(25)}, e \in {PInf, RI(25)}}
           \cup {[k |-> "2f", p |-> <<a, d>>, m |-> <<>>, w |-> 1, v |-> 1] : a \in {RI(50), RI(-40), RI(10)}, d \in {PInf, RI(25)}}
(* three surfaces, with glass (4 thick) between them or in contact; flipped w - 1 times *)
Stacks == {[k |-> "stack", p |-> <<a, b, c>>, m |-> <<i, j>>, w |-> w, v |-> 1] : a \in Radii, b \in Radii, c \in Radii, i \in 0..1, j \in 0..1, w \in 1..3}
Init == p \in Stacks \cup Doublets \cup Singlets \cup Objectives \cup Systems /\ PrintT("OUT " \o ToJson(p))
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

(* ---- theorems ------------------------------------------------------------------*)
N1 == RQ(3, 2)
N2x == RQ(7, 4)
Ap == RI(20)
DW(a, b) == Whole(Doublet(p.p[1], p.p[2], p.p[3], p.p[4], p.p[5], a, b, Ap))
SW(a, n, b, t) == Whole(Singlet(a, t, b, n, Ap))
Turned(R) == IF IsInf(R) THEN R ELSE RNeg(R)
SameAs(s, u) == s.A = u.A /\ s.B = u.B /\ s.C = u.C /\ s.D = u.D /\ s.L = u.L
InvR(R) == IF IsInf(R) THEN RZero ELSE RDiv(ROne, R)
(* a cement of the same glass on both sides is no surface *)
OneGlass == p.k = "doublet" => SameAs(DW(N1, N1), SW(p.p[1], N1, p.p[5], RAdd(p.p[2], p.p[4])))
(* turned around it is the lens with the radii in the other order and of the other sign *)
AroundD == p.k = "doublet" => LET s == Reversed(DW(N1, N2x))
                              IN SameAs(s, Whole(Doublet(Turned(p.p[5]), p.p[4], Turned(p.p[3]), p.p[2], Turned(p.p[1]), N2x, N1, Ap)))
AroundS == p.k = "singlet" => SameAs(Reversed(SW(p.p[1], N1, p.p[3], p.p[2])), SW(Turned(p.p[3]), N1, Turned(p.p[1]), p.p[2]))
(* from air to air, and the lensmaker's formula *)
FromAir == p.k \in {"doublet", "singlet"} =>
  LET s == IF p.k = "doublet" THEN DW(N1, N2x) ELSE SW(p.p[1], N1, p.p[3], p.p[2]) IN RSub(RMul(s.A, s.D), RMul(s.B, s.C)) = ROne /\ s.n1 = ROne /\ s.n2 = ROne
Lensmaker == p.k = "singlet" =>
  LET a == InvR(p.p[1])  b == InvR(p.p[3])  m == RSub(N1, ROne)
  IN RNeg(SW(p.p[1], N1, p.p[3], p.p[2]).C) = RMul(m, RAdd(RSub(a, b), RMul(RDiv(RMul(m, p.p[2]), N1), RMul(a, b))))
NoGlassNoLens == p.k = "doublet" => LET s == DW(ROne, ROne) IN RIsZero(s.C) /\ s.B = s.L
(* a lens turned around is optically the reversed lens, has the same surfaces in the other order, *)
(* the last one ending in the medium before the first one, and is itself again when turned again  *)
ST == Stack(p.p, [k \in 1..2 |-> IF p.m[k] = 1 THEN <<RI(4)>> ELSE <<>>], <<N1, N2x>>, Ap)
AroundStack == p.k = "stack" =>
  LET es == ST  ts == TurnedEls(es)  a == SurfaceList(es)  b == SurfaceList(ts)  n == Len(a)
      s == Whole(ts)  u == Reversed(Whole(es))
  IN /\ SameAs(s, u) /\ s.fv = u.fv /\ s.bv = u.bv
     /\ n = 3 /\ Len(b) = 3 /\ b[n].n = ROne /\ RIsZero(b[n].L)
     /\ \A k \in 1..n : IF IsInf(a[n + 1 - k].R) THEN IsInf(b[k].R) ELSE b[k].R = RNeg(a[n + 1 - k].R)
     /\ \A k \in 1..(n - 1) : b[k].n = a[n - k].n /\ b[k].L = a[n - k].L
     /\ SurfaceList(TurnedEls(ts)) = a
     /\ (InContact(es) <=> p.m # <<1, 1>>)
(* an objective focuses at its focal length from either side; the length is the parfocal one *)
Focuses == p.k = "objective" => \A fl \in BOOLEAN :
  LET o == Objective(p.p[1], p.p[2], p.p[3], p.p[4], p.p[5], fl)
  IN /\ RIsZero(o.sum.A) /\ RIsZero(o.sum.D) /\ o.sum.B = p.p[1] /\ RMul(o.sum.C, p.p[1]) = RNeg(ROne) /\ o.sum.L = p.p[3]
     /\ RSub(o.sum.bv, o.sum.fv) = RSub(p.p[3], p.p[5])
     /\ o.els = Backwards(Objective(p.p[1], p.p[2], p.p[3], p.p[4], p.p[5], ~fl).els)
(* a 4f system is a 2f system behind another: afocal, imaging, magnifying by the ratio; a 2f system exchanges places and angles *)
Afocal == p.k = "4f" =>
  LET s == Whole(FourF(p.p[1], p.p[2], p.p[3], p.p[4])) IN
    /\ SameAs(s, SumMul(Whole(TwoF(p.p[2], p.p[4])), Whole(TwoF(p.p[1], p.p[3]))))
    /\ RIsZero(s.B) /\ RIsZero(s.C) /\ RMul(s.A, p.p[1]) = RNeg(p.p[2]) /\ RMul(s.A, s.D) = ROne
Fourier == p.k = "2f" => LET s == Whole(TwoF(p.p[1], p.p[2])) IN RIsZero(s.A) /\ RIsZero(s.D) /\ s.B = p.p[1]
(* mutants *)
LostCement(R1, tc1, R2, tc2, R3, n1, n2, ap) ==
  <<Interface(R1, ROne, n1, ap), Gap(tc1, n1), Interface(R2, ROne, n2, ap), Gap(tc2, n2), Interface(R3, n2, ROne, ap)>>
NearFocus(f, NA, ff, ba, wd) ==     \* the working distance put on the wrong side
  <<Stop(ba, "backAperture"), Gap(f, ROne), Gapless(RSub(ff, RMul(RTwo, f))), ThinLens(f, PInf), Gap(f, ROne),
    Stop(FrontAperture(NA, wd), "frontAperture"), Gap(wd, ROne)>>
SameOrder(es) == [k \in 1..Len(es) |-> FlipLeaf(es[k])]       \* every surface turned, not the lens
=============================================================================
