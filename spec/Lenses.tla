------------------------------- MODULE Lenses -------------------------------
(* Glasses and how they are found; what a lens, an objective, a system or a   *)
(* lens file describes, as a sequence of optical elements.                    *)
EXTENDS Shapes, Glasses, Catalogue

(* ------------------------------ tables -------------------------------------*)
RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN ROne ELSE IF e > 0 THEN RMul(RI(10), Pow10(e - 1)) ELSE RDiv(Pow10(e + 1), RI(10))
Dec(d) == RMul(RI(d[1]), Pow10(d[2]))
NoNum == <<9, 99>>
DecOr(d, x) == IF d = NoNum THEN x ELSE Dec(d)

(* ------------------------------ glasses ------------------------------------*)
RECURSIVE RPow(_, _)
RPow(x, p) == IF p = 0 THEN ROne ELSE IF p > 0 THEN RMul(x, RPow(x, p - 1)) ELSE RDiv(RPow(x, p + 1), x)

Coefs(g) == [name |-> g.name, V |-> Dec(g.V), nd |-> Dec(g.nd), c0 |-> Dec(g.c0),
             s |-> [k \in 1..Len(g.s) |-> <<Dec(g.s[k][1]), IF g.s[k][3] = 2 THEN RSq(Dec(g.s[k][2])) ELSE Dec(g.s[k][2])>>],
             p |-> [k \in 1..Len(g.p) |-> <<Dec(g.p[k][1]), g.p[k][2]>>]]
GlassTable == [k \in 1..Len(Glasses) |-> Coefs(Glasses[k])]
GlassNames == {Glasses[k].name : k \in 1..Len(Glasses)}
AirNo == CHOOSE k \in 1..Len(Glasses) : Glasses[k].name = "Air"

(* square of the index of glass number g at the wavelength x *)
N2(g, x) ==
  LET m == GlassTable[g]
  IN RAdd(m.c0, RAdd(RSumSeq([k \in 1..Len(m.s) |-> RDiv(m.s[k][1], RSub(ROne, RDiv(m.s[k][2], RSq(x))))]),
                     RSumSeq([k \in 1..Len(m.p) |-> RMul(m.p[k][1], RPow(x, m.p[k][2]))])))
MinWave == RQ(1, 100)
MaxWave == RI(10)
WaveOk(x) == RLe(MinWave, x) /\ RLe(x, MaxWave)
IndexIs(n, g, x) == IsFin(n) /\ RLt(RZero, n) /\ RNear(RSq(n), N2(g, x))

(* names: case, dashes and underscores do not matter *)
Lower == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j",
          K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t",
          U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Low(ch) == IF ch \in DOMAIN Lower THEN Lower[ch] ELSE ch
RECURSIVE Plain(_)
Plain(s) == IF s = "" THEN "" ELSE
  LET ch == SubSeq(s, 1, 1) IN (IF ch \in {"-", "_"} THEN "" ELSE Low(ch)) \o Plain(SubSeq(s, 2, Len(s)))
RECURSIVE Dashed(_)
Dashed(s) == IF s = "" THEN "" ELSE
  LET ch == SubSeq(s, 1, 1) IN (IF ch = "_" THEN "-" ELSE ch) \o Dashed(SubSeq(s, 2, Len(s)))
PlainNames == [k \in 1..Len(Glasses) |-> Plain(Glasses[k].name)]
Printed == [k \in 1..Len(Glasses) |-> Dashed(Glasses[k].name)]
(* number of the glass with that name, 0 if there is none; no name is air *)
Find(name) == LET q == Plain(name)
              IN IF \E k \in 1..Len(Glasses) : PlainNames[k] = q THEN CHOOSE k \in 1..Len(Glasses) : PlainNames[k] = q ELSE 0
FindOrAir(name) == IF name = "" THEN AirNo ELSE Find(name)
ByName(nm) == CHOOSE k \in 1..Len(Glasses) : Glasses[k].name = nm

(* by index: strictly closer than the tolerance.  |n - m| < tol, on the squares *)
Slack == RQ(1, 1000000000)
Closer(n, m2, tol) ==
  /\ RLt(RZero, m2)
  /\ RLt(m2, RSq(RAdd(n, tol)))
  /\ (RLe(n, tol) \/ RLt(RSq(RSub(n, tol)), m2))
  /\ RLt(RZero, tol)
Matches(n, x, tol) == {k \in 1..Len(Glasses) : Closer(n, N2(k, x), tol)}

(* ------------------------------ elements -----------------------------------*)
Interface(R, n1, n2, ap) == Leaf("di", <<n1, n2, R>>, RZero, RZero, RZero, n1, n2, ap, PInf, "")
Gap(d, n) == Leaf("space", <<d>>, d, None, None, n, n, PInf, PInf, "")
ThinLens(f, ap) == Leaf("lens", <<f>>, RZero, RZero, RZero, ROne, ROne, ap, PInf, "")
Stop(ap, label) == Leaf("aperture", <<>>, RZero, None, None, ROne, ROne, ap, PInf, label)
Gapless(L) == Leaf("matrix", <<ROne, RZero, RZero, ROne>>, L, None, None, ROne, ROne, PInf, PInf, "")

RECURSIVE SumList(_, _)
SumList(els, s) == IF els = <<>> THEN s ELSE SumList(Tail(els), SumMul(SumOf(Head(els)), s))
Whole(els) == IF els = <<>> THEN IdSum ELSE SumList(Tail(els), SumOf(Head(els)))

Doublet(R1, tc1, R2, tc2, R3, n1, n2, ap) ==
  <<Interface(R1, ROne, n1, ap), Gap(tc1, n1), Interface(R2, n1, n2, ap), Gap(tc2, n2), Interface(R3, n2, ROne, ap)>>
Singlet(R1, tc, R2, n, ap) ==
  <<Interface(R1, ROne, n, ap), Gap(tc, n), Interface(R2, n, ROne, ap)>>

(* surfaces of radii rs in media ns, a number of spaces between them *)
RECURSIVE StackFrom(_, _, _, _, _)
StackFrom(rs, ts, ns, ap, k) ==
  LET n(j) == IF j = 1 \/ j > Len(ns) + 1 THEN ROne ELSE ns[j - 1]
      gaps == IF k > Len(ts) THEN <<>> ELSE [j \in 1..Len(ts[k]) |-> Gap(ts[k][j], n(k + 1))]
  IN IF k > Len(rs) THEN <<>> ELSE <<Interface(rs[k], n(k), n(k + 1), ap)>> \o gaps \o StackFrom(rs, ts, ns, ap, k + 1)
Stack(rs, ts, ns, ap) == StackFrom(rs, ts, ns, ap, 1)

(* back focal plane at the entrance, front focal plane a working distance after the front aperture *)
FrontAperture(NA, wd) == RMul(RTwo, RMul(NA, wd))
ObjElements(f, NA, ff, ba, wd) ==
  <<Stop(ba, "backAperture"), Gap(f, ROne), Gapless(RSub(ff, RMul(RTwo, f))), ThinLens(f, PInf), Gap(RSub(f, wd), ROne),
    Stop(FrontAperture(NA, wd), "frontAperture"), Gap(wd, ROne)>>
Backwards(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Objective(f, NA, ff, ba, wd, flipped) ==
  LET els == ObjElements(f, NA, ff, ba, wd)
      seq == IF flipped THEN Backwards(els) ELSE els
  IN [els |-> seq,
      sum |-> [Whole(seq) EXCEPT !.fv = IF flipped THEN wd ELSE RZero, !.bv = IF flipped THEN ff ELSE RSub(ff, wd)]]

FourF(f1, f2, d1, d2) ==
  <<Gap(f1, ROne), ThinLens(f1, d1), Gap(f1, ROne), Gap(f2, ROne), ThinLens(f2, d2), Gap(f2, ROne)>>
TwoF(f, d) == <<Gap(f, ROne), ThinLens(f, d), Gap(f, ROne)>>

(* ------------------------------ lens files ---------------------------------*)
(* file: [unit, waves, surfs]; a surface is [no, c, hd, g, z]: curvature, half  *)
(* diameter (None: not given), name of the glass ("": none) and distance to    *)
(* the next one                                                                *)
Factor(unit) == CASE unit = "IN" -> RQ(254, 10) [] unit = "CM" -> RI(10) [] unit = "METER" -> RI(1000) [] OTHER -> ROne
Useless == RQ(55, 100)
RECURSIVE Waves(_)
Waves(ws) == IF Len(ws) > 1 /\ ws[Len(ws)] = Useless THEN Waves(SubSeq(ws, 1, Len(ws) - 1)) ELSE ws
DesignWave(ws) == LET v == Waves(ws) IN v[Len(v) \div 2 + 1]

FileOk(f) == \A k \in 1..Len(f.surfs) : FindOrAir(f.surfs[k].g) # 0
Surf(f, k) ==
  LET s == f.surfs[k]  u == Factor(f.unit)
  IN [no |-> k - 1, R |-> IF RIsZero(s.c) THEN PInf ELSE RDiv(u, s.c),
      ap |-> IF IsNone(s.hd) THEN PInf ELSE RMul(RMul(RTwo, s.hd), u),
      g |-> FindOrAir(s.g), d |-> IF IsInf(s.z) THEN s.z ELSE RMul(s.z, u)]
Surfs(f) == [k \in 1..Len(f.surfs) |-> Surf(f, k)]
(* from the first surface of glass to the surface where it ends *)
LensSurfs(f) ==
  LET ss == Surfs(f)
      glass == {k \in 1..Len(ss) : ss[k].g # AirNo}
  IN IF glass = {} THEN <<>>
     ELSE LET a == CHOOSE k \in glass : \A j \in glass : k <= j
              ends == {k \in 1..Len(ss) : k > a /\ ss[k].g = AirNo}
              b == IF ends = {} THEN Len(ss) ELSE CHOOSE k \in ends : \A j \in ends : k <= j
          IN SubSeq(ss, a, b)
RECURSIVE Build(_, _, _)
Build(ss, ns, n) ==      \* ns: index of the glass behind every surface, n: index in front of the first one
  IF ss = <<>> THEN <<>>
  ELSE <<Interface(Head(ss).R, n, Head(ns), Head(ss).ap)>>
       \o (IF Head(ss).g = AirNo THEN <<>> ELSE <<Gap(Head(ss).d, Head(ns))>>)
       \o Build(Tail(ss), Tail(ns), Head(ns))
FileElements(f, ns) == Build(LensSurfs(f), ns, ROne)

(* ------------------------------ catalogue ----------------------------------*)
PartNames == {Catalogue[k].name : k \in 1..Len(Catalogue)}
Part(nm) == CHOOSE k \in 1..Len(Catalogue) : Catalogue[k].name = nm
Num(c, i) == DecOr(c.p[i], PInf)
NumN(c, i) == DecOr(c.p[i], None)
PartElements(c, ns) ==
  CASE c.k = "doublet" -> Doublet(Num(c, 5), Num(c, 6), Num(c, 7), Num(c, 8), Num(c, 9), ns[1], ns[2], Num(c, 3))
    [] c.k = "singlet" -> Singlet(Num(c, 5), Num(c, 6), Num(c, 7), ns[1], Num(c, 3))
Percent5 == RQ(5, 100)
Within5(o, stated) == IsFin(o) /\ RLe(RAbs(RSub(o, stated)), RMul(Percent5, RAbs(stated)))
=============================================================================
