------------------------------ MODULE LensTrace ------------------------------
(* Conformance of recorded observations of glasses, lenses and lens files.     *)
EXTENDS Lenses, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES tr, pos, over
vars == <<tr, pos, over>>

Cl(cond, props, what) == IF cond THEN {} ELSE {<<p, what>> : p \in props}

(* ---- elements as observed: [A, B, C, D, L, n1, n2, ap] ---------------------*)
SameEl(o, e) ==
  LET m == MatOf(e)
  IN /\ RNear(o.A, m.A) /\ RNear(o.B, m.B) /\ RNear(o.C, m.C) /\ RNear(o.D, m.D)
     /\ RNear(o.L, e.L) /\ RNear(o.n1, e.n1) /\ RNear(o.n2, e.n2) /\ RNear(o.ap, e.ap)
SameEls(os, es) == Len(os) = Len(es) /\ \A k \in 1..Len(es) : SameEl(os[k], es[k])
SameMat(o, s) == RNear(o.A, s.A) /\ RNear(o.B, s.B) /\ RNear(o.C, s.C) /\ RNear(o.D, s.D) /\ RNear(o.L, s.L)
SameSum(o, s) == SameMat(o, s) /\ RNear(o.fv, s.fv) /\ RNear(o.bv, s.bv)
FocalOk(o, s) == NearEps(s.C) \/ (RNear(o.f1, EFL(s).f1) /\ RNear(o.f2, EFL(s).f2) /\ RNear(o.bfl, BFL(s)) /\ RNear(o.ffl, FFL(s)))

(* ---- the index of a medium: a glass at a wavelength, or a given number -----*)
(* m = [g, n]: name of the glass or "", given index; ws: wavelengths asked for *)
Wave(e) == IF IsNone(e.w) THEN e.wref ELSE e.w
Defined(m, w) == (m.g # "" /\ ~IsNone(w)) \/ ~IsNone(m.n)
MediumOk(n, m, w) == IF m.g # "" /\ ~IsNone(w) THEN IndexIs(n, ByName(m.g), w) ELSE RNear(n, m.n)
Glassy(m, w) == m.g # "" /\ ~IsNone(w)

(* glasses only count when all are given *)
Media(e) == IF \E k \in 1..Len(e.mats) : e.mats[k].g = "" THEN [k \in 1..Len(e.mats) |-> [g |-> "", n |-> e.mats[k].n]] ELSE e.mats
CompoundRefused(e) ==
  LET ms == Media(e) IN \/ \E k \in 1..Len(ms) : ~Defined(ms[k], Wave(e))
                        \/ \E k \in 1..Len(ms) : Glassy(ms[k], Wave(e)) /\ ~WaveOk(Wave(e))
(* ---- the list of surfaces and the drawing of a lens ------------------------*)
SurfsOk(os, es) == LET x == SurfaceList(es) IN Len(os) = Len(x) /\ \A k \in 1..Len(x) : RNear(os[k][1], x[k].R) /\ RNear(os[k][2], x[k].n) /\ RNear(os[k][3], x[k].L)
LooksOf(e, es0, es, h) ==
  Cl(e.sok /\ SurfsOk(e.surfs, es), {"C24"}, "list of surfaces")
  \cup Cl(e.sok => SurfsOk(e.fsurfs, es0), {"C24"}, "list of surfaces before it is flipped")
  \cup (IF InContact(es) THEN {} ELSE Cl(e.dok /\ DrawnLens(e.drawn, es, e.z, h), {"C25", "C24"}, "drawing of the lens"))
(* a lens of no power has no focal points to mark *)
Marked(e, s) ==
  IF Len(e.poi) = 0 THEN NearEps(s.C) \/ ~HasPower(s)
  ELSE IF Len(e.poi) # 2 THEN FALSE
  ELSE /\ e.poi[1].label = "$F_f$" /\ e.poi[2].label = "$F_b$"
       /\ IF NearEps(s.C) THEN TRUE ELSE IF ~HasPower(s) THEN FALSE ELSE RNear(e.poi[1].z, Foci(s, e.z).z1) /\ RNear(e.poi[2].z, Foci(s, e.z).z2)
StackStep(e) ==
  IF ~e.ok THEN Cl(FALSE, {"C24"}, "lens refused")
  ELSE LET es0 == Stack(e.rs, e.ts, e.ns, e.ap)
           es == IF e.flipped THEN TurnedEls(es0) ELSE es0
           s == Whole(es)
       IN Cl(SameEls(e.els, es), {"C24"}, "surfaces and spaces of the prescription")
          \cup Cl(SameSum(e.sum, s), {"C24"}, "the lens as a whole")
          \cup Cl(FocalOk(e.foc, s), {"C24"}, "focal lengths")
          \cup LooksOf(e, es0, es, Half(e.ap))
          \cup Cl(Marked(e, s), {"C24"}, "marked focal points")

CompoundStep(e) ==
  IF CompoundRefused(e) THEN Cl(~e.ok, {"C24"}, "lens without a glass")
  ELSE IF ~e.ok THEN Cl(FALSE, {"C24"}, "lens refused")
  ELSE LET ms == Media(e)
           es0 == IF Len(ms) = 2 THEN Doublet(e.p[1], e.p[2], e.p[3], e.p[4], e.p[5], e.ns[1], e.ns[2], e.ap)
                  ELSE Singlet(e.p[1], e.p[2], e.p[3], e.ns[1], e.ap)
           es == IF e.flipped THEN TurnedEls(es0) ELSE es0
           s == Whole(es)
       IN Cl(\A k \in 1..Len(ms) : MediumOk(e.ns[k], ms[k], Wave(e)), {"C24"}, "index of the material")
          \cup Cl(SameEls(e.els, es), {"C24"}, "surfaces and spaces of the prescription")
          \cup Cl(SameSum(e.sum, s), {"C24"}, "the lens as a whole")
          \cup Cl(FocalOk(e.foc, s), {"C24"}, "focal lengths")
          \cup LooksOf(e, es0, es, Half(e.ap))
          \cup Cl(e.label = e.olabel /\ RNear(e.dfl, e.f) /\ RNear(e.odiam, e.ap), {"C24"}, "label, design focal length, diameter")
          \cup Cl(Marked(e, s), {"C24"}, "marked focal points")

PartStep(e) ==
  IF e.name \notin PartNames THEN {}
  ELSE LET c == Catalogue[Part(e.name)] IN
  IF c.k = "objective" THEN {<<"C00", "objective as a lens">>}
  ELSE LET w == IF IsNone(e.w) THEN DecOr(c.w, None) ELSE e.w
           ms == [k \in 1..Len(c.mats) |-> [g |-> c.mats[k][1], n |-> DecOr(c.mats[k][2], None)]]
       IN IF ~IsNone(w) /\ ~WaveOk(w) /\ \E k \in 1..Len(ms) : ms[k].g # "" THEN Cl(~e.ok, {"C24"}, "wavelength out of range")
          ELSE IF ~e.ok THEN Cl(FALSE, {"C24"}, "part cannot be created")
          ELSE LET es0 == PartElements(c, e.ns)
                   es == IF e.flipped THEN TurnedEls(es0) ELSE es0
                   s == Whole(es)
               IN Cl(\A k \in 1..Len(ms) : MediumOk(e.ns[k], ms[k], w), {"C24"}, "index of the material")
                  \cup Cl(SameEls(e.els, es), {"C24"}, "prescription of the part")
                  \cup Cl(SameSum(e.sum, s) /\ FocalOk(e.foc, s), {"C24"}, "the part as a whole")
                  \cup LooksOf(e, es0, es, Half(es[1].ap))
                  \cup Cl(e.label = c.label, {"C24"}, "label of the part")
                  \cup Cl(RNear(e.fa, Num(c, 1)) /\ RNear(e.fb, Num(c, 2)) /\ RNear(e.dfl, Num(c, 1)), {"C24"}, "stated focal lengths")
                  \cup (IF IsNone(e.w) /\ ~e.flipped THEN Cl(Within5(e.foc.f2, e.fa) /\ Within5(e.foc.bfl, e.fb), {"C24"}, "focal lengths far from those stated") ELSE {})

ObjStep(e) ==
  IF ~e.ok THEN Cl(FALSE, {"C24"}, "objective refused")
  ELSE LET known == e.name \in PartNames
           c == IF known THEN Catalogue[Part(e.name)] ELSE [p |-> <<>>]
           q == IF known THEN [k \in 1..7 |-> NumN(c, k)] ELSE e.p
           b == Objective(q[1], q[2], q[3], q[4], q[5], e.flipped)
           noinv == IsNone(q[6]) \/ IsNone(q[7])
           zb == IF e.flipped THEN RAdd(e.z, q[3]) ELSE e.z       \* back focal plane
           zf == IF e.flipped THEN e.z ELSE RAdd(e.z, q[3])
           at(d) == IF e.flipped THEN RSub(zb, d) ELSE RAdd(zb, d)     \* a distance from the back focal plane
           hb == Half(q[4])
           hf == Half(FrontAperture(q[2], q[5]))
       IN Cl(SameEls(e.els, b.els), {"C24"}, "elements of the objective")
          \cup Cl(SameSum(e.sum, b.sum), {"C24"}, "the objective as a whole")
          \cup Cl(FocalOk(e.foc, b.sum), {"C24"}, "focal length of the objective")
          \cup Cl(RNear(e.front, FrontAperture(q[2], q[5])) /\ RNear(e.back, q[4]), {"C24"}, "apertures of the objective")
          \cup Cl(e.dok /\ DrawnBarrel(e.drawn, zb, hb, at(RSub(q[3], RDiv(hb, q[2]))), at(RSub(q[3], q[5])), hf), {"C25", "C24"}, "drawing of the objective")
          \cup Cl(IF noinv THEN ~e.invok ELSE e.invok /\ RNear(e.inv, RMul(RDiv(RMul(q[7], RHalf), q[6]), q[2])), {"C24"}, "maximum optical invariant")
          \cup Cl(e.label = (IF known THEN c.label ELSE e.name), {"C24"}, "label of the objective")
          \cup Cl(Len(e.poi) = 2 /\ \A k \in 1..2 : \/ (e.poi[k].label = "$F_b$" /\ RNear(e.poi[k].z, zb))
                                                   \/ (e.poi[k].label = "$F_f$" /\ RNear(e.poi[k].z, zf)), {"C24"}, "marked focal points")

SystemStep(e) ==
  IF ~e.ok THEN Cl(FALSE, {"C24"}, "system refused")
  ELSE LET es == IF e.kind = "4f" THEN FourF(e.p[1], e.p[2], e.p[3], e.p[4]) ELSE TwoF(e.p[1], e.p[2])
           s == Whole(es)
       IN Cl(SameEls(e.els, es) /\ SameMat(e.sum, s), {"C24"}, "elements of the system")
          \cup Cl(IF e.kind = "4f" THEN RNear(e.sum.C, RZero) /\ RNear(e.sum.B, RZero) /\ RNear(e.sum.A, RNeg(RDiv(e.p[2], e.p[1])))
                  ELSE RNear(e.sum.A, RZero) /\ RNear(e.sum.D, RZero) /\ RNear(e.sum.B, e.p[1]), {"C24"}, "afocal, or Fourier transforming")

ShiftStep(e) ==   \* focal shifts of a catalogue lens; ns: indices of its glasses at each wavelength
  LET c == Catalogue[Part(e.name)]
      ok == \A k \in 1..Len(e.ws) : \A j \in 1..Len(c.mats) : c.mats[j][1] # "" => IndexIs(e.ns[k][j], ByName(c.mats[j][1]), e.ws[k])
      sh(k) == RSub(EFL(Whole(PartElements(c, e.ns[k]))).f2, Num(c, 1))
  IN Cl(ok, {"C24", "C29"}, "index of the material")
     \cup Cl(e.ok /\ Len(e.obs) = Len(e.ws) /\ Len(e.xs) = Len(e.ws)
             /\ \A k \in 1..Len(e.ws) : RNear(e.xs[k], RMul(e.ws[k], RI(1000))) /\ RNearS(e.obs[k], sh(k), Num(c, 1)), {"C24"}, "focal shifts")

PartsStep(e) ==   \* what the package offers
  Cl(\A nm \in PartNames : \E k \in 1..Len(e.names) : e.names[k] = nm, {"C24"}, "a part is missing")

(* ---- glasses ---------------------------------------------------------------*)
FindStep(e) ==
  LET g == IF e.none THEN AirNo ELSE Find(e.name)
  IN IF g = 0 THEN Cl(~e.ok, {"C28"}, "unknown glass accepted")
     ELSE Cl(e.ok, {"C28"}, "glass not found")
          \cup (IF e.ok THEN Cl(e.printed = Printed[g], {"C28"}, "another glass, or another name, reported")
                             \cup Cl(\A k \in 1..Len(e.xs) : IndexIs(e.ns[k], g, e.xs[k]), {"C28", "C29"}, "index of the glass found") ELSE {})
AllStep(e) ==
  Cl({e.names[k] : k \in 1..Len(e.names)} = GlassNames, {"C28"}, "list of the materials")
IndexStep(e) ==
  IF ~WaveOk(e.x) THEN Cl(~e.ok, {"C28"}, "wavelength out of range accepted")
  ELSE IF ~e.ok THEN Cl(FALSE, {"C28"}, "search by index refused")
  ELSE LET sure == Matches(e.n, e.x, RSub(e.tol, Slack))
           may == Matches(e.n, e.x, RAdd(e.tol, Slack))
           got == {FindOrAir(e.obs[k].name) : k \in 1..Len(e.obs)}
       IN Cl(sure \subseteq got /\ got \subseteq may, {"C28"}, "materials of that index")
          \cup Cl(\A k \in 1..Len(e.obs) : LET g == Find(e.obs[k].name) IN g # 0 => IndexIs(e.obs[k].n, g, e.x), {"C28"}, "index reported by the search")
          \cup Cl(\A k \in 1..Len(e.obs) : LET g == Find(e.obs[k].name) IN g # 0 => RNear(e.obs[k].V, GlassTable[g].V), {"C28"}, "Abbe number reported by the search")
GlassStep(e) ==
  LET g == ByName(e.name)
  IN IF ~WaveOk(e.x) THEN Cl(~e.ok, {"C28"}, "wavelength out of range accepted")
     ELSE Cl(e.ok, {"C28"}, "wavelength in the range refused")
          \cup (IF e.ok /\ e.judge THEN Cl(IndexIs(e.n, g, e.x), {"C29"}, "index of the glass") ELSE {})
          \cup Cl(RNear(e.V, GlassTable[g].V) /\ RNear(e.Vd, GlassTable[g].V), {"C29", "C28"}, "Abbe number")

(* ---- lens files ------------------------------------------------------------*)
(* observed surface: [no, R, ap, d, g] with the printed name of its material *)
SameSurf(o, s) == o.no = s.no /\ RNear(o.R, s.R) /\ RNear(o.ap, s.ap) /\ RNear(o.d, s.d) /\ o.g = Printed[s.g]
SameSurfs(os, ss) == Len(os) = Len(ss) /\ \A k \in 1..Len(ss) : SameSurf(os[k], ss[k])
Cent == RQ(6, 1000)
Rounded(o, x) == IF IsFin(x) THEN IsFin(o) /\ RLe(RAbs(RSub(o, x)), Cent) ELSE o[1] = x[1]
RowOk(o, s) == Rounded(o.R, s.R) /\ Rounded(o.d, s.d) /\ Rounded(o.ap, s.ap) /\ o.g = Printed[s.g]
FileStep(e) ==
  LET f == e.file  w == DesignWave(f.waves) IN
  Cl(e.opened, {"C23"}, "file not read")
  \cup (IF ~e.opened THEN {}
        ELSE Cl(LET ws == Waves(f.waves) IN Len(e.waves) = Len(ws) /\ (\A k \in 1..Len(ws) : RNear(e.waves[k], ws[k])) /\ RNear(e.dw, w), {"C23"}, "design wavelength")
             \cup IF ~FileOk(f) THEN Cl(~e.ok, {"C23"}, "unknown glass accepted")
                  ELSE IF ~e.ok THEN Cl(FALSE, {"C23"}, "lens not read")
                  ELSE LET ls == LensSurfs(f)
                           es == IF Len(e.ns) = Len(ls) THEN FileElements(f, e.ns) ELSE <<>>
                       IN Cl(SameSurfs(e.surfs, Surfs(f)), {"C23"}, "surfaces of the file")
                          \cup Cl(SameSurfs(e.lens, ls), {"C23"}, "surfaces of the lens")
                          \cup Cl(Len(e.ns) = Len(ls) /\ \A k \in 1..Len(ls) : IndexIs(e.ns[k], ls[k].g, w), {"C23"}, "index at the design wavelength")
                          \cup Cl(SameEls(e.els, es), {"C23"}, "interfaces and spaces of the lens")
                          \cup Cl(SameMat(e.sum, Whole(es)), {"C23"}, "the lens as a whole")
                          \cup Cl(Len(e.rows) = Len(ls) /\ \A k \in 1..Len(ls) : RowOk(e.rows[k], ls[k]), {"C23"}, "printed prescription"))

Judge(e) ==
  CASE e.op = "crash" -> {<<"C00", e.what>>}
    [] e.op = "compound" -> CompoundStep(e)
    [] e.op = "stack" -> StackStep(e)
    [] e.op = "part" -> PartStep(e)
    [] e.op = "objective" -> ObjStep(e)
    [] e.op = "system" -> SystemStep(e)
    [] e.op = "shifts" -> ShiftStep(e)
    [] e.op = "parts" -> PartsStep(e)
    [] e.op = "find" -> FindStep(e)
    [] e.op = "all" -> AllStep(e)
    [] e.op = "index" -> IndexStep(e)
    [] e.op = "glass" -> GlassStep(e)
    [] e.op = "file" -> FileStep(e)

Init == tr \in 1..N /\ pos = 1 /\ over = FALSE
Next == /\ ~over /\ pos <= Len(Traces[tr].ev)
        /\ LET v == Judge(Traces[tr].ev[pos])
               wanted == IF IOEnv.PROP = "*" THEN Traces[tr].prop ELSE IOEnv.PROP
               stop == \E c \in v : c[1] = wanted \/ c[1] = "C00"
           IN /\ over' = stop
              /\ IF stop THEN PrintT("REJECT " \o ToJson(<<tr, pos, v>>)) ELSE TRUE
        /\ pos' = pos + 1 /\ tr' = tr
=============================================================================
