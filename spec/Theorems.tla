------------------------------ MODULE Theorems ------------------------------
(* What must be true of every state of the system: facts of optics that the   *)
(* definitions of World, Imaging and Optics have to reproduce.  Checked by     *)
(* TLC on everything MCWorld reaches.                                          *)
EXTENDS Ops

(* the groups inside still are what their last edit made them *)
RECURSIVE Current(_, _)
Current(st, g) == \A i \in Range(Items(st, g)) : IsGroup(st, i) => st.el[i].sum = Derived(st, Items(st, i)) /\ Current(st, i)
Groups(st) == {i \in 1..Len(st.el) : IsGroup(st, i) /\ Items(st, i) # <<>> /\ Consistent(st, i) /\ Current(st, i)}
SameAbcd(a, b) == a.A = b.A /\ a.B = b.B /\ a.C = b.C /\ a.D = b.D
M(st, g) == Derived(st, Items(st, g))
OpenAp(st) == [st EXCEPT !.el = [k \in 1..Len(st.el) |-> IF IsGroup(st, k) THEN st.el[k] ELSE NoAp(st.el[k])]]
Basis == {Ray4(ROne, RZero, RZero, FALSE), Ray4(RZero, ROne, RZero, FALSE), Ray4(RI(-2), RQ(1, 4), RZero, FALSE)}
(* light goes through (seen from behind, a concave mirror is a convex one) *)
Refracting(st, g) == \A k \in Range(Flat(st, g)) : st.el[k].k # "mirror"
(* no element of the group can be reached in two ways *)
Distinct(st, g) == Len(Flat(st, g)) = Cardinality(Range(Flat(st, g)))
                   /\ Len(Reach(st, Items(st, g), <<>>)) = Cardinality(Range(Reach(st, Items(st, g), <<>>)))

(* ---- composition ------------------------------------------------------------*)
TraceIsProduct(st) ==
  \A g \in Groups(st) : \A r \in Basis :
    LET x == Through(OpenAp(st), g, r)  y == MulRay(M(st, g), r)
    IN x.y = y.y /\ x.th = y.th /\ x.z = y.z
FlatIsNested(st) ==     \* one after the other, however they are grouped
  \A g \in Groups(st) : \A r \in Basis :
    LET f == FreeRays(st, Flat(st, g), r)  x == Through(OpenAp(st), g, r) IN f[Len(f)] = x
DetIsIndexRatio(st) ==
  \A g \in Groups(st) : LET s == M(st, g) IN Det(s) = RDiv(s.n1, s.n2)
InvariantKept(st) ==    \* the optical invariant is the same on both sides
  \A g \in Groups(st) : \A r \in Basis : \A q \in Basis :
    LET s == M(st, g) IN OptInv(s.n1, r, q) = OptInv(s.n2, MulRay(s, r), MulRay(s, q))
LengthsAdd(st) ==
  \A g \in Groups(st) : LET f == FreeRays(st, Flat(st, g), AxisRay) IN f[Len(f)].z = M(st, g).L

(* ---- partial propagation -------------------------------------------------------*)
WholeIsUpTo(st) == \A g \in Groups(st) : LET x == UpTo(st, g, M(st, g).L) IN x.ok /\ SameAbcd(x.s, M(st, g)) /\ SameAbcd(UpTo(st, g, PInf).s, M(st, g))
Cuts == {RI(1), RI(3), RQ(9, 2), RI(7)}
CutIsWhole(st) ==
  \A g \in Groups(st) : \A z \in Cuts :
    LET f == SubPath(st, g, z, FALSE)  b == SubPath(st, g, z, TRUE)  u == UpTo(st, g, z)
    IN f.ok => /\ b.ok /\ u.ok
               /\ SameAbcd(SumMul(M(f.st, Len(f.st.el)), u.s), M(st, g))      \* the rest completes the path
               /\ M(f.st, Len(f.st.el)).L = RSub(M(st, g).L, z)
               /\ (Refracting(st, g) => SameAbcd(M(b.st, Len(b.st.el)), Reversed(u.s)))              \* going back retraces the beginning
               /\ M(b.st, Len(b.st.el)).L = z

(* ---- turning around --------------------------------------------------------------*)
FlipReverses(st) ==
  \A g \in Groups(st) : Refracting(st, g) =>
    LET f == Flip(st, g)  x == M(f.st, g)  y == Reversed(M(st, g))
    IN f.ok => SameAbcd(x, y) /\ x.L = y.L /\ x.n1 = y.n1 /\ x.n2 = y.n2 /\ x.fv = y.fv /\ x.bv = y.bv
Unsummed(st) == [st EXCEPT !.el = [k \in 1..Len(st.el) |-> IF IsGroup(st, k) THEN [st.el[k] EXCEPT !.sum = IdSum] ELSE st.el[k]]]
(* leaves never remember a medium that is not theirs: spaces take that of their place *)
FlipTwice(st) ==
  \A g \in Groups(st) :
    LET f == Flip(st, g)  h == Flip(f.st, g)
    IN f.ok => h.ok /\ Unsummed(h.st) = Unsummed(st)
LightGoesBack(st) ==     \* a ray that leaves can be sent back along its way
  \A g \in Groups(st) : Refracting(st, g) => \A r \in Basis :
    LET f == Flip(st, g)
        o == Through(OpenAp(st), g, r)
        b == Through(OpenAp(f.st), g, Ray4(o.y, RNeg(o.th), RZero, FALSE))
    IN f.ok => b.y = r.y /\ b.th = RNeg(r.th)
RoundTripIsSymmetric(st) ==
  \A g \in Groups(st) : (\A k \in Range(Items(st, g)) : st.el[k].k \in {"space", "lens", "aperture", "slab"}) =>
    LET a == AppendReverse(st, g, FALSE, FALSE)
    IN a.ok => M(a.st, g).A = M(a.st, g).D

(* ---- files ---------------------------------------------------------------------------*)
(* shape of what hangs below an element, whatever its identity *)
RECURSIVE Shape(_, _)
Shape(st, i) == IF IsGroup(st, i) THEN <<"group", st.el[i].flip, [k \in 1..Len(Items(st, i)) |-> Shape(st, Items(st, i)[k])]>> ELSE <<"leaf", st.el[i]>>
Shapes(st, items) == [k \in 1..Len(items) |-> Shape(st, items[k])]
LoadIsSave(st) ==
  \A g \in Groups(st) :
    LET s1 == Save(st, g, "file").st
        s2 == NewGroup(s1, <<>>, "").st
        r == LoadFrom(s2, Len(s2.el), "file", FALSE)
    IN \* elements changed behind the back of the group may not fit any more; then the file is refused
       r.ok => /\ Shapes(r.st, Items(r.st, Len(s2.el))) = Shapes(st, Items(st, g))
               /\ Range(Reach(r.st, Items(r.st, Len(s2.el)), <<>>)) \cap (1..Len(st.el)) = {}
               /\ SubSeq(r.st.el, 1, Len(st.el)) = st.el
               /\ SameAbcd(M(r.st, Len(s2.el)), M(st, g))

(* ---- image formation -----------------------------------------------------------------*)
ConjugatesImage(st) ==
  \A g \in Groups(st) :
    LET s == M(st, g)  f == FwdConj(s)  b == BwdConj(s)
    IN /\ f.some => RIsZero(f.m.B) /\ RMul(f.m.A, f.m.D) = RDiv(s.n1, s.n2)
       /\ b.some => RIsZero(b.m.B) /\ RMul(b.m.A, b.m.D) = RDiv(s.n1, s.n2)
FociFocus(st) ==
  \A g \in Groups(st) :
    LET s == M(st, g)  z == Foci(s, RZero)  p == PP(s, RZero)  f == EFL(s)
    IN HasPower(s) =>
       /\ \* from the front focus: parallel; parallel: to the back focus
          RIsZero(SumMul(s, SpaceSum(RNeg(z.z1), s.n1)).D) /\ RIsZero(SumMul(SpaceSum(RSub(z.z2, s.L), s.n2), s).A)
       /\ \* principal planes are images of each other, same size
          LET m == SumMul(SpaceSum(RSub(p.z2, s.L), s.n2), SumMul(s, SpaceSum(RNeg(p.z1), s.n1)))
          IN RIsZero(m.B) /\ m.A = ROne
       /\ RMul(f.f1, s.n2) = RMul(f.f2, s.n1)
AtPlane(r, z) == RAdd(r.y, RMul(RSub(z, r.z), r.th))
PlanesAreImages(st) ==   \* intermediate images: rays from a point of the object meet there, after some element
  \A g \in Groups(st) :
    LET ps == IntermediatePlanes(st, g)
        a == FreeRays(st, Flat(st, g), Ray4(RZero, ROne, RZero, FALSE))
        h == FreeRays(st, Flat(st, g), Ray4(ROne, RZero, RZero, FALSE))
        k == FreeRays(st, Flat(st, g), Ray4(ROne, ROne, RZero, FALSE))
    IN \A j \in 1..Len(ps) : \E i \in 2..Len(a) : RIsZero(AtPlane(a[i], ps[j].z)) /\ AtPlane(h[i], ps[j].z) = ps[j].m /\ AtPlane(k[i], ps[j].z) = ps[j].m

(* ---- stops, fields, pupils ---------------------------------------------------------------*)
Stopped(st) == {g \in Groups(st) : HasFiniteAperture(st, g) /\ ~Degenerate(st, g) /\ Unambiguous(st, g) /\ ~IsImaging(StopMatrix(st, g))}
At(m, r) == MulRay(m, r)
ChiefThroughCentre(st) ==
  \A g \in Stopped(st) : \A y \in {ROne, RI(-3)} :
    LET c == ChiefRay(st, g, y) IN c.some /\ RIsZero(At(StopMatrix(st, g), c.r).y) /\ c.r.y = y
MarginalThroughEdge(st) ==
  \A g \in Stopped(st) : \A y \in {RZero, ROne} :
    LET p == MarginalPair(st, g, y)  m == StopMatrix(st, g)  d == TheStop(st, g).d
        u == At(m, Ray4(y, p.up, RZero, FALSE)).y  w == At(m, Ray4(y, p.down, RZero, FALSE)).y
    IN u = RNeg(w) /\ RAbs(u) = RMul(d, RHalf) /\ RLt(p.down, p.up)
NoNA(st, g) == \A k \in Range(Flat(st, g)) : IsInf(st.el[k].na)
(* the stop is what limits light from the axis: the axial ray just passes, a steeper one does not *)
StopLimits(st) ==
  \A g \in Stopped(st) : NoNA(st, g) =>
    LET th == MarginalPair(st, g, RZero).up
    IN /\ ~Through(st, g, Ray4(RZero, th, RZero, FALSE)).bl
       /\ (\A k \in Range(Flat(st, g)) : RIsZero(st.el[k].L) \/ IsInf(st.el[k].ap))
          => Through(st, g, Ray4(RZero, RMul(th, RQ(1025, 1024)), RZero, FALSE)).bl
PupilIsImageOfStop(st) ==
  \A g \in Stopped(st) :
    LET p == Pupil(st, g)  at(r) == RAdd(r.y, RMul(r.th, p.z))
        u == MarginalPair(st, g, RZero).up
    IN IsFin(p.z) => /\ RIsZero(at(UnitChief(st, g)))
                     /\ RMul(RTwo, RAbs(RMul(u, p.z))) = p.d
(* chief rays from inside the field pass, from outside they do not *)
FieldLimits(st) ==
  \A g \in Stopped(st) : FieldCase(st, g) = "some" =>
    LET h == HalfField(st, g)
        passes(k) == ~Through(st, g, ChiefRay(st, g, RMul(k, h)).r).bl
    IN /\ passes(ROne) /\ passes(RQ(1, 2))
       /\ (\A k \in Range(Flat(st, g)) : RIsZero(st.el[k].L) \/ IsInf(st.el[k].ap)) => ~passes(RQ(1025, 1024)) /\ ~passes(RI(3))
(* light that exceeds the axial ray does not get past the stop; between the two rays it is an image of their square *)
Sources4 == {Ray4(RZero, RHalf, RZero, FALSE), Ray4(RI(2), RQ(-1, 8), RZero, FALSE), Ray4(RI(-1), RZero, RZero, FALSE), Ray4(ROne, RQ(1, 4), RZero, FALSE)}
LostIsLost(st) ==
  \A g \in Stopped(st) : FieldCase(st, g) = "some" =>
    LET w == Reference(st, g)
        comb(x, y) == Ray4(RAdd(RMul(x, w.p.y), RMul(y, w.a.y)), RAdd(RMul(x, w.p.th), RMul(y, w.a.th)), RZero, FALSE)
        thin == \A k \in Range(Flat(st, g)) : RIsZero(st.el[k].L) \/ IsInf(st.el[k].ap)
    IN \A r \in Sources4 :
         /\ (thin /\ NoNA(st, g) /\ OutsideB(w.n, w.p, w.a, r)) => Through(st, g, r).bl
         /\ LET b == InvB(w.n, w.p, w.a, r)  a == InvA(w.n, w.p, w.a, r)
                s == IF RLt(OptInv(w.n, w.a, w.p), RZero) THEN RI(-1) ELSE ROne
            IN comb(RMul(s, a), RMul(s, b)) = r
         /\ (Fate(st, g, w.p, w.a, r) = "through" => ~Through(st, g, r).bl)
(* light goes through or not, once and for all *)
BlockedStays(st) ==
  \A g \in Groups(st) : \A r \in Basis :
    LET x == Trace(st, g, r) IN \A k \in 2..Len(x) : x[k-1].bl => x[k].bl
BlockedOnlyByApertures(st) == \A g \in Groups(st) : \A r \in Basis : ~Through(OpenAp(st), g, r).bl

(* ---- symmetry ----------------------------------------------------------------------------*)
Opposite(r) == Ray4(RNeg(r.y), RNeg(r.th), r.z, r.bl)
Rays5 == Basis \cup {Ray4(RI(2), RQ(-1, 8), RZero, FALSE), Ray4(RI(5), RZero, RZero, FALSE), Ray4(RI(-1), RQ(-1, 4), RZero, TRUE)}
UpIsDown(st) == \A g \in Groups(st) : \A r \in Rays5 : Through(st, g, Opposite(r)) = Opposite(Through(st, g, r))
AxiconDeviates(st) ==
  \A i \in {k \in 1..Len(st.el) : ~IsGroup(st, k) /\ st.el[k].k = "axicon"} : \A r \in Rays5 :
    LET e == st.el[i]  x == ThroughLeaf(e, r)  d == RSub(x.th, r.th)
    IN /\ x.y = r.y /\ x.z = r.z
       /\ (r.bl => x = r)
       /\ ~r.bl => /\ d = RMul(RI(-r.y[1]), RMul(RSub(e.p[1], ROne), e.p[2]))
                   /\ (x.bl <=> RLt(Half(e.ap), RAbs(r.y)))
                   /\ ThroughLeaf([e EXCEPT !.p[2] = RNeg(@)], [x EXCEPT !.bl = FALSE]).th = r.th     \* the opposite cone undoes it
AxiconRefusesBeams(st) ==
  \A g \in Groups(st) : LET F == Flat(st, g)  x == BmTrace(st, g, Bm(<<RI(-2), RI(3)>>, RZero, M(st, g).n1, RQ(1, 1000), FALSE))
    IN (\E k \in 1..Len(F) : st.el[F[k]].k = "axicon") => ~x.ok

(* ---- Gaussian beams ---------------------------------------------------------------------*)
BeamIsProduct(st) ==
  \A g \in Groups(st) :
    LET b == Bm(<<RI(-2), RI(3)>>, RZero, M(st, g).n1, RQ(1, 1000), FALSE)
        x == BmTrace(st, g, b)
    IN x.ok => LET o == x.tr[Len(x.tr)]  y == BmThroughSum(M(st, g), b) IN o.q = y.q /\ o.z = y.z /\ o.n = y.n /\ RLt(RZero, o.q[2])

(* ---- edits ----------------------------------------------------------------------------------*)
RECURSIVE Chained(_, _, _)
Chained(st, items, i) == i > Len(items) \/ (SumAt(st, items[i-1]).n2 = SumAt(st, items[i]).n1 /\ Chained(st, items, i+1))
=============================================================================
