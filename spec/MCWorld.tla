------------------------------ MODULE MCWorld -------------------------------
(* Every short history of operations on a small world, for model checking the *)
(* theorems and for replaying on the code: TLC prints the elements to start    *)
(* from and every history; harness/d_replay.py performs them on real objects   *)
(* and WorldTrace judges the recording.                                        *)
EXTENDS Theorems, TLC, Json
CONSTANTS Setup,    \* which elements and which operations
          Depth     \* length of the histories
VARIABLES st, hist, fit
vars == <<st, hist, fit>>

(* ---- elements ----------------------------------------------------------------*)
New(k, p, L, n, ap, na) ==
  [op |-> "new", c |-> [k |-> k, p |-> p, L |-> L, fv |-> None, bv |-> None, n1 |-> n, n2 |-> n, ap |-> ap, na |-> na, label |-> k]]
Sp(d) == New("space", <<RI(d)>>, RZero, ROne, PInf, PInf)
Lens(f, ap) == New("lens", <<RI(f)>>, RZero, ROne, ap, PInf)
Di(a, b, R, ap) == New("di", <<RI(a), RI(b), RI(R)>>, RZero, ROne, ap, PInf)
Thick(n, R1, R2, t, ap) == New("thick", <<RI(n), RI(R1), RI(R2)>>, RI(t), ROne, ap, PInf)
Slab(n, t, ap) == New("slab", <<RI(n)>>, RI(t), ROne, ap, PInf)
Ap(d, na) == New("aperture", <<>>, RZero, ROne, d, na)
Mirr(R, ap) == New("mirror", <<RI(R)>>, RZero, ROne, ap, PInf)
Mat(a, b, c, d, L) == New("matrix", <<RQ(a, 4), RQ(b, 4), RQ(c, 4), RQ(d, 4)>>, RI(L), ROne, PInf, PInf)
Grp(items) == [op |-> "newgroup", items |-> items, label |-> "group"]

PathLeaves == <<Sp(4), Lens(8, RI(6)), Di(1, 2, 8, PInf), Di(2, 1, -8, RI(5)), Ap(RI(2), PInf), Thick(2, 8, -16, 4, RI(4)), Slab(2, 4, RI(5)), Mirr(-16, RI(8))>>
EditLeaves == <<Sp(8), Lens(4, RI(6)), Di(1, 2, 8, PInf), Di(2, 1, -8, RI(5)), Grp(<<1, 2>>), Grp(<<>>), Grp(<<3>>)>>
FlipLeaves == <<Sp(4), Di(1, 2, 8, RI(6)), Sp(2), Di(2, 1, 16, PInf), Thick(2, 8, -16, 4, RI(4)), Mat(8, 16, 2, 6, 2), Mirr(-16, PInf),
                Grp(<<1, 2, 3, 4>>), Grp(<<5, 8>>), Grp(<<6, 1>>), Grp(<<>>)>>
FileLeaves == <<Sp(4), Lens(8, RI(6)), Di(1, 2, 8, PInf), Thick(2, 8, -16, 4, RI(4)), Grp(<<2, 1>>), Grp(<<5, 2, 4, 3>>), Grp(<<1, 4>>), Grp(<<>>)>>
CavLeaves == <<Mirr(-16, RI(8)), Sp(4), Lens(8, RI(6)), Slab(2, 4, RI(5)), Mirr(32, PInf), Grp(<<>>)>>
Axi(n, a) == New("axicon", <<RI(n), a>>, RZero, ROne, RI(9), PInf)
AxiLeaves == <<Axi(2, RQ(1, 16)), Axi(3, RQ(1, 8)), Sp(4), Lens(8, RI(6)), Ap(RI(2), PInf), Grp(<<1, 3>>), Grp(<<>>)>>
Elements == CASE Setup = "paths" -> PathLeaves \o <<Grp(<<>>)>>
              [] Setup = "edits" -> EditLeaves
              [] Setup = "flips" -> FlipLeaves
              [] Setup = "files" -> FileLeaves
              [] Setup = "cavities" -> CavLeaves
              [] Setup = "axicons" -> AxiLeaves

(* ---- operations ----------------------------------------------------------------*)
RECURSIVE Below(_, _, _)
Below(s, g, i) == i = g \/ (IsGroup(s, i) /\ \E k \in Range(Items(s, i)) : Below(s, g, k))      \* is g inside i, or i itself
Append1(s, gs, is) == {[op |-> "append", g |-> g, i |-> i] : g \in gs, i \in {x \in is : \A y \in gs : ~Below(s, y, x)}}
Edits(s, gs) ==
  LET lists == {<<>>, <<2>>, <<3>>, <<3, 4>>, <<4>>}
      ones == {<<1>>, <<2>>, <<3>>, <<4>>}
  IN UNION {Append1(s, {g}, 1..7) : g \in gs}
     \cup {[op |-> "insert", g |-> g, idx |-> k, items |-> l] : g \in gs, k \in {-1, 0, 1, 5}, l \in lists}
     \cup {[op |-> "pop", g |-> g, idx |-> k] : g \in gs, k \in {-3, -2, -1, 0, 1, 2}}
     \cup {[op |-> "setitem", g |-> g, idx |-> k, items |-> l] : g \in gs, k \in {-2, -1, 0, 1, 2}, l \in ones}
     \cup {[op |-> "setslice", g |-> g, i |-> x[1], j |-> x[2], items |-> l] : g \in gs, x \in {<<0, 0>>, <<0, 1>>, <<1, 2>>, <<0, 5>>, <<-1, 5>>, <<2, 1>>, <<0, -1>>}, l \in lists}
     \cup {[op |-> "getslice", g |-> g, i |-> x[1], j |-> x[2]] : g \in gs, x \in {<<0, 1>>, <<1, 5>>, <<-1, 5>>, <<0, -1>>}}
Operations(s) ==
  CASE Setup = "paths" -> Append1(s, {9}, 1..8)
    [] Setup = "edits" -> Edits(s, {5, 6})
    [] Setup = "flips" -> {[op |-> "flip", g |-> i] : i \in {1, 5, 6, 7, 8, 9, 10, 11}}
                          \cup Append1(s, {11}, {5, 6, 7, 8, 9, 10}) \cup Append1(s, {10}, {5, 8})
                          \cup {[op |-> "pop", g |-> 11, idx |-> 0]}
    [] Setup = "files" -> {[op |-> "save", g |-> g, f |-> "a"] : g \in {6, 7, 8}}
                          \cup {[op |-> "load", g |-> g, f |-> "a", app |-> b] : g \in {7, 8}, b \in BOOLEAN}
                          \cup {[op |-> "pop", g |-> 6, idx |-> 3], [op |-> "pop", g |-> 5, idx |-> 0], [op |-> "append", g |-> 8, i |-> 5],
                                [op |-> "append", g |-> 5, i |-> 4], [op |-> "flip", g |-> 4], [op |-> "flip", g |-> 5]}
    [] Setup = "cavities" -> Append1(s, {6}, 1..5)
                          \cup {[op |-> "revappend", g |-> 6, sf |-> a, sl |-> b] : a \in BOOLEAN, b \in BOOLEAN}
    [] Setup = "axicons" -> Append1(s, {7}, 1..6) \cup {[op |-> "flip", g |-> i] : i \in {1, 6, 7}}
                          \cup {[op |-> "setax", g |-> 1, p |-> <<RI(n), a>>] : n \in {2, 3}, a \in {RQ(1, 32), RQ(-1, 16)}}

Start0 == Build([el |-> <<>>, files |-> [x \in {} |-> {}]], Elements, TRUE)
Init == /\ Start0.ok /\ st = Start0.st /\ hist = <<>> /\ fit = TRUE
        /\ PrintT("OUT " \o ToJson([setup |-> Setup, sub |-> Elements]))
Next == /\ Len(hist) < Depth
        /\ \E o \in Operations(st) :
             LET r == Step(st, o)
             IN /\ st' = r.st /\ fit' = r.ok /\ hist' = Append(hist, o)
                /\ PrintT("OUT " \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars
(* histories that lead to the same state are not continued separately *)
View == <<st, Len(hist) = Depth>>

(* ---- what is checked -------------------------------------------------------------*)
RefusedChangesNothing == [][~fit' => st' = st]_vars
EditOf(o) == o.op \in {"append", "insert", "pop", "setitem", "setslice", "load", "revappend"}
(* after an edit the group is a chain of media and its summary the product *)
EditedIsChained == (hist # <<>> /\ fit /\ EditOf(hist[Len(hist)]))
                   => LET g == hist[Len(hist)].g IN Consistent(st, g) => st.el[g].sum = M(st, g)
EditedFits == (hist # <<>> /\ fit /\ EditOf(hist[Len(hist)]))
              => LET g == hist[Len(hist)].g
                 IN Distinct(st, g) => Chained(st, Items(st, g), 2) /\ (Current(st, g) => Consistent(st, g))
(* edits leave elements alone, except for the medium of spaces; other groups keep their elements *)
EditsKeepElements ==
  [][LET o == hist'[Len(hist')] IN (hist' # hist /\ EditOf(o)) =>
       \A i \in 1..Len(st.el) : i # o.g =>
         IF IsGroup(st, i) THEN st'.el[i] = st.el[i]
         ELSE [st'.el[i] EXCEPT !.n1 = ROne, !.n2 = ROne] = [st.el[i] EXCEPT !.n1 = ROne, !.n2 = ROne]
              /\ (st.el[i].k # "space" => st'.el[i] = st.el[i])]_vars
T01 == TraceIsProduct(st) /\ FlatIsNested(st) /\ LengthsAdd(st)
T10 == DetIsIndexRatio(st) /\ InvariantKept(st)
T14 == WholeIsUpTo(st) /\ CutIsWhole(st)
T13 == FlipReverses(st) /\ FlipTwice(st) /\ LightGoesBack(st)
T16 == RoundTripIsSymmetric(st)
T20 == LoadIsSave(st)
T11 == ConjugatesImage(st) /\ PlanesAreImages(st)
T12 == FociFocus(st)
T07 == MarginalThroughEdge(st) /\ StopLimits(st)
T08 == ChiefThroughCentre(st) /\ FieldLimits(st)
T09 == PupilIsImageOfStop(st)
T06 == BlockedStays(st) /\ BlockedOnlyByApertures(st)
T15 == BeamIsProduct(st)
T27 == UpIsDown(st) /\ AxiconDeviates(st) /\ AxiconRefusesBeams(st)
T05 == UpIsDown(st)
T31 == LostIsLost(st)

(* ---- ways of getting it wrong (configurations that must fail) ------------------------*)
StaleItems(s, g, items) ==          \* the summary is not computed again
  LET r == Settle(s, items, 1) IN IF r.ok THEN [ok |-> TRUE, st |-> [r.st EXCEPT !.el[g].items = items]] ELSE [ok |-> FALSE, st |-> s]
EagerItems(s, g, items) ==          \* refused, but the elements are there already
  LET r == Settle(s, items, 1)
  IN [ok |-> r.ok, st |-> [r.st EXCEPT !.el[g].items = items, !.el[g].sum = Derived(r.st, items)]]
LaxSettle(s, items, i) == [ok |-> TRUE, st |-> s]                       \* any neighbours will do
FlipInPlace(e) == [e EXCEPT !.flip = ~@]                                \* an element looks the same from behind
ForgetSeen(seen, i) == {}                                                \* what is used at two levels is turned twice
NoReverse(s) == s                                                        \* the order is kept
NoNewMedium(l, r) == MkSum(AbcdMul(l, r), RAdd(l.L, r.L), r.fv, l.bv, r.n1, r.n1)
UnguardedThrough(e, r) ==           \* apertures forget what was blocked before
  LET m == MatOf(e) IN Ray4(RAdd(RMul(m.A, r.y), RMul(m.B, r.th)), RAdd(RMul(m.C, r.y), RMul(m.D, r.th)), RAdd(r.z, e.L), Exceeds(r, e))
SameObjects(s, g, f, app) ==        \* the very objects that were saved come back
  IF f \notin DOMAIN s.files THEN [ok |-> FALSE, st |-> s] ELSE SetItems(s, g, IF app THEN Items(s, g) \o s.files[f].items ELSE s.files[f].items)
WrongWay(s) == [d |-> RNeg(RDiv(s.B, s.A)), some |-> ~RIsZero(s.A), m |-> SumMul(SpaceSum(RNeg(RDiv(s.B, s.A)), s.n2), s)]
AirFocal(s) == IF HasPower(s) THEN [f1 |-> RNeg(RDiv(ROne, s.C)), f2 |-> RNeg(RDiv(ROne, s.C))] ELSE [f1 |-> PInf, f2 |-> PInf]
RECURSIVE WidestCands(_, _, _)
WidestCands(s, leaves, rays) ==     \* the stop where the light is widest, whatever the apertures
  IF leaves = <<>> THEN <<>>
  ELSE LET e == s.el[Head(leaves)]
       IN <<[z |-> rays[2].z, d |-> e.ap, fill |-> IF IsInf(e.ap) THEN RZero ELSE RAbs(rays[2].y)]>> \o WidestCands(s, Tail(leaves), Tail(rays))
ExitPupil(s, g) == LET m == StopMatrix(s, g) IN IF RIsZero(m.D) THEN [z |-> NInf, d |-> PInf] ELSE [z |-> RDiv(m.B, m.D), d |-> RDiv(TheStop(s, g).d, RAbs(m.D))]
RECURSIVE LastH(_, _)
LastH(ts, m) == IF ts = <<>> THEN m ELSE LastH(Tail(ts), IF IsInf(Head(ts).h) THEN m ELSE Head(ts).h)     \* the last aperture, not the smallest
ThinQ(s, q) == CDiv(CAdd(CScale(s.A, q), <<s.B, RZero>>), <<s.D, RZero>>)
SameWayBack(s, g, sf, sl) ==
  LET t == Items(s, g) IN SetItems(s, g, t \o SubSeq(t, IF sf THEN 2 ELSE 1, IF sl THEN Len(t) - 1 ELSE Len(t)))
Along(e, r, d) == Ray4(r.y, RAdd(r.th, d), r.z, Exceeds(r, e))
OneSided(e, r) ==                   \* an axicon turns every ray the same way
  IF r.bl THEN r ELSE IF e.k = "axicon" THEN Along(e, r, RNeg(Deviation(e)))
  ELSE LET m == MatOf(e) IN Ray4(RAdd(RMul(m.A, r.y), RMul(m.B, r.th)), RAdd(RMul(m.C, r.y), RMul(m.D, r.th)), RAdd(r.z, e.L), Exceeds(r, e))
ByAngle(e, r) ==                    \* towards the side the ray comes from, not the one it arrives on
  IF r.bl THEN r ELSE IF e.k = "axicon" THEN Along(e, r, IF RLt(r.th, RZero) THEN Deviation(e) ELSE IF RLt(RZero, r.th) THEN RNeg(Deviation(e)) ELSE RZero)
  ELSE LET m == MatOf(e) IN Ray4(RAdd(RMul(m.A, r.y), RMul(m.B, r.th)), RAdd(RMul(m.C, r.y), RMul(m.D, r.th)), RAdd(r.z, e.L), Exceeds(r, e))
Exchanged(n, p, a, r) == Coeff(n, a, r, RAbs(OptInv(n, a, p)))      \* the invariants with the two rays exchanged
WholeLeaf(e, z) == [ok |-> TRUE, s |-> SumOf(e)]      \* no partial elements
=============================================================================
