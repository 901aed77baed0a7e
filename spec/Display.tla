------------------------------ MODULE Display -------------------------------
(* What a figure of a path shows: the traced rays as polylines, the object   *)
(* and its images, the stops, and the outline of Gaussian beams.              *)
EXTENDS Efficiency, Shapes

(* ---- ray lines: the unblocked part of each trace, or nothing when blocked   *)
(* rays are removed altogether; z0 is where the trace starts                   *)
Visible(tr) == SelectSeq(tr, LAMBDA r : ~r.bl)
Polyline(tr, remove, z0) ==
  LET v == Visible(tr)
  IN IF remove /\ Len(v) < Len(tr) THEN <<>> ELSE [k \in 1..Len(v) |-> <<RAdd(z0, v[k].z), v[k].y>>]
Backwards(tr) == [k \in 1..Len(tr) |-> [tr[k] EXCEPT !.z = RNeg(RAbs(@))]]
NonEmpty(ls) == SelectSeq(ls, LAMBDA x : x # <<>>)
(* [ok, lines]; refused when the rays start inside the path but not in a space *)
RayLines(st, g, rays, z0, remove) ==
  IF RIsZero(z0)
  THEN [ok |-> TRUE, lines |-> NonEmpty([k \in 1..Len(rays) |-> Polyline(Trace(st, g, rays[k]), remove, RZero)])]
  ELSE LET f == SubPath(st, g, z0, FALSE)  b == SubPath(st, g, z0, TRUE)
       IN IF ~f.ok \/ ~b.ok THEN [ok |-> FALSE, lines |-> <<>>]
          ELSE [ok |-> TRUE,
                lines |-> NonEmpty([k \in 1..Len(rays) |-> Polyline(Trace(f.st, Len(f.st.el), rays[k]), remove, z0)]
                                   \o [k \in 1..Len(rays) |-> Polyline(Backwards(Trace(b.st, Len(b.st.el), rays[k])), remove, z0)])]
LinesUnsure(st, g, rays, z0) ==
  IF RIsZero(z0) THEN \E k \in 1..Len(rays) : TooClose(st, Flat(st, g), rays[k])
  ELSE LET f == SubPath(st, g, z0, FALSE)  b == SubPath(st, g, z0, TRUE)
       IN f.ok /\ b.ok /\ \E k \in 1..Len(rays) : TooClose(f.st, Flat(f.st, Len(f.st.el)), rays[k]) \/ TooClose(b.st, Flat(b.st, Len(b.st.el)), rays[k])

(* ---- images of an object at z0: [z, m] with m the transverse magnification   *)
ShiftPlanes(ps, z0, sign) == [k \in 1..Len(ps) |-> [z |-> RAdd(z0, RMul(sign, ps[k].z)), m |-> ps[k].m, rel |-> ps[k].z]]
ImagesOf(st, g, z0) ==
  IF RIsZero(z0) THEN [ok |-> TRUE, planes |-> ShiftPlanes(IntermediatePlanes(st, g), RZero, ROne)]
  ELSE LET f == SubPath(st, g, z0, FALSE)  b == SubPath(st, g, z0, TRUE)
       IN IF ~f.ok \/ ~b.ok THEN [ok |-> FALSE, planes |-> <<>>]
          ELSE [ok |-> TRUE, planes |-> ShiftPlanes(IntermediatePlanes(f.st, Len(f.st.el)), z0, ROne)
                                        \o ShiftPlanes(IntermediatePlanes(b.st, Len(b.st.el)), z0, RNeg(ROne))]

(* ---- comparing with what is drawn -------------------------------------------*)
SamePoint(o, x) == RNear(o[1], x[1]) /\ RNear(o[2], x[2])
SameLine(o, x) == Len(o) = Len(x) /\ \A k \in 1..Len(x) : SamePoint(o[k], x[k])
Matching(os, x) == Cardinality({j \in 1..Len(os) : SameLine(os[j], x)})
Equal(xs, x) == Cardinality({j \in 1..Len(xs) : xs[j] = x})
(* the same lines, in any order *)
SameLines(os, xs) ==
  /\ Len(os) = Len(xs)
  /\ \A k \in 1..Len(xs) : Matching(os, xs[k]) >= Equal(xs, xs[k])
  /\ \A j \in 1..Len(os) : \E k \in 1..Len(xs) : SameLine(os[j], xs[k])
Covers(os, xs) == \A k \in 1..Len(xs) : Matching(os, xs[k]) >= Equal(xs, xs[k])
Prefix(o, x) == Len(o) <= Len(x) /\ \A k \in 1..Len(o) : SamePoint(o[k], x[k])

(* ---- Gaussian beams ------------------------------------------------------------*)
(* sections of the path in which the beam spreads freely: [z, L, b] with b the     *)
(* beam at the entrance; only the spaces at the top level                           *)
RECURSIVE Sections(_, _, _)
Sections(st, items, b) ==
  IF items = <<>> THEN <<>>
  ELSE LET h == BmTrace(st, Head(items), b)
           n == IF h.ok THEN h.tr[Len(h.tr)] ELSE b
       IN <<[space |-> ~IsGroup(st, Head(items)) /\ st.el[Head(items)].k = "space", z |-> b.z, L |-> SumAt(st, Head(items)).L, b |-> b]>>
          \o Sections(st, Tail(items), n)
BeamAt(b, z) == [b EXCEPT !.q = <<RAdd(@[1], RSub(z, b.z)), @[2]>>, !.z = z]
Size2(b) == W2(b.q, b.lam, b.n)
NearSize(o, w2) == RLe(RZero, o) /\ RLe(RAbs(RSub(RSq(o), w2)), RMul(RQ(1, 10000000), w2))
Waist2(b) == RDiv(RMul(b.lam, b.q[2]), RMul(Pi, b.n))
WaistZ(b) == RSub(b.z, b.q[1])
(* is (z, w) on the outline? either at a plane of the trace or inside a space      *)
OnOutline(p, tr, secs) ==
  \/ \E k \in 1..Len(tr) : RNear(p[1], tr[k].z) /\ NearSize(p[2], Size2(tr[k]))
  \/ \E k \in 1..Len(secs) : /\ secs[k].space /\ RLe(RSub(secs[k].z, Tol), p[1]) /\ RLe(p[1], RAdd(RAdd(secs[k].z, secs[k].L), Tol))
                             /\ NearSize(p[2], Size2(BeamAt(secs[k].b, p[1])))
Within(ps, s) == Cardinality({j \in 1..Len(ps) : RLt(s.z, ps[j][1]) /\ RLt(ps[j][1], RAdd(s.z, s.L))})

(* ---- the elements themselves ---------------------------------------------------*)
(* what is drawn, in order, with its position: elements that are not spaces, those  *)
(* of a group one by one, groups inside a group as a box                             *)
RECURSIVE DrawnFrom(_, _, _, _)
DrawnFrom(st, items, z, deep) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items)  rest == DrawnFrom(st, Tail(items), RAdd(z, SumAt(st, i).L), deep)
       IN IF IsGroup(st, i) THEN (IF deep THEN DrawnFrom(st, Items(st, i), z, FALSE) ELSE <<[i |-> i, z |-> z]>>) \o rest
          ELSE IF st.el[i].k = "space" THEN rest ELSE <<[i |-> i, z |-> z]>> \o rest
DrawnOf(st, g) == DrawnFrom(st, Items(st, g), RZero, TRUE)
Front(e) == CASE e.k = "thick" -> e.p[2] [] e.k = "di" -> e.p[3] [] e.k = "mirror" -> e.p[1] [] OTHER -> PInf
Rear(e) == CASE e.k = "thick" -> e.p[3] [] e.k \in {"di", "mirror"} -> Front(e) [] OTHER -> PInf
SameDrawing(st, o, x) ==
  IF IsGroup(st, x.i) THEN LET L == SumAt(st, x.i).L IN NearDraw(o.axis[1], x.z) /\ NearDraw(o.axis[2], RAdd(x.z, L))
  ELSE LET e == st.el[x.i]  end == RAdd(x.z, e.L)
       IN /\ ~IsInf(e.ap) => RNear(o.h, Half(e.ap))
          /\ IF e.k \in {"thick", "slab", "di", "mirror"}
             THEN /\ NearDraw(o.axis[1], x.z) /\ NearDraw(o.axis[2], end)
                  /\ \A p \in {o.up, o.down} : (\E k \in 1..2 : Sagged(p[k], x.z, Front(e), o.h)) /\ (\E k \in 1..2 : Sagged(p[k], end, Rear(e), o.h))
             ELSE IF e.k = "matrix" THEN NearDraw(o.axis[1], x.z) /\ NearDraw(o.axis[2], end)
             ELSE IF e.k = "axicon" THEN NearDraw(o.axis[1], x.z) \/ NearDraw(o.axis[2], x.z)
             ELSE \A p \in {o.up, o.down} : \A k \in 1..2 : NearDraw(p[k], x.z)
(* the surfaces of one element: radius, index behind, distance to the next *)
LeafSurfaces(e) ==
  CASE e.k = "di"     -> <<[R |-> e.p[3], n |-> e.n2, L |-> RZero]>>
    [] e.k = "thick"  -> <<[R |-> e.p[2], n |-> e.p[1], L |-> e.L], [R |-> e.p[3], n |-> ROne, L |-> RZero]>>
    [] e.k = "slab"   -> <<[R |-> PInf, n |-> e.p[1], L |-> e.L], [R |-> PInf, n |-> ROne, L |-> RZero]>>
    [] e.k = "mirror" -> <<[R |-> e.p[1], n |-> ROne, L |-> RZero]>>
SameRadius(o, x) == IF IsInf(x) THEN IsInf(o) ELSE RNear(o, x)
SameSurfaces(o, x) == Len(o) = Len(x) /\ \A k \in 1..Len(x) : SameRadius(o[k][1], x[k].R) /\ RNear(o[k][2], x[k].n) /\ RNear(o[k][3], x[k].L)
(* focal points are marked for lenses, mirrors and thick lenses at the top level    *)
RECURSIVE MarksFrom(_, _, _)
MarksFrom(st, items, z) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items)  s == SumAt(st, i)  rest == MarksFrom(st, Tail(items), RAdd(z, s.L))
       IN IF IsGroup(st, i) \/ st.el[i].k \notin {"lens", "mirror", "thick", "slab"} \/ ~HasPower(s) THEN rest
          ELSE LET f == Foci(s, z) IN <<[z |-> f.z1, f |-> 1, b |-> 0], [z |-> f.z2, f |-> 0, b |-> 1]>> \o rest
=============================================================================
