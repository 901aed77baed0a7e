----------------------------- MODULE WorldTrace -----------------------------
(* Conformance of recorded executions with World/Imaging.  Each line of the  *)
(* trace file is one execution: [tid, ev] with ev a sequence of events of the *)
(* public API.  Every event carries what was observed; the verdict of an event *)
(* is the (possibly empty) set of violated clauses <<property, what>>.         *)
EXTENDS Ops, Switches, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES t, l, st, ob, done
vars == <<t, l, st, ob, done>>

S(cond, prop, what) == IF cond THEN {} ELSE {<<prop, what>>}
SS(cond, props, what) == IF cond THEN {} ELSE {<<p, what>> : p \in props}

(* ------------------------- comparing observations --------------------------*)
SumSeq(s) == <<s.A, s.B, s.C, s.D, s.L, s.fv, s.bv, s.n1, s.n2>>
Scale(s) == RAdd(RAdd(RAbs(s.A), RAbs(s.B)), RAdd(RAbs(s.C), RAbs(s.D)))
NearSum(o, s) == \A k \in 1..9 : RNearS(o[k], SumSeq(s)[k], IF k <= 4 THEN Scale(s) ELSE RZero)
NearMat(o, s) == \A k \in 1..4 : RNearS(o[k], SumSeq(s)[k], Scale(s))
NearSeq(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : RNear(o[k], e[k])

PubP(e) == CASE e.k \in {"lens", "di", "thick", "axicon"} -> e.p [] OTHER -> <<>>
LeafMatches(o, e) ==
  /\ o.k = e.k
  /\ NearSum(o.m, SumOf(e)) /\ RNear(o.ap, e.ap) /\ RNear(o.na, e.na)
  /\ o.flip = e.flip /\ o.label = e.label /\ NearSeq(o.p, PubP(e))
(* Named deviation: the vertices of a generic matrix are exchanged, not measured  *)
(* from the other end, when it is flipped                                         *)
UnmirroredVertices(o, e) ==
  /\ o.k = "matrix" /\ e.k = "matrix"
  /\ LeafMatches(o, [e EXCEPT !.fv = Mirror(e.fv, e.L), !.bv = Mirror(e.bv, e.L)])
GroupItems(o, e) == o.k = "group" /\ o.items = e.items /\ o.n = Len(e.items)
GroupSum(o, e) == NearSum(o.m, e.sum) /\ o.flip = e.flip /\ o.label = e.label

(* the records of a trace: [y, th, z, blocked] *)
RecNear(o, r) == /\ RNear(o[1], r.y) /\ RNear(o[2], r.th) /\ RNear(o[3], r.z)
TraceVals(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : RecNear(o[k], e[k])
TraceBl(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : o[k][4] = e[k].bl
RayOf(a) == Ray4(a[1], a[2], a[3], a[4])

(* ------------------------- which property a mismatch speaks about -----------*)
EditOps == {"append", "insert", "pop", "setitem", "setslice", "getslice", "newgroup", "badedit"}
ItemsProps(op, ok) ==
  CASE op \in EditOps -> IF ok THEN {"C02"} ELSE {"C03"}
    [] op \in {"load", "save", "badload"} -> IF ok THEN {"C20"} ELSE {"C03", "C20"}
    [] op = "flip" -> {"C13"}
    [] op = "subpath" -> {"C14"}
    [] op = "revappend" -> {"C16"}
    [] op = "new" -> {"C10"}
    [] op = "build" -> {"C02"}
    [] OTHER -> {"C05"}
SumProps(op, ok) ==
  CASE op \in EditOps -> IF ok THEN {"C01", "C02"} ELSE {"C03"}
    [] op = "load" -> IF ok THEN {"C20", "C02", "C01"} ELSE {"C03", "C20"}
    [] op \in {"save", "badload"} -> {"C20"}
    [] op = "flip" -> {"C13"}
    [] op = "subpath" -> {"C14"}
    [] op = "revappend" -> {"C16"}
    [] op = "new" -> {"C10"}
    [] op = "build" -> {"C01", "C02", "C10"}
    [] OTHER -> {"C05"}
LeafProps(op, ok) ==
  CASE op \in EditOps -> IF ok THEN {"C02", "C03"} ELSE {"C03"}
    [] op = "load" -> IF ok THEN {"C20"} ELSE {"C03", "C20"}
    [] op \in {"save", "badload"} -> {"C20"}
    [] op = "flip" -> {"C13"}
    [] op = "subpath" -> {"C14"}
    [] op = "revappend" -> {"C16"}
    [] op \in {"new", "build"} -> {"C10"}
    [] OTHER -> {"C05"}
OkProps(op, specOk) ==
  CASE op \in EditOps -> IF specOk THEN {"C02", "C03"} ELSE {"C03"}
    [] op \in {"load", "save", "badload"} -> IF specOk THEN {"C20"} ELSE {"C20", "C03"}
    [] op = "flip" -> {"C13"}
    [] op = "subpath" -> {"C14"}
    [] op = "revappend" -> {"C16"}
    [] op = "new" -> {"C10"}
    [] OTHER -> {"C02"}

ApplyDiff(o, d) ==
  LET n == Len(o)
      ids == {d[k][1] : k \in 1..Len(d)}
      top == IF ids = {} THEN n ELSE LET m == CHOOSE x \in ids : \A y \in ids : y <= x IN IF m > n THEN m ELSE n
  IN [i \in 1..top |-> IF i \in ids THEN d[CHOOSE k \in 1..Len(d) : d[k][1] = i][2] ELSE o[i]]

ChangedIds(s, s2, d) ==
  {d[k][1] : k \in 1..Len(d)} \cup {i \in 1..Len(s2.el) : i > Len(s.el) \/ (i <= Len(s.el) /\ s.el[i] # s2.el[i])}

HeapClauses(s, s2, o2, e, ok) ==
  UNION {
    IF i > Len(s2.el) \/ i > Len(o2)
    THEN {<<p, "unexpected object">> : p \in ItemsProps(e.op, ok)}
    ELSE IF IsGroup(s2, i)
         THEN SS(GroupItems(o2[i], s2.el[i]), ItemsProps(e.op, ok), "elements of group")
              \cup (IF o2[i].k = "group" THEN SS(GroupSum(o2[i], s2.el[i]), SumProps(e.op, ok), "summary of group") ELSE {})
         ELSE IF LeafMatches(o2[i], s2.el[i]) THEN {}
         ELSE SS(e.op = "flip" /\ UnmirroredVertices(o2[i], s2.el[i]), LeafProps(e.op, ok), "element attributes")
              \cup (IF e.op = "flip" THEN SS(~UnmirroredVertices(o2[i], s2.el[i]), LeafProps(e.op, ok), "vertices of a flipped generic matrix exchanged but not mirrored") ELSE {})
    : i \in ChangedIds(s, s2, e.diff)}

(* ------------------------- queries -------------------------------------------*)
Eps9(x) == RLt(RAbs(x), Tol)
PowerUnsure(s) == NearEps(s.C) 
ImagingUnsure(s) == NearEps(s.B)

TraceClauses(s, e) ==
  LET r == RayOf(e.ray)
      x == Trace(s, e.g, r)
      unsure == ~e.exact /\ TooClose(s, Flat(s, e.g), r)
      anyBlocked == \E k \in 1..Len(x) : x[k].bl
  IN IF unsure THEN S(e.inkept, "C05", "input ray modified by tracing")
     ELSE IF ~e.ok THEN {<<"C01", "trace failed">>, <<"C06", "trace failed">>}
     ELSE SS(TraceVals(e.res, x), IF anyBlocked THEN {"C06"} ELSE {"C01"}, "trace values")
          \cup S(TraceBl(e.res, x), "C06", "blocked flags of trace")
          \cup S(e.inkept, "C05", "input ray modified by tracing")

(* e.fresh : the same ray through a freshly built copy of the path *)
FreshClauses(e) ==
  S(e.ok = e.freshok /\ (e.ok => e.res = e.fresh), "C04", "trace differs from that of a fresh copy of the path")

ConjClauses(o, c, s, bad) ==
  IF bad THEN {}
  ELSE IF ~c.some THEN S(o.d = PInf, "C11", "conjugate at infinity")
  ELSE S(o.some /\ RNearS(o.d, c.d, Scale(s)), "C11", "conjugate distance")
       \cup (IF o.some THEN S(NearSum(o.m, c.m) /\ RLe(RAbs(o.m[2]), RMul(RQ(1, 1000000), Scale(c.m))), "C11", "conjugate matrix") ELSE {})

(* planes compared as sequences after leaving out those too close to 0 or too far *)
Keep(z) == RLt(RQ(1, 1000000), RAbs(z)) /\ RLt(RAbs(z), RI(100000))
RECURSIVE FilterPlanes(_)
FilterPlanes(ps) == IF ps = <<>> THEN <<>>
                    ELSE IF Keep(Head(ps).z) THEN <<Head(ps)>> \o FilterPlanes(Tail(ps)) ELSE FilterPlanes(Tail(ps))
RECURSIVE ToPlanes(_)
ToPlanes(os) == IF os = <<>> THEN <<>> ELSE <<[z |-> Head(os)[1], m |-> Head(os)[2]]>> \o ToPlanes(Tail(os))
PlaneUnsure(st0, i) ==
  LET q == PrefixSums(st0, Flat(st0, i), IdSum)
  IN \E k \in 1..Len(q) : RLt(RAbs(q[k].D), RQ(1, 1000000)) /\ ~RIsZero(q[k].D)
LooseNear(o, x) == RNearT(o, x, RQ(1, 1000000))

ObRec(r) == <<r.y, r.th, r.z, r.bl>>
RecIs(o, r) == RecNear(o, r) /\ o[4] = r.bl
BmOf(a) == Bm(<<a[1], a[2]>>, a[3], a[4], a[5], a[6])
BmNear(o, b) ==
  LET m == RAdd(RAbs(b.q[1]), RAbs(b.q[2]))
  IN RNearS(o[1], b.q[1], m) /\ RNearS(o[2], b.q[2], m) /\ RNear(o[3], b.z) /\ RNear(o[4], b.n) /\ RNearT(o[5], b.lam, RMul(Tol, b.lam))
(* a beam through a path *)
BeamClauses(s, e) ==
  LET x == BmTrace(s, e.g, BmOf(e.beam))
      o == e.res
  IN IF ~x.ok THEN S(~e.ok, "C15", "beam in the wrong medium or through an axicon accepted")
     ELSE IF ~e.ok THEN {<<"C15", "beam refused">>}
     ELSE S(Len(o) = Len(x.tr) /\ \A k \in 1..Len(o) : BmNear(o[k], x.tr[k]), "C15", "beam along the path")
          \cup (IF x.unsure \/ Len(o) # Len(x.tr) THEN {} ELSE S(\A k \in 1..Len(o) : o[k][6] = x.tr[k].clip, "C15", "clipping of the beam"))

(* what a beam says about itself: [w, R, wo, zo, zr, b, wp, finite] *)
Sq(x) == IF IsFin(x) THEN RSq(x) ELSE x
NearRel(o, x, rel) == IF IsFin(o) /\ IsFin(x) THEN RLe(RAbs(RSub(o, x)), RMul(rel, RAbs(x))) ELSE o[1] = x[1]
BeamSays(o, b) ==
  LET q == b.q
      fin == RLt(RZero, q[2])
      R == RDiv(CAbs2(q), q[1])
  IN S(o.finite = fin, "C15", "finite beam")
     \cup (IF fin THEN
           S(RLe(RZero, o.w) /\ NearRel(Sq(o.w), W2(q, b.lam, b.n), RQ(1, 10000000)), "C15", "beam size")
           \cup S(IF RLt(RAbs(q[1]), RMul(Tol, RAbs(q[2]))) THEN IsInf(o.R) \/ ~RLt(RAbs(o.R), RDiv(CAbs2(q), RMul(Tol, RAbs(q[2])))) \/ NearRel(o.R, R, RQ(1, 1000))
                  ELSE NearRel(o.R, R, RQ(1, 10000000)), "C15", "radius of curvature")
           \cup S(RLe(RZero, o.wo) /\ NearRel(Sq(o.wo), RDiv(RMul(b.lam, q[2]), RMul(Pi, b.n)), RQ(1, 10000000)), "C15", "waist")
           \cup S(o.waist = o.wo, "C15", "waist")
           \cup S(\A k \in 1..3 : NearRel(o.zo[k], q[2], Tol), "C15", "Rayleigh range")
           ELSE S(o.w = PInf, "C15", "size of a beam that is not finite")
                \cup S(IF RIsZero(q[1]) THEN IsInf(o.R) ELSE NearRel(o.R, R, RQ(1, 10000000)), "C15", "radius of curvature") \cup S(RLe(q[2], RZero) => IsNone(o.wo), "C15", "waist of a beam that is not finite"))
     \cup S(RNear(o.wp, RNeg(q[1])), "C15", "waist position")
(* what print() shows of an element, a ray or a beam: its values, to the digits shown *)
Shows(o, x, half) == IF IsFin(x) THEN IsFin(o) /\ RLe(RAbs(RSub(o, x)), RAdd(RMul(half, RQ(1001, 1000)), RMul(RQ(1, 10000000), RAbs(x)))) ELSE o = x
Shows3(o, x) == Shows(o, x, RQ(1, 2000))
Digits3(o, x) == RLe(RAbs(RSub(o, x)), RMul(RQ(51, 10000), RAbs(x)))
TextClauses(s, e) ==
  IF ~e.ok THEN {<<"C32", "cannot be printed">>}
  ELSE CASE e.kind = "element" ->
         LET m == SumAt(s, e.g)
         IN S(Len(e.nums) = 5 /\ Shows3(e.nums[1], m.A) /\ Shows3(e.nums[2], m.B) /\ Shows3(e.nums[3], m.C) /\ Shows3(e.nums[4], m.D), "C32", "matrix printed")
            \cup (IF Eps9(m.C) /\ ~RIsZero(m.C) THEN {}
                  ELSE S(IF RIsZero(m.C) THEN ~e.exact \/ e.afocal ELSE ~e.afocal /\ Len(e.nums) = 5 /\ Shows3(e.nums[5], RNeg(RDiv(ROne, m.C))), "C32", "focal length printed"))
    [] e.kind = "ray" ->
         S(Shows3(e.nums[1], e.ray[1]) /\ Shows3(e.nums[2], e.ray[2]) /\ Shows3(e.nums[3], e.ray[3]) /\ e.blocked = e.ray[4], "C32", "ray printed")
    [] OTHER ->
         LET b == BmOf(e.beam)
         IN S(e.finite = ~IsNone(e.says.wo), "C32", "finite beam printed")
            \cup (IF ~e.finite THEN {}
                  ELSE S(Len(e.cq) = 2 /\ Digits3(e.cq[1], b.q[1]) /\ Digits3(e.cq[2], b.q[2]), "C32", "complex radius printed")
                       \cup S(Shows3(e.nums[1], e.says.w) /\ Shows3(e.nums[2], e.says.R) /\ Shows3(e.nums[3], b.z), "C32", "beam printed")
                       \cup S(Shows(e.nums[4], RMul(b.lam, RI(1000000)), RQ(1, 20)), "C32", "wavelength printed")     \* millimetres, shown in nanometres
                       \cup S(Shows3(e.nums[5], b.q[2]) /\ Shows3(e.nums[6], e.says.wo) /\ Shows3(e.nums[7], RNeg(b.q[1])), "C32", "waist printed"))

(* creating a beam: c = [q (sequence, empty when absent), w, R, n, lam, z] *)
QOfW(c) == LET ir == RInv(c.R)
               iw == RNeg(RDiv(c.lam, RMul(RMul(Pi, c.n), RSq(c.w))))
           IN CDiv(<<ROne, RZero>>, <<ir, iw>>)
CRelDist2(a, b) == RDiv(CAbs2(<<RSub(a[1], b[1]), RSub(a[2], b[2])>>), CAbs2(b))
NewBeamClauses(e) ==
  LET c == e.c
      hasq == c.q # <<>>
      hasw == ~IsNone(c.w)
      q == IF hasq THEN c.q ELSE QOfW(c)
      d2 == IF hasq /\ hasw THEN CRelDist2(QOfW(c), c.q) ELSE RZero
  IN IF ~hasq /\ ~hasw THEN S(~e.ok, "C15", "beam without parameters accepted")
     ELSE IF RLt(RQ(1, 2500), d2) THEN S(~e.ok, "C15", "contradictory parameters of a beam accepted")      \* more than 2%
     ELSE IF RLt(RQ(1, 10000000), d2) THEN {}
     ELSE IF ~e.ok THEN {<<"C15", "beam not created">>}
     ELSE LET b == Bm(q, c.z, c.n, c.lam, FALSE)
          IN SS(IF d2 = RZero THEN BmNear(e.beam, b) ELSE RNear(e.beam[4], c.n), {"C15"}, "created beam") \cup S(e.beam[6] = FALSE, "C15", "created beam is clipped")
             \cup BeamSays(e.says, BmOf(e.beam))

(* ------------------------- drawings ------------------------------------------*)
ImagesUnsure(s, g, z0) ==
  IF RIsZero(z0) THEN PlaneUnsure(s, g)
  ELSE LET f == SubPath(s, g, z0, FALSE)  b == SubPath(s, g, z0, TRUE)
       IN f.ok /\ b.ok /\ (PlaneUnsure(f.st, Len(f.st.el)) \/ PlaneUnsure(b.st, Len(b.st.el)))
(* marks <<z, height>> of the images of an object of that height at z0, those at infinity left out *)
RECURSIVE ImageMarks(_, _)
ImageMarks(ps, h) == IF ps = <<>> THEN <<>>
                     ELSE (IF Keep(Head(ps).rel) THEN <<<<Head(ps).z, RMul(Head(ps).m, h)>>>> ELSE <<>>) \o ImageMarks(Tail(ps), h)
RECURSIVE KeepMarks(_, _)
KeepMarks(os, z0) == IF os = <<>> THEN <<>>
                     ELSE (IF IsFin(Head(os)[1]) /\ Keep(RSub(Head(os)[1], z0)) THEN <<Head(os)>> ELSE <<>>) \o KeepMarks(Tail(os), z0)
SameMark(o, x) == LooseNear(o[1], x[1]) /\ LooseNear(o[2], x[2])
SameMarks(os, xs) ==
  /\ Len(os) = Len(xs)
  /\ \A k \in 1..Len(xs) : Cardinality({j \in 1..Len(os) : SameMark(os[j], xs[k])}) >= Cardinality({j \in 1..Len(xs) : xs[j] = xs[k]})
  /\ \A j \in 1..Len(os) : \E k \in 1..Len(xs) : SameMark(os[j], xs[k])
CoversMarks(os, xs) == \A k \in 1..Len(xs) : \E j \in 1..Len(os) : SameMark(os[j], xs[k])

RaysOf(a) == [k \in 1..Len(a) |-> RayOf(a[k])]
LinesClauses(s, e, o) ==
  LET r == RaysOf(e.rays)
      x == RayLines(s, e.g, r, e.z, e.remove)
  IN IF ~e.exact /\ LinesUnsure(s, e.g, r, e.z) THEN {}
     ELSE IF ~x.ok THEN S(~e.ok, "C25", "rays starting inside an element drawn")
     ELSE S(e.ok /\ SameLines(o, x.lines), "C25", "ray lines")
ImagesClauses(s, e, o) ==
  LET x == ImagesOf(s, e.g, e.z)
  IN IF ImagesUnsure(s, e.g, e.z) THEN {}
     ELSE IF ~x.ok THEN S(~e.ok, "C25", "images of an object inside an element")
     ELSE S(e.ok /\ SameMarks(KeepMarks(o, e.z), ImageMarks(x.planes, e.h)), "C25", "images")

(* a whole figure: e.bundles = <<[kind, z, h, rays]>>, e.kind says which are objects *)
RECURSIVE AllLines(_, _, _, _, _), AllImages(_, _, _), AllObjects(_)
AllLines(s, g, bs, remove, acc) ==
  IF bs = <<>> THEN acc ELSE AllLines(s, g, Tail(bs), remove, acc \o RayLines(s, g, RaysOf(Head(bs).rays), Head(bs).z, remove).lines)
AllImages(s, g, bs) ==
  IF bs = <<>> THEN <<>>
  ELSE (IF Head(bs).kind = "object" THEN ImageMarks(ImagesOf(s, g, Head(bs).z).planes, Head(bs).h) ELSE <<>>) \o AllImages(s, g, Tail(bs))
AllObjects(bs) ==
  IF bs = <<>> THEN <<>> ELSE (IF Head(bs).kind = "object" THEN <<<<Head(bs).z, Head(bs).h>>>> ELSE <<>>) \o AllObjects(Tail(bs))
(* everything is inside the figure: the elements, the object of the path and its images *)
InView(s, e, o) ==
  LET g == e.g  x == DrawnOf(s, g)
      fits(h) == RLe(h, o.lim[4]) /\ RLe(o.lim[3], RNeg(h))
  IN /\ \A k \in 1..Len(x) : IsGroup(s, x[k].i) \/ IsInf(s.el[x[k].i].ap) \/ (fits(Half(s.el[x[k].i].ap)) /\ RLe(o.lim[1], x[k].z) /\ RLe(RAdd(x[k].z, s.el[x[k].i].L), o.lim[2]))
     /\ fits(Half(o.oh))
     /\ (PlaneUnsure(s, g) \/ LET q == IntermediatePlanes(s, g) IN \A k \in 1..Len(q) :
           (RLt(MilliTol, q[k].z) /\ RLt(q[k].z, RSub(SumAt(s, g).L, MilliTol))) => fits(RMul(RAbs(q[k].m), Half(o.oh))))

(* the label of each element that is drawn, as often as it is drawn *)
CountIn(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
LabelsShown(s, e, o) ==
  LET d == DrawnOf(s, e.g)
      labels == [k \in 1..Len(d) |-> s.el[d[k].i].label]
  IN \A x \in {s.el[k].label : k \in 1..Len(s.el)} \ {""} : CountIn(o.texts, x) = IF e.labels THEN CountIn(labels, x) + CountIn(e.wholes, x) ELSE 0      \* a lens of several surfaces is drawn as one

ShownClauses(s, e, o) ==
  LET bs == e.bundles
      ok == \A k \in 1..Len(bs) : RayLines(s, e.g, RaysOf(bs[k].rays), bs[k].z, e.remove).ok
      hidden == SelectSeq(bs, LAMBDA b : b.kind # "object")     \* with a lamp in the figure objects may be switched off
      lamp == \E k \in 1..Len(bs) : bs[k].kind = "lamp"
      xs == AllLines(s, e.g, bs, e.remove, <<>>)
      must == AllLines(s, e.g, hidden, e.remove, <<>>)
  IN IF ~ok THEN S(~e.ok, "C25", "rays starting inside an element drawn")
     ELSE IF ~e.ok THEN {<<"C25", "nothing displayed">>}
     ELSE (IF ~e.exact /\ \E k \in 1..Len(bs) : LinesUnsure(s, e.g, RaysOf(bs[k].rays), bs[k].z) THEN {}
           ELSE IF lamp THEN S(Covers(o.lines, must) /\ \A j \in 1..Len(o.lines) : \E k \in 1..Len(xs) : SameLine(o.lines[j], xs[k]), "C25", "lines in the figure")
           ELSE S(SameLines(o.lines, xs), "C25", "lines in the figure"))
          \cup S(InView(s, e, o), "C25", "everything in view")
          \cup S(LabelsShown(s, e, o), "C25", "labels of the elements")
          \cup S(o.kept, "C25", "the list of rays given is changed")
          \cup (IF lamp THEN {} ELSE
                 S(IF e.objects THEN SameMarks(o.objs, AllObjects(bs)) ELSE o.objs = <<>>, "C25", "objects in the figure")
                 \cup (IF \E k \in 1..Len(bs) : bs[k].kind = "object" /\ ImagesUnsure(s, e.g, bs[k].z) THEN {}
                       ELSE IF ~e.images THEN S(o.imgs = <<>>, "C25", "images in the figure")
                       ELSE IF \E k \in 1..Len(bs) : bs[k].kind = "object" /\ ~RIsZero(bs[k].z)
                       THEN S(CoversMarks(o.imgs, AllImages(s, e.g, bs)), "C25", "images in the figure")
                       ELSE S(SameMarks(KeepMarks(o.imgs, RZero), AllImages(s, e.g, bs)), "C25", "images in the figure")))

(* the figure of an element or group on its own: its foci, vertices and principal planes *)
Says(o, what) == SelectSeq(o.said, LAMBDA x : x[1] = what)
SaysThat(o, what, x) == \E k \in 1..Len(o.said) : o.said[k][1] = what /\ RLe(RAbs(RSub(o.said[k][2], x)), RAdd(RQ(501, 10000), RMul(RQ(1, 1000000), RAbs(x))))
Named(o, x) == \E k \in 1..Len(o.names) : o.names[k] = x
PortraitClauses(s, e, o) ==
  LET m == SumAt(s, e.g)
      p == PP(m, RZero)  f == Foci(m, RZero)  efl == EFL(m)
      near(a, b) == RLe(RAbs(RSub(a, b)), RAdd(RQ(6, 10000), RMul(RQ(1, 1000000), RAbs(b))))
      power == HasPower(m)
      isv(v) == ~IsNone(v) /\ \E k \in 1..Len(o.marks) : near(o.marks[k], v)
      want == {<<p.z1, f.z1>>, <<p.z2, f.z2>>} \cup (IF IsNone(m.fv) THEN {} ELSE {<<m.fv, f.z1>>}) \cup (IF IsNone(m.bv) THEN {} ELSE {<<m.bv, f.z2>>})
      opaque == IsGroup(s, e.g) /\ \E i \in Range(Flat(s, e.g)) : s.el[i].k = "matrix" /\ s.el[i].L # RZero    \* its stops are not known
  IN IF PowerUnsure(m) \/ opaque THEN {}
     ELSE IF ~e.ok THEN {<<"C25", "the element cannot be displayed">>}
     ELSE IF ~e.whole THEN {}                           \* a group is drawn by its elements
     ELSE IF ~power THEN S(o.planes = <<>> /\ o.said = <<>> /\ o.arrows = <<>>, "C25", "principal planes of an element without power")
     ELSE S((\A x \in {f.z1, f.z2} : \E k \in 1..Len(o.marks) : near(o.marks[k], x))
            /\ (\A k \in 1..Len(o.marks) : \E x \in {f.z1, f.z2, p.z1, p.z2, m.fv, m.bv} : IsFin(x) /\ near(o.marks[k], x)), "C25", "focal points of the element")
          \cup S(Len(o.planes) = 2 /\ \A k \in 1..2 : LET x == IF k = 1 THEN p.z1 ELSE p.z2 IN Len(o.planes[k]) = 2 /\ near(o.planes[k][1], x) /\ near(o.planes[k][2], x), "C25", "principal planes of the element")
          \cup S(Named(o, "$P_f$") /\ Named(o, "$P_b$")
                /\ (m.L # RZero => (Named(o, "$V_f$") <=> ~IsNone(m.fv)) /\ (Named(o, "$V_b$") <=> ~IsNone(m.bv)) /\ (~IsNone(m.fv) => isv(m.fv)) /\ (~IsNone(m.bv) => isv(m.bv))), "C25", "vertices and planes named")
          \cup S(Len(Says(o, "EFL")) = 2 /\ SaysThat(o, "EFL", efl.f1) /\ SaysThat(o, "EFL", efl.f2)
                /\ (IF IsNone(m.fv) THEN Says(o, "FFL") = <<>> ELSE Len(Says(o, "FFL")) = 1 /\ SaysThat(o, "FFL", FFL(m)))
                /\ (IF IsNone(m.bv) THEN Says(o, "BFL") = <<>> ELSE Len(Says(o, "BFL")) = 1 /\ SaysThat(o, "BFL", BFL(m))), "C25", "focal lengths stated with the element")
          \cup S((\A w \in want : \E k \in 1..Len(o.arrows) : near(o.arrows[k][1], w[1]) /\ near(o.arrows[k][2], w[2]))
                /\ \A k \in 1..Len(o.arrows) : \E w \in want : near(o.arrows[k][1], w[1]) /\ near(o.arrows[k][2], w[2]), "C25", "focal lengths shown with the element")

(* the switches of a figure: o = <<what is seen first, then after each act>>      *)
SwitchesClauses(s, e, o) ==
  LET bs == e.bundles
      x0 == o[1]
      mine(x, b) == x.kind = b.kind /\ x.called = b.called /\ (x.kind \in {"object", "lamp"} => RLe(RAbs(RSub(x.z, b.z)), RQ(1, 16)))
      acts(j) == [k \in 1..(j - 1) |-> o[k + 1].act]
      on(j) == After(x0.on, acts(j))
      isOn(j, b) == \A k \in 1..Len(x0.kinds) : mine(x0.kinds[k], b) => on(j)[k]       \* what has no switch is always there
      field == {k \in 1..Len(x0.kinds) : x0.kinds[k].kind = "field"}
      given(kind) == \E k \in 1..Len(e.given) : e.given[k] = kind
      want(j) == SelectSeq(bs, LAMBDA b : isOn(j, b))
      free(r) == LET f == Trace([s EXCEPT !.el = [k \in 1..Len(s.el) |-> IF IsGroup(s, k) THEN s.el[k] ELSE NoAp(s.el[k])]], e.g, RayOf(r))
                 IN [k \in 1..Len(f) |-> <<f[k].z, f[k].y>>]
      fields == [k \in 1..Len(e.field) |-> free(e.field[k])]
      inField(ln) == \E k \in 1..Len(fields) : Prefix(ln, fields[k])
      lines(j) == LET xs == AllLines(s, e.g, want(j), e.remove, <<>>)
                  IN IF \E k \in field : on(j)[k]
                     THEN Covers(o[j].lines, xs) /\ \A i \in 1..Len(o[j].lines) : inField(o[j].lines[i]) \/ \E k \in 1..Len(xs) : SameLine(o[j].lines[i], xs[k])
                     ELSE SameLines(o[j].lines, xs)
      objs(j) == IF e.objects THEN SameMarks(o[j].objs, AllObjects(want(j))) ELSE o[j].objs = <<>>
      imgs(j) == IF ~e.images THEN o[j].imgs = <<>>
                 ELSE IF \E k \in 1..Len(bs) : bs[k].kind = "object" /\ ~RIsZero(bs[k].z) THEN CoversMarks(o[j].imgs, AllImages(s, e.g, want(j)))
                 ELSE SameMarks(KeepMarks(o[j].imgs, RZero), AllImages(s, e.g, want(j)))
      ok == \A k \in 1..Len(bs) : RayLines(s, e.g, RaysOf(bs[k].rays), bs[k].z, e.remove).ok
      unsure == ~e.exact /\ \E k \in 1..Len(bs) : LinesUnsure(s, e.g, RaysOf(bs[k].rays), bs[k].z)
      dim == \E k \in 1..Len(bs) : bs[k].kind = "object" /\ ImagesUnsure(s, e.g, bs[k].z)
      J == 1..Len(o)
      K == 1..Len(x0.kinds)
  IN IF ~ok THEN {}
     ELSE IF ~e.ok THEN {<<"C33", "nothing displayed">>}
     ELSE S(\A j \in J : o[j].kinds = x0.kinds /\ o[j].on = on(j), "C33", "a click concerns its switch only")
          \cup S(\A a, b \in K : x0.kinds[a] = x0.kinds[b] => a = b, "C33", "one switch for each thing")
          \cup S(\A k \in K : x0.kinds[k].kind = "field" \/ \E i \in 1..Len(bs) : mine(x0.kinds[k], bs[i]), "C33", "a switch for something else")
          \cup S(\A k \in K : x0.kinds[k].kind \in {"lamp", "rays"} => x0.on[k], "C33", "what is asked for is shown at first")
          \cup S((given("object") /\ ~given("lamp")) => \A k \in K : x0.kinds[k].kind = "object" => x0.on[k], "C33", "what is asked for is shown at first")
          \cup S(e.given # <<>> => \A k \in field : ~x0.on[k], "C33", "rays of the field of view next to those given")
          \cup (IF unsure THEN {} ELSE S(\A j \in J : lines(j), "C33", "rays shown are those switched on"))
          \cup S(\A j \in J : objs(j), "C33", "objects shown are those switched on")
          \cup (IF dim THEN {} ELSE S(\A j \in J : imgs(j), "C33", "images shown are those switched on"))

(* the figure without any rays: those of the field of view *)
FieldShown(s, e, o) ==
  LET free(r) == FreeRays(s, Flat(s, e.g), RayOf(r))
      pts(r) == LET f == Trace([s EXCEPT !.el = [k \in 1..Len(s.el) |-> IF IsGroup(s, k) THEN s.el[k] ELSE NoAp(s.el[k])]], e.g, RayOf(r))
                IN [k \in 1..Len(f) |-> <<f[k].z, f[k].y>>]
  IN IF FieldCase(s, e.g) # "some" \/ IsImaging(StopMatrix(s, e.g)) THEN {}
     ELSE IF ~e.ok THEN {<<"C25", "nothing displayed">>}
     ELSE S(Len(o.lines) <= Len(e.rays) /\ \A j \in 1..Len(o.lines) : \E k \in 1..Len(e.rays) : Prefix(o.lines[j], pts(e.rays[k])), "C25", "principal and axial rays in the figure")

(* e.ok: o = [up, down] sequences of points <<z, w>> *)
BeamLinesClauses(s, e, o) ==
  LET b == BmOf(e.beam)
      x == BmTrace(s, e.g, b)
      secs == Sections(s, Items(s, e.g), b)
  IN IF ~x.ok THEN {}
     ELSE IF \E k \in 1..Len(x.tr) : RLt(x.tr[k].q[2], RQ(1, 10000)) THEN {}
     ELSE IF ~e.ok THEN {<<"C25", "beam not drawn">>}
     ELSE S(Len(o.up) = Len(o.down) /\ \A k \in 1..Len(o.up) : RNear(o.down[k][1], o.up[k][1]) /\ RNear(o.down[k][2], RNeg(o.up[k][2])), "C25", "both sides of the beam")
          \cup S(\A k \in 1..Len(o.up) : OnOutline(o.up[k], x.tr, secs), "C25", "size of the beam drawn")
          \cup S(\A k \in 1..Len(x.tr) : \E j \in 1..Len(o.up) : RNear(o.up[j][1], x.tr[k].z) /\ NearSize(o.up[j][2], Size2(x.tr[k])), "C25", "beam drawn along the whole path")
          \cup S(\A k \in 1..Len(secs) : (secs[k].space /\ RLt(RQ(1, 1000), secs[k].L)) => Within(o.up, secs[k]) >= 8, "C25", "beam drawn between the elements")
WaistsClauses(s, e, o) ==       \* o: sequence of <<z, y>>
  LET b == BmOf(e.beam)
      x == BmTrace(s, e.g, b)
      secs == Sections(s, Items(s, e.g), b)
      end == SumAt(s, e.g).L
      is(p, c) == RNearT(p[1], WaistZ(c), RQ(1, 1000000)) /\ NearSize(RAbs(p[2]), Waist2(c))
  IN IF ~x.ok THEN {}
     ELSE IF \E k \in 1..Len(x.tr) : RLt(x.tr[k].q[2], RQ(1, 10000)) \/ RLt(RI(100000), RAbs(x.tr[k].q[1])) THEN {}
     ELSE IF ~e.ok THEN {<<"C25", "waists not drawn">>}
     ELSE S(\A j \in 1..Len(o) : \E k \in 1..Len(x.tr) : is(o[j], x.tr[k]), "C25", "a waist where there is none")
          \* every waist that light goes through is marked on both sides,
          \* that of the beam given too when it is at the entrance
          \cup S(\A k \in 1..Len(secs) :
                  LET z == WaistZ(secs[k].b)
                  IN (secs[k].space /\ (RLt(RAdd(secs[k].z, MilliTol), z) \/ (k = 1 /\ secs[k].b.q[1] = RZero /\ z = RZero)) /\ RLt(z, RSub(RAdd(secs[k].z, secs[k].L), MilliTol)) /\ RLt(z, RSub(end, MilliTol)))
                     => (\E i \in 1..Len(o) : is(o[i], secs[k].b) /\ RLt(RZero, o[i][2])) /\ (\E i \in 1..Len(o) : is(o[i], secs[k].b) /\ RLt(o[i][2], RZero)),
                  "C25", "waists of the beam")
StopMarksClauses(s, e, o) ==    \* o: [as, fs] sequences of positions
  LET g == e.g  c == FieldCase(s, g)
  IN IF ~e.ok THEN {<<"C25", "stops not labelled">>}
     ELSE (IF ~HasFiniteAperture(s, g) THEN S(o.as = <<>>, "C25", "label of the aperture stop")
           ELSE IF Degenerate(s, g) THEN {}
           ELSE S(Len(o.as) = 1 /\ \E x \in StopSet(s, g) \cup StopSetDeviation(s, g) : RNear(o.as[1], x.z), "C25", "label of the aperture stop"))
          \cup (IF c = "skip" THEN {}
                ELSE IF c = "none" THEN S(o.fs = <<>>, "C25", "label of the field stop")
                ELSE S(Len(o.fs) = 1 /\ \E x \in FieldStopSet(s, g) : RNear(o.fs[1], x.z), "C25", "label of the field stop"))

(* ------------------------- cavities ---------------------------------------*)
TwoMinus(s) == RSub(RTwo, RAbs(RAdd(s.A, s.D)))
ModeRes(s, q) ==   \* residue of C q^2 + (D - A) q - B
  LET q2 == CMul(q, q) IN <<RSub(RAdd(RMul(s.C, q2[1]), RMul(RSub(s.D, s.A), q[1])), s.B), RAdd(RMul(s.C, q2[2]), RMul(RSub(s.D, s.A), q[2]))>>
IsMode(s, q) ==
  LET sc == RAdd(RAdd(RMul(RAbs(s.C), CAbs2(q)), RMul(RAdd(RAbs(s.A), RAbs(s.D)), RAdd(RAbs(q[1]), RAbs(q[2])))), RAdd(ROne, RAbs(s.B)))
      lim == RMul(RQ(1, 1000000), sc)
      r == ModeRes(s, q)
  IN RLe(RAbs(r[1]), lim) /\ RLe(RAbs(r[2]), lim)
CavityClauses(s, e, sm) ==
  LET o == e.res
      margin == RLt(RAbs(TwoMinus(sm)), RQ(1, 1000000))
  IN IF PowerUnsure(sm) \/ sm.n1 # sm.n2 THEN {}   \* not a round trip
     ELSE IF ~HasPower(sm) THEN S(e.ok /\ o.eig = <<>> /\ o.laser = <<>> /\ ~o.stable, "C16", "modes of a cavity without power")
     ELSE IF ~e.ok THEN {<<"C16", "modes not computed">>}
     ELSE S(Len(o.eig) = 2, "C16", "two eigenmodes")
          \cup S(\A k \in 1..Len(o.eig) : IsMode(sm, <<o.eig[k][1], o.eig[k][2]>>), "C16", "an eigenmode reproduces itself")
          \cup (IF Len(o.eig) = 2 THEN S(RNearT(RAdd(o.eig[1][1], o.eig[2][1]), RDiv(RSub(sm.A, sm.D), sm.C), RQ(1, 1000000)), "C16", "both eigenmodes") ELSE {})
          \cup S(\A k \in 1..Len(o.eig) : RNear(o.eig[k][4], sm.n1), "C16", "medium of the modes")
          \cup (IF margin THEN {}
                ELSE LET stable == RLt(RZero, TwoMinus(sm))
                     IN S(o.stable = stable, "C16", "stability")
                        \cup S(Len(o.laser) = (IF stable THEN 1 ELSE 0), "C16", "number of laser modes")
                        \cup S(\A k \in 1..Len(o.laser) : RLt(RZero, o.laser[k][2]) /\ \E j \in 1..Len(o.eig) : o.eig[j] = o.laser[k], "C16", "laser modes are the finite eigenmodes")
                        \cup (IF stable THEN S(\A k \in 1..Len(o.laser) : NearRel(RSq(o.laser[k][2]), RDiv(RSub(RI(4), RSq(RAdd(sm.A, sm.D))), RMul(RI(4), RSq(sm.C))), RQ(1, 100000)), "C16", "size of the laser mode") ELSE {}))

(* expected rays at a plane, given as sets of acceptable rays; unsure positions skipped *)
RECURSIVE ProfileMatch(_, _)
ProfileMatch(o, xs) ==
  IF xs = <<>> THEN o = <<>>
  ELSE LET x == Head(xs)
       IN \/ (\E r \in x : ~r.bl /\ o # <<>> /\ RecIs(Head(o), r)) /\ ProfileMatch(Tail(o), Tail(xs))
          \/ (\E r \in x : r.bl) /\ ProfileMatch(o, Tail(xs))

(* ---- the efficiency report: where every ray of the source is counted ---------*)
Printed(x, exact, unit) == IsFin(x) /\ IsFin(exact) /\ RLe(RAbs(RSub(x, exact)), RAdd(RMul(RHalf, unit), RMul(RQ(1, 1000000), RAdd(ROne, RAbs(exact)))))
Said(x, exact, unit) == IsNone(x) \/ Printed(x, exact, unit)         \* when it is said, it is true
Percent(a, b) == RDiv(RI(100 * a), RI(b))
ReportClauses(s, e, o) ==
  LET g == e.g
      w == Reference(s, g)
      F(c, what) == S(c, "C31", what)
  IN IF w.case = "skip" THEN {}
     ELSE IF ~e.ok THEN {<<"C31", "the report failed">>}
     ELSE IF w.case = "none" THEN F(~o.some, "no report without field stop")
     ELSE IF ~o.some THEN {<<"C31", "no report">>}
     ELSE
       LET p == RayOf(o.p)  a == RayOf(o.a)
           n == w.n
           rs == [k \in 1..Len(o.rays) |-> RayOf(o.rays[k])]
           unsure == \E k \in 1..Len(rs) : FateUnsure(s, g, p, a, rs[k], e.exact)
           fate == [k \in 1..Len(rs) |-> Fate(s, g, p, a, rs[k])]
           of(x) == SelectSeq([k \in 1..Len(rs) |-> <<fate[k], k>>], LAMBDA y : y[1] = x)
           dots(seen, x) == LET z == of(x) IN Len(seen) = Len(z) /\ \A k \in 1..Len(z) :
                              RNearT(seen[k][1], InvB(n, p, a, rs[z[k][2]]), RQ(1, 10000000)) /\ RNearT(seen[k][2], InvA(n, p, a, rs[z[k][2]]), RQ(1, 10000000))
           nt == Len(of("through"))  nv == Len(of("vignetted"))
           h == IF e.hgiven THEN e.h ELSE RAbs(p.y)
           ang == e.ang
           lagr == RAbs(OptInv(n, a, p))
           src == RMul(RMul(n, h), ang)
           tenth == RQ(1, 10)  cent == RQ(1, 100)
           where == {Through(s, g, rs[z[2]]).z : z \in Range(of("vignetted"))}
       IN F(RNearT(p.y, w.p.y, FieldTol) /\ RNearT(p.th, w.p.th, FieldTol) /\ RNearT(a.th, w.a.th, RQ(1, 1000000)) /\ RIsZero(a.y), "principal and axial rays")
          \cup F(Len(rs) = e.n /\ \A k \in 1..Len(rs) : RLe(RAbs(rs[k].y), RAdd(h, Tol)) /\ RLe(RAbs(rs[k].th), RAdd(ang, Tol)), "the source as announced")
          \cup F(IsNone(o.size) \/ (RNearT(o.size, RMul(RTwo, h), RQ(1, 1000000)) /\ RNearT(o.angle, ang, RQ(1, 1000000))), "extent of the source")
          \cup F(Said(o.isrc, src, cent) /\ Said(o.ilagr, lagr, cent), "invariants")
          \cup F(Said(o.ratio, RMul(RI(100), RDiv(lagr, src)), tenth), "efficiency expected from the invariants")
          \cup F(Said(o.said[1], ang, cent) /\ Said(o.said[2], RMul(RTwo, h), tenth), "angle and diameter of the source")
          \cup (IF unsure THEN {} ELSE
                  F(dots(o.through, "through"), "rays that get through")
                  \cup F(dots(o.vignetted, "vignetted"), "rays that are vignetted")
                  \cup F(dots(o.lost, "lost"), "rays that cannot get through")
                  \cup F(Said(o.mc, Percent(nt, e.n), tenth), "collection efficiency")
                  \cup (IF nt + nv = 0 THEN {} ELSE F(Said(o.rel, Percent(nt, nt + nv), tenth), "relative efficiency"))
                  \cup (IF nv = 0 THEN F(IsNone(o.loss), "no loss to vignetting")
                        ELSE F(Printed(o.loss, Percent(nv, nt + nv), tenth), "loss to vignetting")
                             \cup F((\A x \in where : \E k \in 1..Len(o.where) : RNearT(o.where[k], x, RQ(1, 1000000)))
                                    /\ \A k \in 1..Len(o.where) : \E x \in where : RNearT(o.where[k], x, RQ(1, 1000000)), "where rays are vignetted")))

QueryClauses(s, e) ==
  LET g == e.g
      sm == SumAt(s, g)
      dv == IF IsGroup(s, g) THEN Derived(s, Items(s, g)) ELSE SumOf(s.el[g])
      o == e.res
      thin == \A k \in 1..Len(Flat(s, g)) : RIsZero(s.el[Flat(s, g)[k]].L) \/ IsInf(s.el[Flat(s, g)[k]].ap)
  IN
  CASE e.q = "matrix" -> S(e.ok /\ NearSum(o, dv), "C01", "transferMatrix()")
    [] e.q = "matrices" ->
         LET f == Flat(s, g)
         IN S(e.ok /\ Len(o) = Len(f) /\ \A k \in 1..Len(f) : NearSum(o[k], SumOf(s.el[f[k]])), "C01", "transferMatrices()")
    [] e.q = "mulray" ->
         LET x == IF IsGroup(s, g) THEN MulRay(sm, RayOf(e.ray)) ELSE ThroughLeaf(s.el[g], RayOf(e.ray))
         IN S(e.ok /\ RecNear(o, x), "C01", "group * ray")
    [] e.q = "mulmat" -> S(e.ok /\ NearSum(o, SumMul(SumAt(s, g), SumAt(s, e.h))), "C01", "matrix * matrix")
    [] e.q = "mulmat3" ->   \* (g*h)*k and g*(h*k)
         LET x == SumMul(SumMul(SumAt(s, g), SumAt(s, e.h)), SumAt(s, e.k))
         IN S(e.ok /\ NearMat(o[1], x) /\ NearMat(o[2], x) /\ RNear(o[1][5], x.L) /\ RNear(o[2][5], x.L), "C01", "associativity")
    [] e.q = "upto" ->
         LET x == UpTo(s, g, e.z)
         IN IF ~x.ok THEN S(~e.ok, "C14", "an element whose inside is not known was cut") ELSE S(e.ok /\ NearSum(o, x.s), "C14", "transferMatrix(upTo)")
    [] e.q = "items" -> S(e.ok /\ o.iter = Items(s, g) /\ o.n = Len(Items(s, g)) /\ o.els = Items(s, g), "C02", "iteration / len / elements")
    [] e.q = "item" ->
         LET n == Len(Items(s, g))
         IN S(IF PyIndexOk(e.idx, n) THEN e.ok /\ o = Items(s, g)[PyIndex(e.idx, n) + 1] ELSE ~e.ok, "C02", "indexing")
    [] e.q = "efl" -> IF PowerUnsure(sm) THEN {} ELSE
         S(e.ok /\ RNear(o[1], EFL(sm).f1) /\ RNear(o[2], EFL(sm).f2), "C12", "effective focal lengths")
    [] e.q = "pp" -> IF PowerUnsure(sm) THEN {} ELSE
         S(e.ok /\ RNearS(o[1], PP(sm, e.z).z1, e.z) /\ RNearS(o[2], PP(sm, e.z).z2, e.z), "C12", "principal planes")
    [] e.q = "foci" -> IF PowerUnsure(sm) THEN {} ELSE
         S(e.ok /\ RNearS(o[1], Foci(sm, e.z).z1, e.z) /\ RNearS(o[2], Foci(sm, e.z).z2, e.z), "C12", "focus positions")
    [] e.q = "bfl" -> IF PowerUnsure(sm) THEN {} ELSE
         SS(e.ok /\ RNearT(o, BFL(sm), RQ(1, 10000000)), {"C12"} \cup (IF e.flipped THEN {"C13"} ELSE {}), "back focal length")
    [] e.q = "ffl" -> IF PowerUnsure(sm) THEN {} ELSE
         SS(e.ok /\ RNearT(o, FFL(sm), RQ(1, 10000000)), {"C12"} \cup (IF e.flipped THEN {"C13"} ELSE {}), "front focal length")
    [] e.q = "f2f" -> IF PowerUnsure(sm) \/ ~HasPower(sm) \/ IsNone(sm.fv) \/ IsNone(sm.bv) \/ sm.n1 # ROne THEN {} ELSE
         LET x == SumMul(SpaceSum(BFL(sm), sm.n2), SumMul(sm, SpaceSum(FFL(sm), ROne)))
         IN S(e.ok /\ NearMat(o, x) /\ RNear(o[5], x.L), "C12", "focus to focus")
    [] e.q = "tofocus" -> IF PowerUnsure(sm) THEN {} ELSE
         IF IsNone(BFL(sm)) THEN S(~e.ok, "C12", "ToFocus refused when there is no focus")
         ELSE S(e.ok /\ RNearT(o, BFL(sm), RQ(1, 10000000)), "C12", "ToFocus")
    [] e.q = "toconj" -> IF Eps9(sm.D) /\ ~RIsZero(sm.D) THEN {} ELSE
         IF RIsZero(sm.D) THEN (IF e.exact THEN S(~e.ok, "C11", "ToConjugate refused at infinity") ELSE {})
         ELSE S(e.ok /\ RNearS(o, FwdConj(sm).d, Scale(sm)), "C11", "ToConjugate")
    [] e.q = "fconj" -> IF ~e.ok THEN {<<"C11", "forwardConjugate failed">>} ELSE
         ConjClauses(o, FwdConj(sm), sm, IF RIsZero(sm.D) THEN ~e.exact ELSE RLt(RAbs(sm.D), RQ(1, 10000)))
    [] e.q = "bconj" -> IF RIsZero(sm.A) /\ ~e.exact THEN {} ELSE IF ~RIsZero(sm.A) /\ RLt(RAbs(sm.A), RQ(1, 10000)) THEN {} ELSE
         IF ~e.ok THEN {<<"C11", "backwardConjugate failed">>} ELSE
         ConjClauses(o, BwdConj(sm), sm, FALSE)
    [] e.q = "mag" -> IF ImagingUnsure(sm) THEN {} ELSE
         S(e.ok /\ (IF IsImaging(sm) THEN RNear(o[1], sm.A) /\ RNear(o[2], sm.D) ELSE IsNone(o[1]) /\ IsNone(o[2])), "C11", "magnification()")
    [] e.q = "iconj" -> IF PlaneUnsure(s, g) THEN {} ELSE
         LET x == FilterPlanes(IntermediatePlanes(s, g))  y == IF e.ok THEN FilterPlanes(ToPlanes(o)) ELSE <<>>
         IN S(e.ok /\ Len(x) = Len(y) /\ \A k \in 1..Len(x) : LooseNear(y[k].z, x[k].z) /\ LooseNear(y[k].m, x[k].m), "C11", "intermediateConjugates()")
    [] e.q = "inv" ->
         S(e.ok /\ RNearS(o, OptInv(dv.n1, RayOf(e.ray), RayOf(e.ray2)), e.scale), "C10", "optical invariant")
    (* ---- rays at a position ---- *)
    [] e.q = "at" -> S(e.ok /\ RecIs(o, RayAt(RayOf(e.ray), e.z)), "C26", "ray at a position")
    [] e.q = "along" ->
         IF ~e.exact /\ TooClose(s, Flat(s, g), RayOf(e.ray)) THEN {}
         ELSE S(e.ok /\ \E r \in AlongSet(Trace(s, g, RayOf(e.ray)), e.z) : RecIs(o, r), "C26", "ray along a trace")
    [] e.q = "profile" ->
         IF ~e.exact /\ \E k \in 1..Len(e.rays) : TooClose(s, Flat(s, g), RayOf(e.rays[k])) THEN {}
         ELSE S(e.ok /\ ProfileMatch(o, [k \in 1..Len(e.rays) |-> AlongSet(Trace(s, g, RayOf(e.rays[k])), e.z)]), "C26", "profile at a position")
    [] e.q = "cut" ->      \* rays traced through the path cut at z, and looked up at z
         LET x == UpTo(s, g, e.z)  r == RayOf(e.ray)
         IN IF ~x.ok THEN {} ELSE S(e.ok /\ RecNear(o, MulRay(x.s, r)), "C14", "ray through the path cut at a position")
    (* ---- axicon ---- *)
    [] e.q = "axicon" ->
         LET a == s.el[g]
         IN S(e.ok /\ RNear(o[1], Deviation(a)), "C27", "deviation angle")
            \cup (IF IsInf(e.y) \/ RIsZero(Deviation(a)) THEN {} ELSE S(e.ok /\ RNear(o[2], RDiv(RAbs(e.y), Deviation(a))), "C27", "focal line"))
    (* ---- cavities ---- *)
    [] e.q = "modes" -> CavityClauses(s, e, sm)
    [] e.q = "roundtrip" ->
         LET b == BmOf(e.beam)  m == RMul(RQ(1, 100000), RAdd(RAbs(b.q[1]), RAbs(b.q[2])))
         IN IF RLt(TwoMinus(sm), RQ(1, 10000)) THEN {}
            ELSE S(e.ok /\ RLe(RAbs(RSub(o[1], b.q[1])), m) /\ RLe(RAbs(RSub(o[2], b.q[2])), m), "C16", "a laser mode reproduces itself when traced")
    (* ---- many rays ---- *)
    [] e.q = "many" ->
         IF ~e.exact /\ \E k \in 1..Len(e.rays) : TooClose(s, Flat(s, g), RayOf(e.rays[k])) THEN {}
         ELSE LET x == [k \in 1..Len(e.rays) |-> Trace(s, g, RayOf(e.rays[k]))]
                  last == [k \in 1..Len(x) |-> x[k][Len(x[k])]]
                  out == SelectSeq(last, LAMBDA r : ~r.bl)
              IN IF ~e.ok THEN {<<"C17", "tracing many rays failed">>}
                 ELSE S(Len(o.traces) = Len(x) /\ \A k \in 1..Len(x) : Len(o.traces[k]) = Len(x[k]) /\ \A j \in 1..Len(x[k]) : RecIs(o.traces[k][j], x[k][j]),
                        "C17", "one trace per ray, in order")
                      \cup S(o.n = Len(out) /\ Len(o.through) = Len(out) /\ \A k \in 1..Len(out) : RecIs(o.through[k], out[k]), "C17", "rays that get through, in order")
    [] e.q = "parallel" ->
         S(e.ok, "C17", "tracing in parallel failed")
         \cup (IF e.ok THEN S(o.n = Len(o.par) /\ o.par = o.ser, "C17", "the rays that get through are those of tracing them one by one") ELSE {})
         \cup (IF ~e.ok \/ (~e.exact /\ \E k \in 1..Len(e.rays) : TooClose(s, Flat(s, g), RayOf(e.rays[k]))) THEN {}
               ELSE LET x == [k \in 1..Len(e.rays) |-> Trace(s, g, RayOf(e.rays[k]))]
                        out == SelectSeq([k \in 1..Len(x) |-> x[k][Len(x[k])]], LAMBDA r : ~r.bl)
                    IN S(Len(o.par) = Len(out)
                         /\ \A k \in 1..Len(out) : Cardinality({j \in 1..Len(out) : RecIs(o.par[j], out[k])}) >= Cardinality({j \in 1..Len(out) : out[j] = out[k]}),
                         "C17", "rays that get through, in parallel"))
    [] e.q = "mulbeam" ->
         LET b == BmOf(e.beam)
         IN IF ~IsGroup(s, g) /\ s.el[g].k = "axicon" THEN SS(~e.ok, {"C15", "C27"}, "axicon accepts a beam")
            ELSE IF b.n # sm.n1 THEN S(~e.ok, "C15", "beam in the wrong medium accepted")
            ELSE S(e.ok /\ BmNear(o, BmThroughSum(sm, b)), "C15", "matrix * beam")
    [] e.q = "towaist" ->  \* the beam propagated to its reported waist
         LET b == BmOf(e.beam)
         IN S(e.ok /\ RNear(o[1], RZero) /\ RNear(o[2], b.q[2]) /\ NearRel(Sq(o[3]), RDiv(RMul(b.lam, b.q[2]), RMul(Pi, b.n)), RQ(1, 10000000))
                /\ NearRel(o[3], o[4], RQ(1, 10000000)), "C15", "size at the waist")
    (* ---- stops ---- *)
    [] e.q = "astop" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ IsNone(o[1]) /\ o[2] = PInf /\ e.has = "F", "C07", "no aperture stop")
         ELSE IF Degenerate(s, g) THEN {}
         ELSE LET is(c) == RNear(o[1], c.z) /\ RNear(o[2], c.d)
              IN IF e.ok /\ e.has = "T" /\ \E c \in StopSet(s, g) : is(c) THEN {}
                 ELSE IF e.ok /\ e.has = "T" /\ \E c \in StopSetDeviation(s, g) : is(c)
                      THEN {<<"C07", "entrance plane of an element with length not considered as aperture stop">>}
                 ELSE {<<"C07", "aperture stop">>}
    [] e.q = "marginal" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ o.some = FALSE, "C07", "no marginal rays")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) \/ ImagingUnsure(StopMatrix(s, g)) THEN {}
         ELSE IF IsImaging(StopMatrix(s, g)) THEN {}
         ELSE LET x == MarginalPair(s, g, e.y)
              IN S(e.ok /\ o.some /\ RecNear(o.up, Ray4(e.y, x.up, RZero, FALSE)) /\ RecNear(o.down, Ray4(e.y, x.down, RZero, FALSE))
                   /\ o.up[4] = FALSE /\ o.down[4] = FALSE, "C07", "marginal rays")
    [] e.q = "axial" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ o.some = FALSE, "C07", "no axial ray")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) \/ IsImaging(StopMatrix(s, g)) THEN {}
         ELSE LET x == MarginalPair(s, g, RZero)
              IN S(e.ok /\ o.some /\ RecNear(o.up, Ray4(RZero, x.up, RZero, FALSE)), "C07", "axial ray")
                 \* a slightly shallower axial ray is transmitted, a slightly steeper one is not (thin apertures)
                 \cup (IF thin /\ ~e.noNA THEN S(e.inside = "F" /\ e.outside = "T", "C07", "transmission around the axial ray") ELSE {})
    [] e.q = "chief" ->
         IF FieldCase(s, g) = "skip" THEN {}
         ELSE IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ o.some = FALSE, "C08", "no chief ray")
         ELSE LET x == ChiefRay(s, g, e.y)
              IN IF ImagingUnsure(StopMatrix(s, g)) THEN {} ELSE
                 IF ~x.some THEN S(e.ok /\ o.some = FALSE, "C08", "no chief ray")
                 ELSE S(e.ok /\ o.some /\ RecNear(o.ray, x.r) /\ o.ray[4] = FALSE, "C08", "chief ray")
    [] e.q = "fstop" ->
         LET c == FieldCase(s, g)
         IN IF c = "skip" THEN {}
            ELSE IF c = "none" THEN S(e.ok /\ IsNone(o[1]) /\ o[2] = PInf /\ e.has = "F", "C08", "no field stop")
            ELSE S(e.ok /\ e.has = "T" /\ \E x \in FieldStopSet(s, g) : RNear(o[1], x.z) /\ RNear(o[2], x.d), "C08", "field stop")
    [] e.q = "hfov" ->
         LET c == FieldCase(s, g)
         IN IF c = "skip" THEN {}
            ELSE IF c = "none" THEN S(e.ok /\ o[1] = PInf /\ o[2] = PInf, "C08", "infinite field of view")
            ELSE LET h == HalfField(s, g)
                 IN S(e.ok /\ RNearT(o[1], h, FieldTol) /\ RLe(o[1], RAdd(h, RMul(Tol, RAdd(ROne, h))))
                      /\ RNearT(o[2], RMul(RTwo, h), FieldTol), "C08", "field of view")
    [] e.q = "principal" ->
         LET c == FieldCase(s, g)
         IN IF c = "skip" THEN {}
            ELSE IF c = "none" THEN S(e.ok /\ o.some = FALSE, "C08", "no principal ray")
            ELSE LET x == ChiefRay(s, g, HalfField(s, g))
                 IN S(e.ok /\ o.some /\ RNearT(o.ray[1], x.r.y, FieldTol) /\ RNearT(o.ray[2], x.r.th, FieldTol) /\ o.ray[4] = FALSE, "C08", "principal ray")
    [] e.q = "imgsize" ->
         IF ~RIsZero(sm.D) /\ RLt(RAbs(sm.D), RQ(1, 10000)) THEN {}
         ELSE IF RIsZero(sm.D) THEN (IF e.exact THEN S(e.ok /\ o = PInf, "C08", "image size at infinity") ELSE {})
         ELSE LET m == RAbs(FwdConj(sm).m.A)
              IN IF RLt(m, RQ(1, 1000000)) THEN {}
                 ELSE IF e.use THEN S(e.ok /\ RNear(o, RMul(m, e.h)), "C08", "image size of the object")
                 ELSE LET c == FieldCase(s, g)
                      IN IF c = "skip" THEN {}
                         ELSE IF c = "none" THEN S(e.ok /\ o = PInf, "C08", "image size for infinite field")
                         ELSE S(e.ok /\ RNearT(o, RMul(m, RMul(RTwo, HalfField(s, g))), FieldTol), "C08", "image size")
    (* ---- pupil ---- *)
    [] e.q = "pupil" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ IsNone(o[1]) /\ IsNone(o[2]), "C09", "no entrance pupil")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) THEN {}
         ELSE LET x == Pupil(s, g)  a == StopMatrix(s, g).A
              IN IF (RIsZero(a) /\ ~e.exact) \/ (~RIsZero(a) /\ RLt(RAbs(a), RQ(1, 10000))) THEN {}
                 ELSE IF RIsZero(a) THEN S(e.ok /\ IsInf(o[1]) /\ o[2] = PInf, "C09", "telecentric entrance pupil")
                 ELSE S(e.ok /\ RNearT(o[1], x.z, RQ(1, 10000000)) /\ RNearT(o[2], x.d, RQ(1, 10000000)), "C09", "entrance pupil")
    [] e.q = "fnum" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ IsNone(o), "C09", "no f-number")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) \/ PowerUnsure(sm) THEN {}
         ELSE LET x == Pupil(s, g)  f == EFL(sm).f1
              IN IF RLt(RAbs(StopMatrix(s, g).A), RQ(1, 10000)) THEN {}
                 ELSE IF IsInf(f) THEN S(e.ok /\ IsInf(o), "C09", "f-number of an afocal system")
                 ELSE S(e.ok /\ RNearT(o, RDiv(f, x.d), RQ(1, 10000000)), "C09", "f-number")
    [] e.q = "na" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ IsNone(o), "C09", "NA without aperture stop")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) \/ IsImaging(StopMatrix(s, g)) \/ ImagingUnsure(StopMatrix(s, g)) THEN {}
         ELSE LET th == MarginalPair(s, g, RZero).up
              IN IF RLt(RI(8), RAbs(th)) THEN {} ELSE S(e.ok /\ RNearT(o, RMul(sm.n1, Sin(th)), RQ(1, 10000000)), "C09", "NA")
    [] e.q = "lagr" ->
         LET c == FieldCase(s, g)
         IN IF c = "skip" THEN {}
            ELSE IF c = "none" THEN S(e.ok /\ o = PInf, "C09", "Lagrange invariant without field stop")
            ELSE LET x == RMul(RMul(dv.n1, MarginalPair(s, g, RZero).up), HalfField(s, g))
                 IN S(e.ok /\ RNearT(o, x, RMul(RTwo, FieldTol)), "C09", "Lagrange invariant")
    (* ---- elements themselves ---- *)
    [] e.q = "surfs" ->
         LET el == s.el[g]
         IN IF el.k \notin {"di", "thick", "slab", "mirror"} THEN {}
            ELSE SS(e.ok /\ SameSurfaces(o, LeafSurfaces(el)), IF el.flip THEN {"C13"} ELSE {"C10"}, "list of surfaces")
    [] e.q = "poi" ->
         LET x == IF s.el[g].k \in {"lens", "mirror", "thick", "slab"} /\ HasPower(sm) THEN <<Foci(sm, e.z).z1, Foci(sm, e.z).z2>> ELSE <<>>
         IN IF PowerUnsure(sm) THEN {}
            ELSE S(e.ok /\ Len(o) = Len(x) /\ \A k \in 1..Len(x) : o[k][2] = (IF k = 1 THEN "$F_f$" ELSE "$F_b$") /\ RNearS(o[k][1], x[k], e.z), "C12", "points of interest")
    [] e.q = "equal" ->       \* made of the same arguments, or told apart by one of them; nothing equals something else
         LET same == s.el[g] = s.el[e.h]
         IN S(e.ok /\ o.eq = same /\ o.ne = ~same /\ ~o.other, "C10", "equality of elements")
    (* ---- efficiency ---- *)
    [] e.q = "report" -> ReportClauses(s, e, o)
    (* ---- drawings ---- *)
    [] e.q = "drawn" -> LET x == DrawnOf(s, g) IN S(e.ok /\ Len(o) = Len(x) /\ \A k \in 1..Len(x) : SameDrawing(s, o[k], x[k]), "C25", "elements where they are")
    [] e.q = "pupilmark" ->
         IF ~HasFiniteAperture(s, g) THEN S(e.ok /\ o = <<>>, "C25", "no entrance pupil to show")
         ELSE IF Degenerate(s, g) \/ ~Unambiguous(s, g) THEN {}
         ELSE LET x == Pupil(s, g)  a == StopMatrix(s, g).A
              IN IF RIsZero(a) THEN (IF e.exact THEN S(e.ok /\ o = <<>>, "C25", "entrance pupil at infinity") ELSE {})
                 ELSE IF RLt(RAbs(a), RQ(1, 10000)) THEN {}
                 ELSE S(e.ok /\ Len(o) = 1 /\ RNearT(o[1][2], Half(x.d), RQ(1, 100000)) /\ RNearT(o[1][1], x.z, RQ(1, 100000)), "C25", "entrance pupil where it is")
    [] e.q = "foci marks" ->
         LET x == MarksFrom(s, Items(s, g), RZero)
             near(a, b) == RLe(RAbs(RSub(a, b)), RAdd(RQ(6, 10000), RMul(RQ(1, 1000000), RAbs(b))))
             total(col) == LET F[k \in 0..Len(o)] == IF k = 0 THEN 0 ELSE F[k-1] + o[k][col] IN F[Len(o)]
         IN IF \E k \in 1..Len(Items(s, g)) : PowerUnsure(SumAt(s, Items(s, g)[k])) THEN {}
            ELSE S(e.ok /\ total(2) * 2 = Len(x) /\ total(3) * 2 = Len(x)
                   /\ (\A k \in 1..Len(o) : \E j \in 1..Len(x) : near(o[k][1], x[j].z))
                   /\ \A j \in 1..Len(x) : \E k \in 1..Len(o) : near(o[k][1], x[j].z) /\ o[k][IF x[j].f = 1 THEN 2 ELSE 3] > 0, "C25", "focal points marked where they are")
    [] e.q = "lines" -> LinesClauses(s, e, o)
    [] e.q = "images" -> ImagesClauses(s, e, o)
    [] e.q = "portrait" -> PortraitClauses(s, e, o)
    [] e.q = "shown" -> ShownClauses(s, e, o)
    [] e.q = "largest" ->
         IF ~IsGroup(s, e.g) THEN S(e.ok /\ RNear(o, s.el[e.g].ap), "C25", "largest diameter")
         ELSE LET ds == {s.el[i].ap : i \in Range(Flat(s, e.g))} \ {PInf}
                  sub == \A i \in 1..Len(s.el) : IsGroup(s, i) => \E j \in Range(Flat(s, i)) : s.el[j].ap # PInf
              IN IF ds = {} \/ ~sub THEN {} ELSE S(e.ok /\ o = (CHOOSE d \in ds : \A x \in ds : RLe(x, d)), "C25", "largest diameter")
    [] e.q = "switches" -> SwitchesClauses(s, e, o)
    [] e.q = "fieldshown" -> FieldShown(s, e, o)
    [] e.q = "beamlines" -> BeamLinesClauses(s, e, o)
    [] e.q = "waists" -> WaistsClauses(s, e, o)
    [] e.q = "stopmarks" -> StopMarksClauses(s, e, o)
    [] OTHER -> {<<"C00", "unknown query">>}

(* every public attribute of the loaded elements is as saved *)
LoadClauses(s, e) ==
  LET d == s.files[e.f].dump
  IN S(Len(e.dump) >= Len(d) /\ SubSeq(e.dump, Len(e.dump) - Len(d) + 1, Len(e.dump)) = d, "C20", "attributes of the loaded elements")

Own(s, e) ==
  CASE e.op = "trace" -> TraceClauses(s, e)
    [] e.op = "fresh" -> FreshClauses(e)
    [] e.op = "q"     -> IF e.q \in {"items", "item", "many", "parallel"} \/ Consistent(s, e.g) THEN QueryClauses(s, e) ELSE {}
    [] e.op = "beam"  -> BeamClauses(s, e)
    [] e.op = "newbeam" -> NewBeamClauses(e)
    [] e.op = "says" -> BeamSays(e.says, BmOf(e.beam))
    [] e.op = "text" -> IF e.kind = "element" /\ ~Consistent(s, e.g) THEN {} ELSE TextClauses(s, e)
    [] e.op = "crash" -> {<<"C00", e.what>>}
    [] e.op = "load" /\ e.ok /\ e.f \in DOMAIN s.files -> LoadClauses(s, e)
    [] OTHER          -> {}

(* e.also: properties about which this event speaks as well; e.mod: what a    *)
(* reading operation changed in the caller's rays, elements, earlier results    *)
Also(e) == IF "also" \in DOMAIN e THEN Range(e.also) ELSE {}
ModClauses(e) == IF "mod" \in DOMAIN e /\ e.mod # <<>> THEN {<<"C05", "reading modified rays, elements or earlier results">>} ELSE {}
Clauses(s, e) ==
  LET c == Own(s, e) IN c \cup {<<p, x[2]>> : p \in Also(e), x \in c} \cup ModClauses(e)

(* ------------------------- the behaviour ---------------------------------------*)
Init == /\ t \in 1..N /\ l = 1 /\ done = FALSE
        /\ st = [el |-> <<>>, files |-> [x \in {} |-> {}]]
        /\ ob = <<>>

Observing == {"trace", "fresh", "q", "beam", "newbeam", "says", "text", "read", "crash"}
Verdict(s, e, r, o2) ==
  Clauses(s, e)
  \cup (IF e.op \in Observing THEN {}
        ELSE SS(e.ok = r.ok, OkProps(e.op, r.ok), IF r.ok THEN "operation refused" ELSE "operation accepted"))
  \cup (IF e.op \in Observing \/ e.ok = r.ok THEN HeapClauses(s, r.st, o2, e, r.ok) ELSE {})

(* An execution is followed until its first event that violates the property  *)
(* under examination, or after which the observed structure is not the         *)
(* specified one any more.                                                     *)
Hard == {"operation refused", "operation accepted", "elements of group", "unexpected object"}

Next == /\ ~done
        /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l]
               r == Step(st, e)
               o2 == ApplyDiff(ob, e.diff)
               v == Verdict(st, e, r, o2)
               wanted == IF IOEnv.PROP = "*" THEN Traces[t].prop ELSE IOEnv.PROP
               stop == \E c \in v : c[1] = wanted \/ c[1] = "C00" \/ c[2] \in Hard
           IN /\ st' = r.st /\ ob' = o2
              /\ done' = stop
              /\ IF stop THEN PrintT("REJECT " \o ToJson(<<t, l, v>>)) ELSE TRUE
        /\ l' = l + 1 /\ t' = t
=============================================================================
