------------------------------ MODULE RayColl -------------------------------
(* Collections of rays, their values and histograms, files of rays, and the   *)
(* sources that create them.                                                  *)
(* A ray is <<y, theta, z, isBlocked, apertureDiameter, wavelength>>.  In a    *)
(* random source the height and angle of a ray are not determined until they   *)
(* are looked at: Unk stands for such a value, and the first observation       *)
(* chooses it for ever.                                                        *)
EXTENDS BigRat, FiniteSets

Unk == <<9, <<>>, <<>>>>
InfAp == PInf
Known(r) == r[1] # Unk /\ r[2] # Unk
AllKnown(items) == \A k \in 1..Len(items) : Known(items[k])

(* collection: items, and the bounds of what is not determined yet             *)
Fixed(items) == [items |-> items, y0 |-> RZero, y1 |-> RZero, t0 |-> RZero, t1 |-> RZero]
NewRay(y, th) == <<y, th, RZero, FALSE, InfAp, None>>
Random(n, y0, y1, t0, t1) ==
  [items |-> [k \in 1..n |-> NewRay(Unk, Unk)], y0 |-> y0, y1 |-> y1, t0 |-> t0, t1 |-> t1]

Add(st, c) == [st EXCEPT !.c = Append(@, c)]
Done(st) == [ok |-> TRUE, st |-> st]
Refuse(st) == [ok |-> FALSE, st |-> st]

(* ------------------------------- changes ------------------------------------*)
NewColl(st, rays) == Done(Add(st, Fixed(rays)))
AppendRay(st, g, r) == Done([st EXCEPT !.c[g].items = Append(@, r)])
SaveColl(st, g, f) == Done([st EXCEPT !.files = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN st.c[g].items ELSE @[x]]])
WriteFile(st, f, rays) == Done([st EXCEPT !.files = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN rays ELSE @[x]]])
LoadColl(st, g, f, app) ==
  IF f \notin DOMAIN st.files THEN Refuse(st)
  ELSE Done([st EXCEPT !.c[g].items = IF app THEN @ \o st.files[f] ELSE st.files[f]])

(* ------------------------------- answers ------------------------------------*)
Ys(items) == [k \in 1..Len(items) |-> items[k][1]]
Ths(items) == [k \in 1..Len(items) |-> items[k][2]]
(* Python index; 0 when out of range *)
Idx(items, i) == IF i >= 0 /\ i < Len(items) THEN i + 1
                 ELSE IF i < 0 /\ -i <= Len(items) THEN Len(items) + i + 1 ELSE 0
Clip(n, i) == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i) ELSE IF i > n THEN n ELSE i
Sl(items, i, j) == LET a == Clip(Len(items), i)  b == Clip(Len(items), j)
                   IN IF a >= b THEN <<>> ELSE SubSeq(items, a + 1, b)

RECURSIVE MinOf(_, _)
MinOf(s, m) == IF s = <<>> THEN m ELSE MinOf(Tail(s), RMin(m, Head(s)))
RECURSIVE MaxOf(_, _)
MaxOf(s, m) == IF s = <<>> THEN m ELSE MaxOf(Tail(s), RMax(m, Head(s)))

(* ------------------------------- histograms ---------------------------------*)
(* requested bins and range; None stands for the default                       *)
Bins(b) == IF b = -99 THEN 40 ELSE b
HistRange(vals, lo, hi) ==
  LET a == IF lo = None THEN MinOf(vals, Head(vals)) ELSE lo
      b == IF hi = None THEN MaxOf(vals, Head(vals)) ELSE hi
  IN IF a = b THEN <<RSub(a, RHalf), RAdd(b, RHalf)>> ELSE <<a, b>>
HistRefused(vals, b, lo, hi) ==
  \/ Bins(b) < 1
  \/ (vals = <<>> /\ (lo = None \/ hi = None))
  \/ (LET r == HistRange(vals, lo, hi) IN RLt(r[2], r[1]))
Edge(r, n, k) == RAdd(r[1], RMul(RSub(r[2], r[1]), RQ(k, n)))
Centre(r, n, k) == RAdd(r[1], RMul(RSub(r[2], r[1]), RQ(2*k - 1, 2*n)))
InRange(v, r) == RLe(r[1], v) /\ RLe(v, r[2])
(* number of values in the range that are below the upper edge of bin k        *)
Below(vals, r, edge) == Cardinality({i \in 1..Len(vals) : InRange(vals[i], r) /\ RLt(vals[i], edge)})
BelowEq(vals, r, edge) == Cardinality({i \in 1..Len(vals) : InRange(vals[i], r) /\ RLe(vals[i], edge)})
Total(vals, r) == Cardinality({i \in 1..Len(vals) : InRange(vals[i], r)})
HistCount(vals, r, n, k) ==
  IF k = n THEN Total(vals, r) - Below(vals, r, Edge(r, n, n-1))
  ELSE Below(vals, r, Edge(r, n, k)) - Below(vals, r, Edge(r, n, k-1))

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k-1)
(* exact: the edges are exact in floating point; otherwise a value within 1e-9  *)
(* of an edge may be counted on either side                                     *)
HistOk(vals, b, lo, hi, centres, counts, exact) ==
  LET n == Bins(b)
      r == HistRange(vals, lo, hi)
      w == RMul(Tol, RAdd(RAbs(r[1]), RAdd(RAbs(r[2]), RSub(r[2], r[1]))))
  IN /\ Len(centres) = n /\ Len(counts) = n
     /\ \A k \in 1..n : counts[k] >= 0 /\ RNear(centres[k], Centre(r, n, k))
     /\ SumTo(counts, n) = Total(vals, r)
     /\ IF exact THEN \A k \in 1..n : counts[k] = HistCount(vals, r, n, k)
        ELSE \A k \in 1..(n-1) :
               /\ Below(vals, r, RSub(Edge(r, n, k), w)) <= SumTo(counts, k)
               /\ SumTo(counts, k) <= BelowEq(vals, r, RAdd(Edge(r, n, k), w))

(* ------------------------------- sources ------------------------------------*)
(* k-th of n values from a to b, ends included                                  *)
Spaced(a, b, n, k) == IF n = 1 THEN a ELSE RAdd(a, RMul(RSub(b, a), RQ(k - 1, n - 1)))
HalfPi == RDiv(<<1, <<6939, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>, One1>>,
               <<1, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2>>, One1>>)

(* M heights, N angles at every height                                          *)
Grid(y0, y1, M, t0, t1, N) ==
  [k \in 1..(M * N) |-> NewRay(Spaced(y0, y1, M, ((k - 1) \div N) + 1), Spaced(t0, t1, N, ((k - 1) % N) + 1))]
(* a single height is on the axis when the bounds contain it                    *)
UniformGrid(y0, y1, M, t0, t1, N) ==
  IF M = 1 /\ RLe(y0, RZero) /\ RLe(RZero, y1) THEN Grid(RZero, RZero, 1, t0, t1, N) ELSE Grid(y0, y1, M, t0, t1, N)

RECURSIVE CosSer(_, _, _, _)
CosSer(x2, term, k, acc) ==
  IF k > 32 THEN acc ELSE LET u == RNeg(RDiv(RMul(term, x2), RI(k * (k + 1)))) IN CosSer(x2, u, k + 2, RAdd(acc, u))
CosOf(x) == CosSer(RSq(x), ROne, 1, ROne)
RECURSIVE FloorInt(_, _)
FloorInt(x, k) == IF RLt(x, RI(k + 1)) THEN k ELSE FloorInt(x, k + 1)
(* number of rays at the angle: both neighbours when the product is an integer up to rounding *)
LambertCounts(I, th) ==
  LET x == RMul(RI(I), CosOf(th))
  IN {FloorInt(RMax(RZero, RSub(x, RMul(Tol, RI(I + 1)))), 0), FloorInt(RMax(RZero, RAdd(x, RMul(Tol, RI(I + 1)))), 0)}
=============================================================================
