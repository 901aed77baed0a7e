------------------------------ MODULE MCSources ------------------------------
(* Every small source of rays, and every short history of looking at a random   *)
(* one; given to the code by harness/d_rays.py.                                  *)
EXTENDS RayColl, TLC, Json
CONSTANTS Setup, Depth, Count
VARIABLES c, hist, drawn
vars == <<c, hist, drawn>>

(* ---- deterministic sources ----------------------------------------------------*)
YBounds == {<<RI(-2), RI(3)>>, <<RI(-1), RI(1)>>, <<RI(1), RI(4)>>, <<RI(2), RI(2)>>}
TBounds == {<<RQ(-1, 4), RQ(1, 2)>>, <<RQ(-1, 8), RQ(1, 8)>>, <<RZero, RZero>>}
Symmetric(b) == b[1] = RNeg(b[2])
Kinds == {"uniform", "uniformY", "uniformT", "object", "lamp", "lampH", "lambert", "lambertY", "fan", "fanGroup"}
Specs ==
  {s \in [kind : Kinds, y : YBounds, t : TBounds, M : 0..3, N : 0..4, I : {1, 2, 5}] :
     /\ s.kind \in {"uniformY", "lambertY", "object", "lamp", "lampH"} => Symmetric(s.y)
     /\ s.kind \in {"uniformT", "object", "lamp", "lampH"} => Symmetric(s.t)
     /\ s.kind \in {"lambert", "lambertY"} => s.t = <<RZero, RZero>>
     /\ s.kind \notin {"lambert", "lambertY"} => s.I = 1
     /\ s.kind = "fan" => s.M = 1 /\ s.y = <<RI(2), RI(2)>>
     /\ s.kind # "fan" /\ s.kind # "fanGroup" => s.M > 0 /\ s.N > 0}
GridOf(s) == IF s.kind \in {"uniform", "uniformY", "uniformT", "object"} THEN UniformGrid(s.y[1], s.y[2], s.M, s.t[1], s.t[2], s.N)
             ELSE Grid(s.y[1], s.y[2], s.M, s.t[1], s.t[2], s.N)
IsGrid(s) == s.kind \notin {"lambert", "lambertY"} /\ s.M > 0 /\ s.N > 0

(* ---- looking at a random source -----------------------------------------------*)
Rnd == Random(Count, RI(-2), RI(2), RQ(-1, 2), RQ(1, 2))
(* the k-th value drawn; a value once drawn stays *)
DrawY(k) == Spaced(RI(-2), RI(2), 16, 1 + ((5 * k) % 16))
DrawT(k) == Spaced(RQ(-1, 2), RQ(1, 2), 16, 1 + ((7 * k) % 16))
RECURSIVE LookAt(_, _, _)
LookAt(items, idx, d) ==        \* look at the rays idx, one after the other: [items, drawn]
  IF idx = <<>> THEN [items |-> items, d |-> d]
  ELSE LET k == Head(idx)
       IN IF Known(items[k]) THEN LookAt(items, Tail(idx), d)
          ELSE LookAt([items EXCEPT ![k] = NewRay(DrawY(d + 1), DrawT(d + 1))], Tail(idx), d + 1)
Upto(n) == [k \in 1..n |-> k]
Span(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
Looks == {[q |-> "item", i |-> k] : k \in (-Count - 1)..Count}
         \cup {[q |-> "slice", i |-> x[1], j |-> x[2]] : x \in {<<0, 2>>, <<1, 9>>, <<-1, 9>>}}
         \cup {[q |-> "head", n |-> k] : k \in 1..2}
         \cup {[q |-> x] : x \in {"len", "iter", "ys", "ths"}}
Seen(o) ==      \* which rays the question looks at
  CASE o.q = "item" -> LET k == Idx(c.items, o.i) IN IF k = 0 THEN <<>> ELSE <<k>>
    [] o.q = "slice" -> Span(Clip(Count, o.i) + 1, Clip(Count, o.j))
    [] o.q = "head" -> Upto(IF o.n < Count THEN o.n ELSE Count)
    [] o.q = "len" -> <<>>
    [] OTHER -> Upto(Count)

Init == \/ Setup = "grids" /\ c \in Specs /\ hist = <<>> /\ drawn = 0 /\ PrintT("OUT " \o ToJson([src |-> c]))
        \/ Setup = "random" /\ c = Rnd /\ hist = <<>> /\ drawn = 0
Next == /\ Setup = "random" /\ Len(hist) < Depth
        /\ \E o \in Looks : LET r == LookAt(c.items, Seen(o), drawn)
                            IN /\ c' = [c EXCEPT !.items = r.items] /\ drawn' = r.d /\ hist' = Append(hist, o)
                               /\ IF Len(hist') = Depth THEN PrintT("OUT " \o ToJson([hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* ---- theorems ------------------------------------------------------------------*)
Grids == Setup = "grids" /\ IsGrid(c)
Announced == Grids => Len(GridOf(c)) = c.M * c.N
Between(a, x, b) == RLe(a, x) /\ RLe(x, b)
InBounds == Grids => LET g == GridOf(c) IN \A k \in 1..Len(g) : Between(c.y[1], g[k][1], c.y[2]) /\ Between(c.t[1], g[k][2], c.t[2])
EndsIncluded ==
  Grids => LET g == GridOf(c)  m == Len(g) IN
    /\ c.M > 1 => g[1][1] = c.y[1] /\ g[m][1] = c.y[2]
    /\ c.N > 1 => g[1][2] = c.t[1] /\ g[m][2] = c.t[2]
Even ==      \* as far from one to the next
  Grids => LET g == GridOf(c) IN
    /\ \A k \in 2..c.N : RMul(RSub(g[k][2], g[k-1][2]), RI(c.N - 1)) = RSub(c.t[2], c.t[1])
    /\ \A k \in 2..c.M : RMul(RSub(g[k * c.N][1], g[(k-1) * c.N][1]), RI(c.M - 1)) = RSub(c.y[2], c.y[1])
    /\ \A i, j \in 1..Len(g) : (i - 1) \div c.N = (j - 1) \div c.N => g[i][1] = g[j][1]      \* all the angles of one height together
UpAndDown ==    \* symmetric bounds give symmetric rays
  Grids /\ Symmetric(c.y) /\ Symmetric(c.t) /\ c.kind \notin {"lamp", "lampH", "fan", "fanGroup"} /\ c.M > 1 /\ c.N > 1 =>
    LET g == GridOf(c) IN \A i \in 1..Len(g) : g[Len(g) + 1 - i][1] = RNeg(g[i][1]) /\ g[Len(g) + 1 - i][2] = RNeg(g[i][2])
(* Lambert: most rays along the axis, none at grazing angles, as many up as down *)
Lamberts == Setup = "grids" /\ c.kind = "lambert" /\ c.M = 1 /\ c.y[1] = c.y[2]      \* the same at every height
ManyAt(j) == LambertCounts(c.I, Spaced(RNeg(HalfPi), HalfPi, c.N, j))
LambertLaw ==
  Lamberts /\ c.N > 1 =>
    /\ ManyAt(1) = {0} /\ \A j \in 1..c.N : ManyAt(j) = ManyAt(c.N + 1 - j) /\ \A k \in ManyAt(j) : k <= c.I
    /\ c.N % 2 = 1 => c.I \in ManyAt((c.N + 1) \div 2)
    /\ \A j \in 2..((c.N + 1) \div 2) : \E a \in ManyAt(j - 1) : \E b \in ManyAt(j) : a <= b
(* a random source: every ray within the bounds, and always the same *)
SeenStays == [][\A k \in 1..Count : Known(c.items[k]) => c'.items[k] = c.items[k]]_vars
SeenWithin == Setup = "random" => \A k \in 1..Count : Known(c.items[k]) => Between(c.y0, c.items[k][1], c.y1) /\ Between(c.t0, c.items[k][2], c.t1)
OnlyWhatIsSeen == Setup = "random" => Len(c.items) = Count /\ drawn = Cardinality({k \in 1..Count : Known(c.items[k])})
(* mutants *)
OpenEnded(a, b, n, k) == RAdd(a, RMul(RSub(b, a), RQ(k - 1, n)))
RECURSIVE Redrawn(_, _, _)
Redrawn(items, idx, d) ==      \* as the code once did: what is seen again is drawn again
  IF idx = <<>> THEN [items |-> items, d |-> d]
  ELSE Redrawn([items EXCEPT ![Head(idx)] = NewRay(DrawY(d + 1), DrawT(d + 1))], Tail(idx), d + 1)
=============================================================================
