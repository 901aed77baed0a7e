------------------------------ MODULE RayTrace ------------------------------
(* Conformance of recorded executions with RayColl.                           *)
EXTENDS RayColl, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES t, l, st, done
vars == <<t, l, st, done>>

S(cond, props, what) == IF cond THEN {} ELSE {<<p, what>> : p \in props}

(* ---- learning from observations: entry k of the collection has coordinate j *)
Fits(c, o, r) ==
  /\ \A j \in 3..6 : o[j] = r[j]
  /\ (r[1] = Unk \/ o[1] = r[1]) /\ (r[2] = Unk \/ o[2] = r[2])
Bounded(c, o, r) ==
  /\ r[1] = Unk => (IsFin(o[1]) /\ RLe(c.y0, o[1]) /\ RLe(o[1], c.y1))
  /\ r[2] = Unk => (IsFin(o[2]) /\ RLe(c.t0, o[2]) /\ RLe(o[2], c.t1))
FitY(o, r) == r[1] = Unk \/ o = r[1]
FitT(o, r) == r[2] = Unk \/ o = r[2]
InY(c, o, r) == r[1] = Unk => (IsFin(o) /\ RLe(c.y0, o) /\ RLe(o, c.y1))
InT(c, o, r) == r[2] = Unk => (IsFin(o) /\ RLe(c.t0, o) /\ RLe(o, c.t1))
SeqFits(c, o, items) == Len(o) = Len(items) /\ \A k \in 1..Len(items) : Fits(c, o[k], items[k])
SeqIn(c, o, items) == \A k \in 1..Len(items) : k <= Len(o) => Bounded(c, o[k], items[k])
LearnSeq(items, o, off) == [k \in 1..Len(items) |-> IF k > off /\ k - off <= Len(o) THEN o[k - off] ELSE items[k]]
LearnY(items, o) == [k \in 1..Len(items) |-> IF k <= Len(o) THEN [items[k] EXCEPT ![1] = o[k]] ELSE items[k]]
LearnT(items, o) == [k \in 1..Len(items) |-> IF k <= Len(o) THEN [items[k] EXCEPT ![2] = o[k]] ELSE items[k]]

IsRandom(c) == ~AllKnown(c.items)
WhoseValue(c) == IF IsRandom(c) THEN {"C18", "C19"} ELSE {"C18"}

(* ---- one answer: [v |-> violated clauses, items |-> what is known afterwards] *)
Ans(v, items) == [v |-> v, items |-> items]
ASeq(c, o, what) ==     \* the whole content
  LET good == SeqFits(c, o, c.items)
  IN Ans(S(good, WhoseValue(c) \cup {"C19"}, what) \cup (IF good THEN S(SeqIn(c, o, c.items), {"C19"}, "rays within the bounds") ELSE {}),
         IF good THEN o ELSE c.items)

Answer(c, e) ==
  LET o == e.obs  items == c.items  p == WhoseValue(c) \cup (IF e.src THEN {"C19"} ELSE {}) IN
  CASE e.q \in {"len", "count"} -> Ans(S(e.ok /\ o = Len(items), p, "number of rays"), items)
    [] e.q = "ys" -> LET good == e.ok /\ Len(o) = Len(items) /\ \A k \in 1..Len(items) : FitY(o[k], items[k])
                     IN Ans(S(good, p, "heights") \cup (IF good THEN S(\A k \in 1..Len(o) : InY(c, o[k], items[k]), {"C19"}, "heights within the bounds") ELSE {}),
                            IF good THEN LearnY(items, o) ELSE items)
    [] e.q = "ths" -> LET good == e.ok /\ Len(o) = Len(items) /\ \A k \in 1..Len(items) : FitT(o[k], items[k])
                      IN Ans(S(good, p, "angles") \cup (IF good THEN S(\A k \in 1..Len(o) : InT(c, o[k], items[k]), {"C19"}, "angles within the bounds") ELSE {}),
                             IF good THEN LearnT(items, o) ELSE items)
    [] e.q \in {"iter", "list", "rays"} -> IF ~e.ok THEN Ans(S(FALSE, p, "iteration"), items) ELSE ASeq(c, o, "iteration visits every ray once, in order")
    [] e.q \in {"head", "nested"} ->       \* the first rays of an iteration that is abandoned, or of one of several at the same time
         LET sub == SubSeq(items, 1, IF Len(o) < Len(items) THEN Len(o) ELSE Len(items))
             good == e.ok /\ SeqFits(c, o, sub) /\ Len(o) = (IF e.n < Len(items) THEN e.n ELSE Len(items))
         IN Ans(S(good, p, "interleaved iterations visit every ray once") \cup (IF good THEN S(SeqIn(c, o, sub), {"C19"}, "rays within the bounds") ELSE {}),
                IF good THEN LearnSeq(items, o, 0) ELSE items)
    [] e.q = "item" ->
         LET k == Idx(items, e.i)
         IN IF k = 0 THEN Ans(S(~e.ok, p, "index outside the collection accepted"), items)
            ELSE LET good == e.ok /\ Fits(c, o, items[k])
                 IN Ans(S(good, p, "item at an index") \cup (IF good THEN S(Bounded(c, o, items[k]), {"C19"}, "ray within the bounds") ELSE {}),
                        IF good THEN [items EXCEPT ![k] = o] ELSE items)
    [] e.q = "slice" ->
         LET a == Clip(Len(items), e.i)  sub == Sl(items, e.i, e.j)
             good == e.ok /\ SeqFits(c, o, sub)
         IN Ans(S(good, p, "slice"), IF good THEN LearnSeq(items, o, a) ELSE items)
    [] e.q \in {"hist", "ahist"} ->
         IF ~AllKnown(items) THEN Ans(S(FALSE, {"C00"}, "histogram of undetermined rays"), items)
         ELSE LET vals == IF e.q = "hist" THEN Ys(items) ELSE Ths(items)
              IN IF HistRefused(vals, e.bins, e.lo, e.hi) THEN Ans(S(~e.ok, {"C18"}, "impossible histogram given"), items)
                 ELSE Ans(S(e.ok /\ HistOk(vals, e.bins, e.lo, e.hi, e.obs[1], e.obs[2], e.exact), {"C18"},
                            IF e.q = "hist" THEN "height histogram" ELSE "angle histogram"), items)
    [] OTHER -> Ans({<<"C00", "unknown query">>}, items)

(* ---- sources ------------------------------------------------------------- *)
SameRay(o, r) == /\ RNear(o[1], r[1]) /\ RNear(o[2], r[2]) /\ \A j \in 3..6 : o[j] = r[j]
SameRays(o, g) == Len(o) = Len(g) /\ \A k \in 1..Len(g) : SameRay(o[k], g[k])

(* angles one after the other, at each angle all the heights, each int(I cos) times *)
RECURSIVE Lambert(_, _, _, _, _)
Lambert(o, e, j, pos, ok) ==
  IF ~ok THEN FALSE
  ELSE IF j > e.N THEN pos = Len(o) + 1
  ELSE LET th == Spaced(RNeg(HalfPi), HalfPi, e.N, j)
           good(k) == /\ pos + e.M * k - 1 <= Len(o)
                      /\ \A m \in 1..e.M : \A i \in 1..k : SameRay(o[pos + (m - 1) * k + i - 1], NewRay(Spaced(e.y0, e.y1, e.M, m), th))
       IN \E k \in LambertCounts(e.I, th) : good(k) /\ Lambert(o, e, j + 1, pos + e.M * k, TRUE)

Announced(e) == \* documented attributes of the source
  \A k \in 1..Len(e.att) : RNear(e.att[k][1], e.att[k][2])

SourceStep(s, e) ==
  CASE e.kind = "uniform" -> [st |-> Add(s, Fixed(e.obs)), v |-> S(e.ok /\ SameRays(e.obs, UniformGrid(e.y0, e.y1, e.M, e.t0, e.t1, e.N)), {"C19"}, "grid of heights and angles")]
    [] e.kind = "grid" -> [st |-> Add(s, Fixed(e.obs)), v |-> S(e.ok /\ SameRays(e.obs, Grid(e.y0, e.y1, e.M, e.t0, e.t1, e.N)), {"C19"}, "grid of heights and angles")]
    [] e.kind = "lambert" -> [st |-> Add(s, Fixed(e.obs)), v |-> S(e.ok /\ Lambert(e.obs, e, 1, 1, TRUE), {"C19"}, "Lambertian grid")]
    [] e.kind = "random" -> [st |-> Add(s, Random(e.n, e.y0, e.y1, e.t0, e.t1)), v |-> {}]
    [] e.kind = "refused" -> [st |-> s, v |-> S(~e.ok, {"C19"}, "impossible source accepted")]

(* ---- the step ------------------------------------------------------------- *)
Change(s, e) ==
  CASE e.op = "new"    -> IF e.bad THEN Refuse(s) ELSE NewColl(s, e.rays)
    [] e.op = "append" -> IF e.bad THEN Refuse(s) ELSE AppendRay(s, e.g, e.ray)
    [] e.op = "save"   -> SaveColl([s EXCEPT !.c[e.g].items = IF e.after # <<>> THEN LearnSeq(@, e.after, 0) ELSE @], e.g, e.f)
    [] e.op = "write"  -> WriteFile(s, e.f, e.rays)
    [] e.op = "load"   -> LoadColl(s, e.g, e.f, e.app)
    [] e.op = "badload" -> Refuse(s)

PropsOf(op) == CASE op \in {"save", "load", "badload"} -> {"C20", "C18"}
                 [] OTHER -> {"C18"}

(* the content of every collection that is known to both must be as specified *)
ContentClauses(s2, e) ==
  UNION {LET g == e.see[k][1]  o == e.see[k][2]
         IN IF g > Len(s2.c) THEN {<<"C00", "unexpected collection">>}
            ELSE S(SeqFits(s2.c[g], o, s2.c[g].items), PropsOf(e.op), "content of the collection")
         : k \in 1..Len(e.see)}

(* the source the saved rays come from had these rays already *)
SaveClauses(s, e) ==
  IF e.op = "save" /\ e.after # <<>>
  THEN S(SeqFits(s.c[e.g], e.after, s.c[e.g].items), {"C20", "C18", "C19"}, "saving changed the rays")
  ELSE {}

RECURSIVE Answers(_, _, _)
Answers(s, qs, v) ==
  IF qs = <<>> THEN [st |-> s, v |-> v]
  ELSE LET e == Head(qs)
           a == Answer(s.c[e.g], e)
       IN Answers([s EXCEPT !.c[e.g].items = a.items], Tail(qs), v \cup a.v)

Judge(s, e) ==   \* [st, v]
  CASE e.op = "crash" -> [st |-> s, v |-> {<<"C00", e.what>>}]
    [] e.op = "q" -> Answers(s, <<e>>, {})
    [] e.op = "during" -> Answers(s, e.qs, {})          \* answers given while an iteration is going on, and the iteration itself
    [] e.op = "source" -> SourceStep(s, e)
    [] OTHER ->
         LET r == Change(s, e)
         IN [st |-> r.st,
             v |-> S(e.ok = r.ok, PropsOf(e.op), IF r.ok THEN "operation refused" ELSE "operation accepted")
                   \cup SaveClauses(s, e)
                   \cup (IF e.ok = r.ok THEN ContentClauses(r.st, e) ELSE {})]

Hard == {"operation refused", "operation accepted", "unexpected collection", "content of the collection"}
Init == t \in 1..N /\ l = 1 /\ done = FALSE /\ st = [c |-> <<>>, files |-> [x \in {} |-> <<>>]]
Next == /\ ~done /\ l <= Len(Traces[t].ev)
        /\ LET r == Judge(st, Traces[t].ev[l])
               wanted == IF IOEnv.PROP = "*" THEN Traces[t].prop ELSE IOEnv.PROP
               stop == \E c \in r.v : c[1] = wanted \/ c[1] = "C00" \/ c[2] \in Hard
           IN /\ st' = r.st
              /\ done' = stop
              /\ IF stop THEN PrintT("REJECT " \o ToJson(<<t, l, r.v>>)) ELSE TRUE
        /\ l' = l + 1 /\ t' = t
=============================================================================
