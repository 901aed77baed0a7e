------------------------------- MODULE MCRays --------------------------------
(* Every short history of a few collections of rays: theorems about the         *)
(* answers, and behaviours to replay on the code (harness/d_rays.py).            *)
EXTENDS RayColl, TLC, Json
CONSTANT Depth
VARIABLES st, hist
vars == <<st, hist>>

Ry(y, th) == NewRay(RQ(y, 2), RQ(th, 8))
Pool == <<Ry(1, 0), Ry(-3, 2), Ry(4, -1), Ry(1, 3)>>
Start0 == NewColl(NewColl([c |-> <<>>, files |-> [x \in {} |-> <<>>]], <<Pool[1], Pool[2]>>).st, <<>>).st
Changes == {[op |-> "append", g |-> g, k |-> k] : g \in {1, 2}, k \in {3, 4}}
           \cup {[op |-> "save", g |-> g, f |-> "a"] : g \in {1, 2}}
           \cup {[op |-> "load", g |-> g, f |-> "a", app |-> b] : g \in {1, 2}, b \in BOOLEAN}
Hists == {<<4, RI(-2), RI(2)>>, <<2, RZero, RI(4)>>, <<3, None, None>>}
Questions == {[op |-> "q", q |-> q, g |-> g] : q \in {"len", "ys", "ths", "iter"}, g \in {1, 2}}
             \cup {[op |-> "q", q |-> q, g |-> g, h |-> h] : q \in {"hist", "ahist"}, g \in {1}, h \in Hists}
             \cup {[op |-> "q", q |-> "head", g |-> 1, n |-> 1]}
Do(s, o) ==
  CASE o.op = "append" -> AppendRay(s, o.g, Pool[o.k])
    [] o.op = "save" -> SaveColl(s, o.g, o.f)
    [] o.op = "load" -> LoadColl(s, o.g, o.f, o.app)
    [] OTHER -> Done(s)
Init == st = Start0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Changes \cup Questions :
             /\ st' = Do(st, o).st /\ hist' = Append(hist, o)
             /\ IF Len(hist') = Depth THEN PrintT("OUT " \o ToJson([hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* ---- theorems ------------------------------------------------------------------*)
Vals == {Ys(st.c[g].items) : g \in 1..Len(st.c)} \cup {Ths(st.c[g].items) : g \in 1..Len(st.c)}
AllHists == Hists \cup {<<1, None, None>>, <<5, RI(-1), None>>}
(* every value in the range is counted exactly once; the centres cover the range evenly *)
CountedOnce ==
  \A v \in Vals : \A h \in AllHists :
    HistRefused(v, h[1], h[2], h[3]) \/
    LET r == HistRange(v, h[2], h[3])  n == Bins(h[1])
        c == [k \in 1..n |-> HistCount(v, r, n, k)]
    IN /\ SumTo(c, n) = Total(v, r) /\ \A k \in 1..n : c[k] >= 0
       /\ HistOk(v, h[1], h[2], h[3], [k \in 1..n |-> Centre(r, n, k)], c, TRUE)
       /\ (h[2] = None /\ h[3] = None => Total(v, r) = Len(v))
RECURSIVE Concat(_, _, _)
Concat(s, i, j) == IF i >= j THEN <<>> ELSE <<s[Idx(s, i)]>> \o Concat(s, i + 1, j)
SlicesAreItems ==
  \A g \in 1..Len(st.c) : LET s == st.c[g].items IN
    \A i \in 0..Len(s) : \A j \in i..Len(s) : Sl(s, i, j) = Concat(s, i, j) /\ Sl(s, i - Len(s) - (IF i = Len(s) THEN -Len(s) ELSE 0), j) = Sl(s, i, j)
OnlyTheirOwn ==      \* a change concerns one collection
  [][LET o == hist'[Len(hist')] IN \A g \in 1..Len(st.c) : (o.op = "q" \/ o.op = "save" \/ g # o.g) => st'.c[g] = st.c[g]]_vars
(* mutants *)
ClosedBins(vals, r, n, k) == BelowEq(vals, r, Edge(r, n, k)) - Below(vals, r, Edge(r, n, k-1))
SharedFile(s, g, f, app) == IF f \notin DOMAIN s.files THEN Refuse(s) ELSE Done([s EXCEPT !.c = [k \in 1..Len(@) |-> [@[k] EXCEPT !.items = s.files[f]]]])
=============================================================================
