------------------------------- MODULE World --------------------------------
(* The system state behind the API: a heap of element objects (leaves and    *)
(* groups, groups refer to elements by identity so that sharing and nesting  *)
(* are explicit), and files.  Every public operation is an operator from a    *)
(* state to [ok, st]: ok = FALSE means the operation is refused with an error *)
(* and then st is the unchanged state.                                        *)
(*                                                                            *)
(*   st.el    : sequence of elements; a group is                              *)
(*              [k |-> "group", items, sum, flip, label]                      *)
(*              sum is the summary of the group as of its own last edit       *)
(*   st.files : saved snapshots [el, items] by file name                      *)
EXTENDS Optics

Range(s) == {s[k] : k \in 1..Len(s)}
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

IsGroup(st, i) == st.el[i].k = "group"
SumAt(st, i) == IF IsGroup(st, i) THEN st.el[i].sum ELSE SumOf(st.el[i])

RECURSIVE FoldItems(_, _, _)
FoldItems(st, items, acc) ==
  IF items = <<>> THEN acc ELSE FoldItems(st, Tail(items), SumMul(SumAt(st, Head(items)), acc))
(* nothing yet, in the medium of the first element *)
Start(st, items) == IF items = <<>> THEN IdSum ELSE [IdSum EXCEPT !.n1 = SumAt(st, Head(items)).n1, !.n2 = SumAt(st, Head(items)).n1]
Derived(st, items) == FoldItems(st, items, Start(st, items))

(* ---- putting a sequence of elements next to each other --------------------*)
(* Is every partial product a ray-transfer matrix between its two media?       *)
RECURSIVE PrefixesOk(_, _, _)
PrefixesOk(st, items, acc) ==
  /\ RLe(RAbs(RSub(Det(acc), RDiv(acc.n1, acc.n2))), Eps)
  /\ items # <<>> => PrefixesOk(st, Tail(items), SumMul(SumAt(st, Head(items)), acc))
(* a space adopts the index of the element before it, anything else refuses;   *)
(* the same space object at two places can not have two indices                *)
RECURSIVE Settle(_, _, _)
Settle(st, items, i) ==
  IF i > Len(items) THEN [ok |-> TRUE, st |-> st]
  ELSE IF i = 1 THEN Settle(st, items, 2)
  ELSE LET n == SumAt(st, items[i-1]).n2
       IN IF SumAt(st, items[i]).n1 = n THEN Settle(st, items, i+1)
          ELSE IF st.el[items[i]].k = "space"
               THEN LET s2 == [st EXCEPT !.el[items[i]].n1 = n, !.el[items[i]].n2 = n]
                    IN IF (\E k \in 1..(i-1) : items[k] = items[i]) /\ ~PrefixesOk(s2, SubSeq(items, 1, i), Start(s2, items))
                       THEN [ok |-> FALSE, st |-> st] ELSE Settle(s2, items, i+1)
               ELSE [ok |-> FALSE, st |-> st]

SetItems(st, g, items) ==
  LET r == Settle(st, items, 1)
  IN IF r.ok THEN [ok |-> TRUE,
                   st |-> [r.st EXCEPT !.el[g].items = items, !.el[g].sum = Derived(r.st, items)]]
     ELSE [ok |-> FALSE, st |-> st]

Refused(st) == [ok |-> FALSE, st |-> st]

NewLeaf(st, c) == IF CtorRefuses(c) THEN Refused(st)
                  ELSE [ok |-> TRUE, st |-> [st EXCEPT !.el = Append(@, Construct(c))]]
EmptyGroup(label) == [k |-> "group", items |-> <<>>, sum |-> IdSum, flip |-> FALSE, label |-> label]
NewGroup(st, items, label) ==
  LET s1 == [st EXCEPT !.el = Append(@, EmptyGroup(label))]
      r  == SetItems(s1, Len(s1.el), items)
  IN IF r.ok THEN r ELSE Refused(st)

(* ---- Python list index arithmetic -----------------------------------------*)
PyClamp(i, n) == LET j == IF i < 0 THEN i + n ELSE i IN IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j
PyIndexOk(i, n) == i >= -n /\ i < n
PyIndex(i, n) == IF i < 0 THEN i + n ELSE i
Splice(s, a, b, t) == SubSeq(s, 1, a) \o t \o SubSeq(s, b+1, Len(s))   \* s[a:b] = t
PyStop(a, b) == IF b < a THEN a ELSE b

Items(st, g) == st.el[g].items
AppendTo(st, g, i) == SetItems(st, g, Append(Items(st, g), i))
InsertInto(st, g, idx, new) ==
  LET s == Items(st, g)  a == PyClamp(idx, Len(s)) IN SetItems(st, g, Splice(s, a, a, new))
PopAt(st, g, idx) ==
  LET s == Items(st, g)  n == Len(s)
  IN IF ~PyIndexOk(idx, n) THEN Refused(st)
     ELSE LET a == PyIndex(idx, n) IN SetItems(st, g, Splice(s, a, a+1, <<>>))
SetAt(st, g, idx, new) ==
  LET s == Items(st, g)  n == Len(s)
  IN IF ~PyIndexOk(idx, n) THEN Refused(st)
     ELSE LET a == PyIndex(idx, n) IN SetItems(st, g, Splice(s, a, a+1, new))
SetSliceAt(st, g, i, j, new) ==
  LET s == Items(st, g)  a == PyClamp(i, Len(s))  b == PyStop(a, PyClamp(j, Len(s)))
  IN SetItems(st, g, Splice(s, a, b, new))
GetSlice(st, g, i, j) ==
  LET s == Items(st, g)  a == PyClamp(i, Len(s))  b == PyStop(a, PyClamp(j, Len(s)))
  IN NewGroup(st, SubSeq(s, a+1, b), "")

(* Nothing was changed behind the back of a group (an element it shares with     *)
(* another group was flipped there): all its products still make sense             *)
RECURSIVE Consistent(_, _)
Consistent(st, g) ==
  IF ~IsGroup(st, g) THEN TRUE
  ELSE /\ PrefixesOk(st, Items(st, g), Start(st, Items(st, g)))
       /\ \A k \in 1..Len(Items(st, g)) : Consistent(st, Items(st, g)[k])

(* ---- orientation -----------------------------------------------------------*)
SeenInside(seen, i) == seen \cup {i}
RECURSIVE FlipIn(_, _, _), FlipAll(_, _, _)
(* every object that hangs below the group once, however often it is used;      *)
(* seen: those that have been turned already                                     *)
FlipAll(st, items, seen) ==
  IF items = <<>> THEN [ok |-> TRUE, st |-> st, seen |-> seen]
  ELSE LET r == FlipIn(st, Head(items), seen)
       IN IF r.ok THEN FlipAll(r.st, Tail(items), r.seen) ELSE r
FlipIn(st, i, seen) ==
  IF i \in seen THEN [ok |-> TRUE, st |-> st, seen |-> seen]
  ELSE IF ~IsGroup(st, i) THEN [ok |-> TRUE, st |-> [st EXCEPT !.el[i] = FlipLeaf(@)], seen |-> seen \cup {i}]
  ELSE LET r == FlipAll(st, Items(st, i), SeenInside(seen, i))
       IN IF ~r.ok THEN r
          ELSE LET q == SetItems(r.st, i, Reverse(Items(st, i)))
               IN [ok |-> q.ok, st |-> [q.st EXCEPT !.el[i].flip = ~@], seen |-> r.seen]
Flip(st, i) ==
  LET r == FlipIn(st, i, {}) IN IF r.ok THEN [ok |-> TRUE, st |-> r.st] ELSE Refused(st)

(* ---- files ------------------------------------------------------------------*)
(* objects reachable from a list of items, each once, in depth-first order     *)
RECURSIVE Reach(_, _, _)
Reach(st, items, acc) ==
  IF items = <<>> THEN acc
  ELSE LET i == Head(items)
           a1 == IF i \in Range(acc) THEN acc
                 ELSE IF IsGroup(st, i) THEN Reach(st, Items(st, i), Append(acc, i))
                 ELSE Append(acc, i)
       IN Reach(st, Tail(items), a1)

Save(st, g, f) ==
  [ok |-> TRUE,
   st |-> [st EXCEPT !.files = [x \in DOMAIN st.files \cup {f} |->
             IF x = f THEN [bad |-> FALSE, el |-> st.el, items |-> Items(st, g)] ELSE st.files[x]]]]

IndexIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
(* fresh copies of what was saved *)
LoadFrom(st, g, f, app) ==
  IF f \notin DOMAIN st.files \/ st.files[f].bad THEN Refused(st)
  ELSE LET snap == st.files[f]
           reach == Reach([el |-> snap.el], snap.items, <<>>)
           base == Len(st.el)
           ren(i) == base + IndexIn(reach, i)
           copy(i) == LET e == snap.el[i]
                      IN IF e.k = "group" THEN [e EXCEPT !.items = [k \in 1..Len(e.items) |-> ren(e.items[k])]]
                         ELSE e
           new == [k \in 1..Len(reach) |-> copy(reach[k])]
           items == [k \in 1..Len(snap.items) |-> ren(snap.items[k])]
           s1 == [st EXCEPT !.el = @ \o new]
           r == SetItems(s1, g, IF app THEN Items(st, g) \o items ELSE items)
       IN IF r.ok THEN r ELSE Refused(st)

(* ---- rays through the path ---------------------------------------------------*)
RECURSIVE Trace(_, _, _), TraceItems(_, _, _)
TraceItems(st, items, r) ==
  IF items = <<>> THEN <<>>
  ELSE LET t == Trace(st, Head(items), r) IN t \o TraceItems(st, Tail(items), t[Len(t)])
Trace(st, i, r) ==
  IF IsGroup(st, i) THEN <<r>> \o TraceItems(st, Items(st, i), r) ELSE LeafTrace(st.el[i], r)
Through(st, i, r) == LET t == Trace(st, i, r) IN t[Len(t)]

(* leaves in the order light meets them *)
(* the ray of a trace at position z: those recorded exactly there, otherwise the     *)
(* straight propagation of the last one before it                                    *)
RayAt(r, z) == Ray4(RAdd(r.y, RMul(RSub(z, r.z), r.th)), r.th, z, r.bl)
RECURSIVE FirstBeyond(_, _, _)
FirstBeyond(tr, z, k) == IF k > Len(tr) THEN k ELSE IF RLt(z, tr[k].z) THEN k ELSE FirstBeyond(tr, z, k+1)
AlongSet(tr, z) ==
  LET here == {tr[k] : k \in {j \in 1..Len(tr) : RNear(z, tr[j].z)}}
      b == FirstBeyond(tr, z, 1)
  IN IF here # {} THEN here
     ELSE IF b > Len(tr) THEN {tr[Len(tr)]}
     ELSE IF b = 1 THEN {RayAt(tr[1], z)} ELSE {RayAt(tr[b-1], z)}

(* ---- Gaussian beams: [q, z, n, lam, clip] -------------------------------------------*)
Bm(q, z, n, lam, clip) == [q |-> q, z |-> z, n |-> n, lam |-> lam, clip |-> clip]
BmTooBig(b, ap) ==
  IF IsInf(ap) THEN FALSE ELSE IF RLe(b.q[2], RZero) THEN TRUE
  ELSE RLt(RSq(RMul(ap, RHalf)), W2(b.q, b.lam, b.n))
BmClose(b, ap) ==
  IF IsInf(ap) \/ RLe(b.q[2], RZero) THEN FALSE
  ELSE RNearT(W2(b.q, b.lam, b.n), RSq(RMul(ap, RHalf)), RMul(Tol, RSq(RMul(ap, RHalf))))
BmThroughSum(s, b) == Bm(QThrough(s, b.q), RAdd(b.z, s.L), s.n2, b.lam, b.clip)
(* [ok, tr]: refused in the wrong medium or by an axicon.  unsure: the size at the   *)
(* edge of an aperture is too close to call, or differs across a thick element       *)
BmLeaf(e, b) ==
  IF e.k = "axicon" \/ b.n # e.n1 THEN [ok |-> FALSE, tr |-> <<>>, unsure |-> FALSE]
  ELSE LET o == BmThroughSum(SumOf(e), b)
           c == BmTooBig(o, e.ap)
       IN [ok |-> TRUE, tr |-> <<[o EXCEPT !.clip = @ \/ c]>>,
           unsure |-> BmClose(o, e.ap) \/ (RLt(RZero, e.L) /\ BmTooBig(b, e.ap) # c)]
RECURSIVE BmTrace(_, _, _), BmItems(_, _, _)
BmItems(st, items, b) ==
  IF items = <<>> THEN [ok |-> TRUE, tr |-> <<>>, unsure |-> FALSE]
  ELSE LET h == BmTrace(st, Head(items), b)
       IN IF ~h.ok THEN h
          ELSE LET r == BmItems(st, Tail(items), h.tr[Len(h.tr)])
               IN [ok |-> r.ok, tr |-> h.tr \o r.tr, unsure |-> h.unsure \/ r.unsure]
BmTrace(st, i, b) ==
  IF IsGroup(st, i)
  THEN LET r == BmItems(st, Items(st, i), b) IN [r EXCEPT !.tr = <<b>> \o @]
  ELSE BmLeaf(st.el[i], b)

RECURSIVE Flat(_, _), FlatItems(_, _)
FlatItems(st, items) == IF items = <<>> THEN <<>> ELSE Flat(st, Head(items)) \o FlatItems(st, Tail(items))
Flat(st, i) == IF IsGroup(st, i) THEN FlatItems(st, Items(st, i)) ELSE <<i>>

(* is some aperture comparison of this trace too close to call in floating point? *)
RECURSIVE TooClose(_, _, _)
TooClose(st, leaves, r) ==
  IF leaves = <<>> \/ r.bl THEN FALSE
  ELSE LET e == st.el[Head(leaves)]
       IN Marginal(e, r) \/ TooClose(st, Tail(leaves), ThroughLeaf(e, r))

(* rays that ignore apertures *)
NoAp(e) == [e EXCEPT !.ap = PInf, !.na = PInf]
RECURSIVE FreeRays(_, _, _)
(* the ray before each leaf, and after the last *)
FreeRays(st, leaves, r) ==
  IF leaves = <<>> THEN <<r>>
  ELSE <<r>> \o FreeRays(st, Tail(leaves), ThroughLeaf(NoAp(st.el[Head(leaves)]), r))

(* the group multiplied with a ray: its summary applied in one step           *)
MulRay(s, r) == Ray4(RAdd(RMul(s.A, r.y), RMul(s.B, r.th)), RAdd(RMul(s.C, r.y), RMul(s.D, r.th)),
                     RAdd(r.z, s.L), FALSE)

(* ---- partial propagation ------------------------------------------------------*)
LeafUpTo(e, z) ==
  IF RIsZero(e.L) \/ RLe(e.L, z) THEN [ok |-> TRUE, s |-> SumOf(e)]
  ELSE CASE e.k = "space" -> [ok |-> TRUE, s |-> SpaceSum(z, e.n1)]
         [] e.k = "thick" -> [ok |-> TRUE, s |-> SumMul(SpaceSum(z, e.p[1]),
                               SumOf(Construct([k |-> "di", p |-> <<ROne, e.p[1], e.p[2]>>, ap |-> PInf, na |-> PInf, label |-> ""])))]
         [] e.k = "slab"  -> [ok |-> TRUE, s |-> SumMul(SpaceSum(z, e.p[1]),
                               SumOf(Construct([k |-> "di", p |-> <<ROne, e.p[1], PInf>>, ap |-> PInf, na |-> PInf, label |-> ""])))]
         [] OTHER -> [ok |-> FALSE, s |-> IdSum]
RECURSIVE UpTo(_, _, _), UpToItems(_, _, _, _)
UpToItems(st, items, z, acc) ==
  IF items = <<>> THEN [ok |-> TRUE, s |-> acc]
  ELSE LET s == SumAt(st, Head(items))
       IN IF RLe(s.L, z) THEN UpToItems(st, Tail(items), RSub(z, s.L), SumMul(s, acc))
          ELSE LET r == UpTo(st, Head(items), z)
               IN IF r.ok THEN [ok |-> TRUE, s |-> SumMul(r.s, acc)] ELSE r
UpTo(st, i, z) ==
  IF z = PInf THEN [ok |-> TRUE, s |-> IF IsGroup(st, i) THEN Derived(st, Items(st, i)) ELSE SumOf(st.el[i])]
  ELSE IF IsGroup(st, i) THEN UpToItems(st, Items(st, i), z, Start(st, Items(st, i))) ELSE LeafUpTo(st.el[i], z)

(* ---- the rest of a path, from a position inside one of its spaces ----------------*)
RECURSIVE SpaceAt(_, _, _, _)
(* [k, z0]: item number k is a space that starts at z0 and has z strictly inside *)
SpaceAt(st, items, k, z) ==
  IF k > Len(items) \/ RLe(z, RZero) THEN [k |-> 0, in |-> RZero]
  ELSE LET L == SumAt(st, items[k]).L
       IN IF RLt(RZero, z) /\ RLt(z, L)
          THEN (IF st.el[items[k]].k = "space" THEN [k |-> k, in |-> z] ELSE [k |-> 0, in |-> RZero])
          ELSE SpaceAt(st, items, k+1, RSub(z, L))
(* a deep copy of an element: [st, id] with id the copy *)
CopyOf(st, i) ==
  LET reach == Reach(st, <<i>>, <<>>)
      base == Len(st.el)
      ren(j) == base + (CHOOSE k \in 1..Len(reach) : reach[k] = j)
      copy(j) == LET e == st.el[j] IN IF e.k = "group" THEN [e EXCEPT !.items = [k \in 1..Len(e.items) |-> ren(e.items[k])]] ELSE e
  IN [st |-> [st EXCEPT !.el = @ \o [k \in 1..Len(reach) |-> copy(reach[k])]], id |-> base + 1]
RECURSIVE FlippedCopies(_, _, _)
FlippedCopies(st, items, acc) ==
  IF items = <<>> THEN [st |-> st, items |-> acc]
  ELSE LET c == CopyOf(st, items[Len(items)])
           f == Flip(c.st, c.id)
       IN FlippedCopies(f.st, SubSeq(items, 1, Len(items) - 1), Append(acc, c.id))
SubPath(st, g, z, back) ==
  LET c == SpaceAt(st, Items(st, g), 1, z)
  IN IF c.k = 0 THEN Refused(st)
     ELSE LET e == st.el[Items(st, g)[c.k]]
              d == IF back THEN c.in ELSE RSub(e.L, c.in)
              cut == Construct([k |-> "space", p |-> <<d>>, n1 |-> e.n1, ap |-> e.ap, label |-> ""])
              s1 == [st EXCEPT !.el = Append(@, cut)]
              id == Len(s1.el)
              f == IF back THEN FlippedCopies(s1, SubSeq(Items(st, g), 1, c.k - 1), <<>>)
                   ELSE [st |-> s1, items |-> SubSeq(Items(st, g), c.k + 1, Len(Items(st, g)))]
          IN NewGroup(f.st, <<id>> \o f.items, "")

(* a cavity round trip: the same elements again, in reverse *)
AppendReverse(st, g, skipFirst, skipLast) ==
  LET s == Items(st, g)
      t == SubSeq(s, IF skipFirst THEN 2 ELSE 1, IF skipLast THEN Len(s) - 1 ELSE Len(s))
  IN SetItems(st, g, s \o Reverse(t))

(* is a cut at z on (or too close to) the boundary of an element with length? *)
RECURSIVE Bounds(_, _, _)
Bounds(st, leaves, z0) == IF leaves = <<>> THEN {z0}
                          ELSE {z0} \cup Bounds(st, Tail(leaves), RAdd(z0, st.el[Head(leaves)].L))

(* ---- conjugate planes formed inside the path -----------------------------------*)
RECURSIVE PrefixSums(_, _, _)
PrefixSums(st, leaves, acc) ==
  IF leaves = <<>> THEN <<>>
  ELSE LET s == SumMul(SumOf(st.el[Head(leaves)]), acc) IN <<s>> \o PrefixSums(st, Tail(leaves), s)
MilliTol == RQ(1, 1000)
SamePlane(a, b) == RLt(RAbs(RSub(a.z, b.z)), MilliTol) /\ RLt(RAbs(RSub(a.m, b.m)), MilliTol)
RECURSIVE Planes(_, _)
Planes(sums, acc) ==
  IF sums = <<>> THEN acc
  ELSE LET s == Head(sums)  c == FwdConj(s)
           pl == [z |-> RAdd(s.L, c.d), m |-> c.m.A]
       IN IF ~c.some \/ RIsZero(pl.z) \/ \E k \in 1..Len(acc) : SamePlane(acc[k], pl)
          THEN Planes(Tail(sums), acc)
          ELSE Planes(Tail(sums), Append(acc, pl))
IntermediatePlanes(st, i) == Planes(PrefixSums(st, Flat(st, i), IdSum), <<>>)
=============================================================================
