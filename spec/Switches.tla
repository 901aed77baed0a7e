------------------------------ MODULE Switches ------------------------------
(* The switches beside a figure.  What is drawn belongs to a group (rays of   *)
(* an object with its images, of a lamp, ...) or to none (the elements); each *)
(* group that has anything to show has a switch, and a drawing is seen when   *)
(* its group is on.  Acts: k > 0 is a click on switch k, 0 looks closer.      *)
EXTENDS Integers, Sequences

Click(on, k) == IF k = 0 THEN on ELSE [on EXCEPT ![k] = ~@]
RECURSIVE After(_, _)
After(on, acts) == IF acts = <<>> THEN on ELSE After(Click(on, Head(acts)), Tail(acts))
(* owner[a]: the group a drawing belongs to, 0 when it belongs to none *)
Seen(owner, on) == {a \in DOMAIN owner : owner[a] = 0 \/ on[owner[a]]}
=============================================================================
