----------------------------- MODULE MCSwitches -----------------------------
(* A figure that shows and hides what a click concerns, seen by a user who    *)
(* looks at the whole of it.                                                  *)
EXTENDS Switches, FiniteSets, TLC, Json
CONSTANTS N, Depth                   \* switches, clicks
VARIABLES on, shown, hist, first
vars == <<on, shown, hist, first>>
Owner == [a \in 1..(2*N + 1) |-> (a - 1) % (N + 1)]
Mine(k) == {a \in DOMAIN Owner : Owner[a] = k}
Set(s, k, v) == IF v THEN s \cup Mine(k) ELSE s \ Mine(k)       \* the figure: only what the click concerns
Init == /\ on \in [1..N -> BOOLEAN] /\ shown = Seen(Owner, on) /\ hist = <<>> /\ first = on
Next == /\ Len(hist) < Depth
        /\ \E k \in 0..N : /\ on' = Click(on, k) /\ hist' = Append(hist, k) /\ first' = first
                           /\ shown' = IF k = 0 THEN shown ELSE Set(shown, k, ~on[k])
                           /\ (IF Len(hist) + 1 = Depth THEN PrintT("OUT " \o ToJson([hist |-> hist'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
ShowsWhatIsOn == shown = Seen(Owner, on)
FollowsClicks == on = After(first, hist)
Elements == \A a \in Mine(0) : a \in shown
Count(k) == Cardinality({i \in 1..Len(hist) : hist[i] = k})
OnlyParity == \A k \in 1..N : (on[k] = first[k]) <=> (Count(k) % 2 = 0)
OthersStay == [][\A k \in 1..N : on'[k] = on[k] => \A a \in Mine(k) : (a \in shown) = (a \in shown')]_vars
(* wrong: a click also shows or hides the groups drawn after it; it only ever hides; looking closer brings all back *)
SetOnwards(s, k, v) == IF v THEN s \cup UNION {Mine(j) : j \in k..N} ELSE s \ UNION {Mine(j) : j \in k..N}
SetHides(s, k, v) == s \ Mine(k)
=============================================================================
