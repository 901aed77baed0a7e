----------------------------- MODULE MCSessions ------------------------------
(* Every short history of sessions of one user: what is remembered from one to  *)
(* the next, and the mode each starts in.  The histories are performed with the  *)
(* real package (harness/d_prefs.py), a new process for every session.            *)
EXTENDS PrefStore, TLC, Json
CONSTANT Depth
VARIABLES store, mode, shown, hist
vars == <<store, mode, shown, hist>>
\* store: the preferences; mode: that of the last session, at its end; shown: what the warnings of the last event are

Q(m) == "\"" \o m \o "\""
Contents == {Empty, {<<"mode", Q("expert")>>, <<"a key", "1">>}, {<<"mode", Q("silent")>>}, {<<"mode", Q("Expert")>>, <<"a key", "[]">>},
             {<<"mode", Q("beginner")>>}, {<<"mode", "5">>}, {<<"a key", "1">>}}
Calls == {<<>>} \cup {<<[m |-> m, save |-> b]>> : m \in Modes, b \in BOOLEAN}
         \cup {<<[m |-> "silent", save |-> TRUE], [m |-> "expert", save |-> FALSE]>>, <<[m |-> "expert", save |-> FALSE], [m |-> "beginner", save |-> TRUE]>>}
Changes == {[a |-> "set", kv |-> <<<<"mode", Q("silent")>>>>], [a |-> "set", kv |-> <<<<"a key", "2">>>>], [a |-> "set", kv |-> <<<<"mode", "null">>>>],
            [a |-> "del", k |-> "mode"], [a |-> "reset"]}
Ops == {[op |-> "session", expert |-> x, calls |-> c] : x \in BOOLEAN, c \in Calls} \cup {[op |-> "do", act |-> c] : c \in Changes}

(* a session that starts in m on s, and makes these choices *)
Settled(s, asked) == IF ~asked /\ "mode" \notin KeysOf(s) THEN Put(s, "mode", Q("beginner")) ELSE s
RECURSIVE Choose1(_, _, _)
Choose1(s, m, c) == IF c = <<>> THEN [s |-> s, m |-> m]
                    ELSE Choose1(IF Head(c).save THEN Put(s, "mode", Q(Head(c).m)) ELSE s, Head(c).m, Tail(c))
Run(s, o) == Choose1(Settled(s, o.expert), StartMode(s, o.expert), o.calls)

Init == /\ store \in Contents /\ mode = "none" /\ shown = <<>>
        /\ hist = <<[op |-> "file", kv |-> store]>>
Next == /\ Len(hist) < Depth + 1
        /\ \E o \in Ops :
             /\ hist' = Append(hist, o)
             /\ IF o.op = "do" THEN store' = After(store, o.act) /\ UNCHANGED <<mode, shown>>
                ELSE /\ store' = Run(store, o).s /\ mode' = Run(store, o).m
                     /\ shown' = [c \in Categories |-> Shown(Run(store, o).m, c)]
             /\ IF Len(hist') = Depth + 1 THEN PrintT("OUT " \o ToJson([hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* ---- theorems ------------------------------------------------------------------*)
Last == hist[Len(hist)]
(* only a choice that asked for it is remembered *)
RememberedIfSaved ==
  [][LET o == hist'[Len(hist')]
         saved == IF o.op = "session" THEN {k \in 1..Len(o.calls) : o.calls[k].save} ELSE {}
     IN o.op = "session" =>
          IF saved # {} THEN \E k \in saved : (\A j \in saved : j <= k) /\ ValueOf(store', "mode") = Q(o.calls[k].m)
          ELSE store' = store \/ ("mode" \notin KeysOf(store) /\ store' = Put(store, "mode", Q("beginner")))]_vars
OthersKept == [][LET o == hist'[Len(hist')] IN o.op = "session" => Drop(store', "mode") = Drop(store, "mode")]_vars
(* the next session starts in the mode that was remembered *)
NextStarts == \A asked \in BOOLEAN :
   StartMode(store, asked) = (IF asked THEN "expert" ELSE IF "mode" \notin KeysOf(store) THEN "beginner"
                              ELSE IF ValueOf(store, "mode") \in {Q(m) : m \in Modes} THEN CHOOSE m \in Modes : Q(m) = ValueOf(store, "mode") ELSE "beginner")
(* asking for the expert mode once has no effect on later sessions *)
AskedOnce == \A c \in Calls : LET a == Run(store, [expert |-> TRUE, calls |-> c]).s
                                  b == Run(store, [expert |-> FALSE, calls |-> c]).s
                              IN StartMode(a, FALSE) = StartMode(b, FALSE)
LouderFirst == \A c \in Categories : Shown("silent", c) = 0 /\ Shown("expert", c) <= Shown("beginner", c) /\ Shown("beginner", c) >= 2
OneValue == \A p, q \in store : p[1] = q[1] => p = q
(* mutants *)
AskedIsSaved(s, asked) == IF asked THEN Put(s, "mode", Q("expert")) ELSE IF "mode" \notin KeysOf(s) THEN Put(s, "mode", Q("beginner")) ELSE s
AlwaysBeginner(s, asked) == IF asked THEN s ELSE Put(s, "mode", Q(IF ModeNamed(Remembered(s)) = "beginner" THEN "beginner" ELSE ModeNamed(Remembered(s))))
=============================================================================
