------------------------------ MODULE PrefHist ------------------------------
(* Every short history of two objects that share the preferences; each is run   *)
(* on the real code (harness/d_prefs.py), which must end with the store given    *)
(* here for every object, old or new.                                            *)
EXTENDS PrefStore, TLC, Json, SequencesExt
CONSTANT Depth
VARIABLES hist, store, oks
vars == <<hist, store, oks>>
Obj == {1, 2}
K == {"mode", "a key"}
V == {"1", "\"x\""}
Acts == {[a |-> "set", o |-> o, kv |-> <<<<k, v>>>>] : o \in Obj, k \in K, v \in V}
        \cup {[a |-> "set", o |-> o, kv |-> <<<<"a key", "2">>, <<"mode", "[3]">>>>] : o \in {1}}
        \cup {[a |-> "del", o |-> o, k |-> k] : o \in Obj, k \in {"mode"}}
        \cup {[a |-> "default", o |-> o, k |-> "a key", v |-> "null"] : o \in {2}}
        \cup {[a |-> "reset", o |-> o] : o \in Obj}
        \cup {[a |-> "bad", o |-> o, k |-> "mode"] : o \in Obj}
        \cup {[a |-> "new", o |-> o] : o \in {2}}
        \cup {[a |-> "spoil", o |-> 0, how |-> h] : h \in {"missing", "empty", "torn", "list"}}
        \cup {[a |-> "foreign", o |-> 0, kv |-> <<<<"mode", "\"expert\"">>>>]}
Do(s, x) == CASE x.a = "spoil" -> Empty
              [] x.a = "foreign" -> PutAll(Empty, x.kv)
              [] OTHER -> After(s, x)
Init == hist = <<>> /\ store = Empty /\ oks = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in Acts : /\ hist' = Append(hist, x) /\ store' = Do(store, x)
                           /\ oks' = Append(oks, Accepts(store, x))
Spec == Init /\ [][Next]_vars
OneValue == \A p, q \in store : p[1] = q[1] => p = q
Show == Len(hist) = Depth => PrintT("OUT " \o ToJson([hist |-> hist, oks |-> oks, store |-> SetToSeq(store)]))
=============================================================================
