----------------------------- MODULE PrefStore -----------------------------
(* The preferences of one user: what a sequence of changes amounts to.         *)
(* A store is a set of pairs <<key, value>> with at most one pair per key;      *)
(* values are opaque.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

Empty == {}
KeysOf(s) == {p[1] : p \in s}
ValueOf(s, k) == (CHOOSE p \in s : p[1] = k)[2]
Put(s, k, v) == {p \in s : p[1] # k} \cup {<<k, v>>}
Drop(s, k) == {p \in s : p[1] # k}
RECURSIVE PutAll(_, _)
PutAll(s, kv) == IF kv = <<>> THEN s ELSE PutAll(Put(s, Head(kv)[1], Head(kv)[2]), Tail(kv))

(* one change: [a |-> "set", kv |-> <<<<k, v>>, ..>>], [a |-> "del", k |-> k],  *)
(* [a |-> "reset"], [a |-> "default", k, v] (set unless there), [a |-> "none"]   *)
Apply(s, x) == CASE x.a = "set" -> PutAll(s, x.kv)
                 [] x.a = "del" -> Drop(s, x.k)
                 [] x.a = "default" -> IF x.k \in KeysOf(s) THEN s ELSE Put(s, x.k, x.v)
                 [] x.a = "reset" -> Empty
                 [] OTHER -> s
(* refused changes change nothing: a value that is no JSON, a key that is absent *)
Accepts(s, x) == CASE x.a = "del" -> x.k \in KeysOf(s)
                   [] x.a = "bad" -> FALSE
                   [] OTHER -> TRUE
After(s, x) == IF Accepts(s, x) THEN Apply(s, x) ELSE s
(* two changes by two processes at the same time: one of the two orders          *)
Both(s, x, y) == {After(After(s, x), y), After(After(s, y), x)}
(* a change that was cut short: it happened or it did not                         *)
CutShort(s, x) == {s, After(s, x)}

(* ---- the mode of a session -------------------------------------------------- *)
Modes == {"beginner", "expert", "silent"}
Remembered(s) == IF "mode" \in KeysOf(s) THEN ValueOf(s, "mode") ELSE "\"beginner\""     \* values are JSON texts
ModeNamed(v) == CASE v = "\"silent\"" -> "silent" [] v = "\"expert\"" -> "expert" [] OTHER -> "beginner"
StartMode(s, asked) == IF asked THEN "expert" ELSE ModeNamed(Remembered(s))
(* how many of three identical warnings are shown, two from one place, one from   *)
(* another one: always / once per place / once / never                            *)
Shown(m, cat) == CASE m = "silent" -> 0
                   [] m = "expert" -> IF cat = "BeginnerHint" THEN 0 ELSE 1
                   [] OTHER -> IF cat = "BeginnerHint" THEN 3 ELSE 2
Categories == {"BeginnerHint", "ExpertNote", "DeprecationWarning", "UserWarning"}
=============================================================================
