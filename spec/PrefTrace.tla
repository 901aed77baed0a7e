------------------------------ MODULE PrefTrace ------------------------------
(* Conformance of recorded histories of preferences and sessions with PrefStore. *)
EXTENDS PrefStore, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES t, l, st, done
vars == <<t, l, st, done>>
\* st: the store
S(cond, props, what) == IF cond THEN {} ELSE {<<p, what>> : p \in props}
SetOf(pairs) == {pairs[i] : i \in 1..Len(pairs)}
Stamp == "lastVersionCheck"          \* the package keeps the date of its last check for a new version there
Rest(s) == Drop(s, Stamp)

(* what every object, old and new, and the file say after the event               *)
Sees(e) == {SetOf(e.see[i][2]) : i \in 1..Len(e.see)}
Readable(e) == \A i \in 1..Len(e.see) : e.see[i][1] # "fail"
(* the store is one of the candidates, and everybody agrees on it                  *)
Settle(cands, e, props, what) ==
  LET good == {c \in cands : Sees(e) = {c}}
  IN IF ~Readable(e) THEN [st |-> CHOOSE c \in cands : TRUE, v |-> {<<p, "preferences cannot be read">> : p \in props}]
     ELSE IF good # {} THEN [st |-> CHOOSE c \in good : TRUE, v |-> {}]
     ELSE [st |-> SetOf(e.see[Len(e.see)][2]), v |-> {<<p, what>> : p \in props}]      \* go on with what a new object says

C21 == {"C21"}
Both2 == {"C21", "C22"}

Answer(s, e) ==
  CASE e.q = "get" -> S(IF e.k \in KeysOf(s) THEN e.ok /\ e.res = ValueOf(s, e.k) ELSE ~e.ok, C21, "value of a preference")
    [] e.q = "getdef" -> S(e.ok /\ e.res = (IF e.k \in KeysOf(s) THEN ValueOf(s, e.k) ELSE e.d), C21, "value of a preference or its default")
    [] e.q = "in" -> S(e.ok /\ e.res = (e.k \in KeysOf(s)), C21, "presence of a preference")
    [] e.q = "len" -> S(e.ok /\ e.res = Cardinality(s), C21, "number of preferences")
    [] e.q = "keys" -> S(e.ok /\ SetOf(e.res) = KeysOf(s) /\ Len(e.res) = Cardinality(s), C21, "names of the preferences")
    [] e.q = "all" -> S(e.ok /\ SetOf(e.res) = s, C21, "all the preferences")
    [] OTHER -> {<<"C00", "unknown query">>}

(* what a reader may be told while a change is under way                            *)
During(s, x) == CutShort(s, x)
AskedDuring(s, x, r) == \E c \in During(s, x) : Answer(c, r) = {}

(* values left by several processes which each set keys, one value after the other   *)
LastOf(acts, k) == LET w == SelectSeq(acts, LAMBDA x : x.a = "set" /\ \E i \in 1..Len(x.kv) : x.kv[i][1] = k)
                   IN IF w = <<>> THEN {} ELSE LET kv == w[Len(w)].kv
                                                   i == CHOOSE i \in 1..Len(kv) : kv[i][1] = k /\ \A j \in (i + 1)..Len(kv) : kv[j][1] # k
                                               IN {kv[i][2]}
CrowdOk(s, e, c) ==
  LET touched == {k \in KeysOf(c) \cup KeysOf(s) \cup UNION {{x.kv[i][1] : i \in 1..Len(x.kv)} : x \in UNION {{p[j] : j \in 1..Len(p)} : p \in {e.acts[m] : m \in 1..Len(e.acts)}}} : TRUE}
  IN \A k \in touched :
       LET last == UNION {LastOf(e.acts[m], k) : m \in 1..Len(e.acts)}
       IN IF last = {} THEN (k \in KeysOf(c)) = (k \in KeysOf(s)) /\ (k \in KeysOf(s) => ValueOf(c, k) = ValueOf(s, k))
          ELSE k \in KeysOf(c) /\ ValueOf(c, k) \in last

(* ---- sessions ---------------------------------------------------------------------- *)
VisibleOk(e, m) == \A i \in 1..Len(e.vis) : e.vis[i][2] = Shown(m, e.vis[i][1])
ModeKept(s) == IF "mode" \in KeysOf(s) THEN {s} ELSE {s, Put(s, "mode", "\"beginner\"")}
SettleStart(s, e) ==    \* everything but the stamp is as before; nothing remembered may become "beginner"
  LET seen == {Rest(c) : c \in Sees(e)}
      good == {c \in (IF e.expert THEN {Rest(s)} ELSE ModeKept(Rest(s))) : seen = {c}}
  IN IF ~Readable(e) \/ Cardinality(Sees(e)) # 1 THEN [st |-> s, v |-> {<<p, "preferences cannot be read">> : p \in Both2}]
     ELSE [st |-> CHOOSE c \in Sees(e) : TRUE, v |-> S(good # {}, {"C22"}, "starting a session changed the preferences")]

Judge(s, e) ==
  CASE e.op = "crash" -> [st |-> s, v |-> {<<"C00", e.what>>}]
    [] e.op = "q" -> [st |-> s, v |-> Answer(s, e)]
    [] e.op = "do" ->
         LET r == Settle({After(s, e.act)}, e, C21, "preferences after a change")
         IN [r EXCEPT !.v = @ \cup S(e.ok = Accepts(s, e.act), C21, IF e.ok THEN "change accepted" ELSE "change refused")]
    [] e.op = "file" -> Settle({SetOf(e.content)}, e, C21, "preferences of a file that was replaced or damaged")
    [] e.op = "see" -> Settle({s}, e, C21, "reading changed the preferences")
    [] e.op = "cut" -> Settle(CutShort(s, e.act), e, C21, "preferences after a change that was cut short")
    [] e.op = "pair" ->
         LET r == Settle(Both(s, e.a, e.b), e, C21, "preferences after two changes at the same time")
         IN [r EXCEPT !.v = @ \cup S(e.oka /\ e.okb, C21, "change refused because of another one")]
    [] e.op = "meanwhile" ->
         LET r == Settle({After(s, e.a)}, e, C21, "preferences after a change")
         IN [r EXCEPT !.v = @ \cup S(AskedDuring(s, e.a, e.r), C21, "value read during a change of another one")]
    [] e.op = "crowd" ->
         IF ~Readable(e) \/ Cardinality(Sees(e)) # 1 THEN [st |-> s, v |-> S(FALSE, C21, "preferences cannot be read")]
         ELSE LET c == CHOOSE c \in Sees(e) : TRUE
              IN [st |-> c, v |-> S(e.ok /\ CrowdOk(s, e, c), C21, "changes by several processes")]
    [] e.op = "session" ->
         IF ~e.ok THEN [st |-> s, v |-> {<<"C22", "a session does not start">>}]
         ELSE LET r == SettleStart(s, e) IN [r EXCEPT !.v = @ \cup S(VisibleOk(e, StartMode(s, e.expert)), {"C22"}, "mode of a new session")]
    [] e.op = "mode" ->
         LET r == Settle({IF e.save THEN Put(s, "mode", "\"" \o e.m \o "\"") ELSE s}, e, {"C22"}, IF e.save THEN "mode to remember" ELSE "mode not to be remembered")
         IN [r EXCEPT !.v = @ \cup S(e.ok, {"C22"}, "mode refused") \cup S(VisibleOk(e, e.m), {"C22"}, "warnings of the mode")]
    [] OTHER -> [st |-> s, v |-> {<<"C00", "unknown event">>}]

Init == t \in 1..N /\ l = 1 /\ done = FALSE /\ st = Empty
Next == /\ ~done /\ l <= Len(Traces[t].ev)
        /\ LET r == Judge(st, Traces[t].ev[l])
               wanted == IF IOEnv.PROP = "*" THEN Traces[t].prop ELSE IOEnv.PROP
               stop == \E c \in r.v : c[1] = wanted \/ c[1] = "C00"
           IN /\ st' = r.st
              /\ done' = stop
              /\ IF stop THEN PrintT("REJECT " \o ToJson(<<t, l, r.v>>)) ELSE TRUE
        /\ l' = l + 1 /\ t' = t
=============================================================================
