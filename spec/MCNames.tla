------------------------------- MODULE MCNames -------------------------------
(* Every glass, spelt every way and almost: what has to be found, and questions *)
(* for harness/d_lenses.py to ask.                                               *)
EXTENDS Lenses, TLC, Json
VARIABLE q
Upper == [ch \in {Lower[u] : u \in DOMAIN Lower} |-> CHOOSE u \in DOMAIN Lower : Lower[u] = ch]
Up(ch) == IF ch \in DOMAIN Upper THEN Upper[ch] ELSE ch
RECURSIVE Map(_, _)
Map(f, s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) \in DOMAIN f THEN f[SubSeq(s, 1, 1)] ELSE SubSeq(s, 1, 1)) \o Map(f, SubSeq(s, 2, Len(s)))
Chars == {"-", "_"} \cup DOMAIN Lower \cup DOMAIN Upper
AllLow(s) == Map([ch \in Chars |-> Low(ch)], s)
AllUp(s) == Map([ch \in Chars |-> Up(ch)], s)
NoSep(s) == Map([ch \in {"-", "_"} |-> ""], s)
Spaced1(s) == Map([ch \in {"-", "_"} |-> " "], s)
Same(s) == {s, Dashed(s), AllLow(s), AllUp(s), NoSep(s), AllLow(NoSep(s)), AllUp(Dashed(s)), "-" \o s, s \o "_"}
Almost(s) == {SubSeq(s, 1, Len(s) - 1), SubSeq(s, 2, Len(s)), s \o "X", s \o "1", " " \o s, s \o s, s \o "HT"} \cup (IF Spaced1(s) = s THEN {} ELSE {Spaced1(s)})
Tols == <<RQ(5, 100), RQ(1, 100), RQ(1, 100000)>>
Steps == <<RZero, RQ(3, 100), RQ(-1, 200)>>
Init == q \in {}
              \cup UNION {{[op |-> "find", name |-> n, g |-> k] : n \in Same(Glasses[k].name) \cup Almost(Glasses[k].name)} : k \in 1..Len(Glasses)}
              \cup {[op |-> "index", g |-> k, tol |-> Tols[i], step |-> Steps[j]] : k \in 1..Len(Glasses), i \in 1..3, j \in 1..3}
        /\ PrintT("OUT " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* every spelling finds the glass it spells; the others find it only if they spell it in the end *)
FoundHowever == q.op = "find" => (q.name \in Same(Glasses[q.g].name) => Find(q.name) = q.g)
NotQuite == q.op = "find" => (q.name \in Almost(Glasses[q.g].name) => Find(q.name) # q.g)
OnlyByName == q.op = "find" => (Find(q.name) # 0 => Plain(q.name) = Plain(Glasses[Find(q.name)].name))
(* a glass is among those of about its index, and the narrower the search the fewer there are *)
Narrower == q.op = "index" =>
  LET n == RAdd(Dec(Glasses[q.g].nd), q.step)  x == RQ(5875618, 10000000)
  IN /\ Matches(n, x, Tols[3]) \subseteq Matches(n, x, Tols[2]) /\ Matches(n, x, Tols[2]) \subseteq Matches(n, x, Tols[1])
     /\ RLt(RAdd(RAbs(q.step), RQ(1, 100000)), q.tol) => q.g \in Matches(n, x, q.tol)
(* mutant: the beginning of a name is enough *)
ByPrefix(name) == LET u == Plain(name)
                  IN IF \E k \in 1..Len(Glasses) : Len(u) <= Len(PlainNames[k]) /\ SubSeq(PlainNames[k], 1, Len(u)) = u
                     THEN CHOOSE k \in 1..Len(Glasses) : Len(u) <= Len(PlainNames[k]) /\ SubSeq(PlainNames[k], 1, Len(u)) = u ELSE 0
=============================================================================
