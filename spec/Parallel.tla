------------------------------ MODULE Parallel ------------------------------
(* The protocol of tracing many rays with several processes.  The input is a   *)
(* finite stream of rays, each of which gets through the path or not.  The      *)
(* stream can be read once.  The caller reads it, deals the rays to P jobs,      *)
(* workers take jobs in any order and finish them in any order, and the results *)
(* are put together.  At any moment it can turn out that workers cannot be used *)
(* (the pool cannot be made, a job cannot be sent, a worker reports an error):   *)
(* the caller then traces everything itself.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxN, MaxP, Deal(_, _, _), FromStream   \* Deal(rays, i, p): rays of job i of p;  FromStream: the fallback reads the stream again

VARIABLES through,   \* ray k of the input gets through
          P,         \* number of processes asked for
          stream,    \* rays not read yet
          rays,      \* rays the caller read
          job,       \* job[i]: "none", "queued", "running", "done"
          res,       \* res[i]: output of job i
          out,       \* output of the call
          pc

vars == <<through, P, stream, rays, job, res, out, pc>>
N == Len(through)
Ids(n) == [k \in 1..n |-> k]
Passing(s) == SelectSeq(s, LAMBDA k : through[k])

Init == /\ through \in UNION {[1..n -> BOOLEAN] : n \in 0..MaxN}
        /\ P \in 0..MaxP
        /\ stream = Ids(Len(through)) /\ rays = <<>> /\ job = <<>> /\ res = <<>> /\ out = <<>> /\ pc = "read"

Read == /\ pc = "read" /\ rays' = stream /\ stream' = <<>>
        /\ pc' = "deal"
        /\ UNCHANGED <<through, P, job, res, out>>
DealOut == /\ pc = "deal" /\ P > 0
           /\ job' = [i \in 1..P |-> "queued"] /\ res' = [i \in 1..P |-> <<>>]
           /\ pc' = "wait" /\ UNCHANGED <<through, P, stream, rays, out>>
Take(i) == /\ pc = "wait" /\ job[i] = "queued" /\ job' = [job EXCEPT ![i] = "running"]
           /\ UNCHANGED <<through, P, stream, rays, res, out, pc>>
Finish(i) == /\ pc = "wait" /\ job[i] = "running" /\ job' = [job EXCEPT ![i] = "done"]
             /\ res' = [res EXCEPT ![i] = Passing(Deal(rays, i, P))]
             /\ UNCHANGED <<through, P, stream, rays, out, pc>>
Collect == /\ pc = "wait" /\ \A i \in DOMAIN job : job[i] = "done"
           /\ out' = FlattenSeq([i \in 1..P |-> res[i]]) /\ pc' = "done"
           /\ UNCHANGED <<through, P, stream, rays, job, res>>
(* no processes, no pool, a job that cannot be sent, a worker that fails        *)
Fallback == /\ pc \in {"deal", "wait"}
            /\ out' = Passing(IF FromStream THEN stream ELSE rays) /\ pc' = "done"
            /\ UNCHANGED <<through, P, stream, rays, job, res>>
Terminated == pc = "done" /\ UNCHANGED vars

Next == Read \/ DealOut \/ (\E i \in DOMAIN job : Take(i) \/ Finish(i)) \/ Collect \/ Fallback \/ Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bag(s) == [k \in 1..N |-> Cardinality({i \in 1..Len(s) : s[i] = k})]
SameCollection == pc = "done" => Bag(out) = Bag(Passing(Ids(N)))
SerialInOrder == pc = "done" /\ job = <<>> => out = Passing(Ids(N))
Ends == <>(pc = "done")

(* ways of dealing *)
Strided(r, i, p) == LET n == Len(r)  m == IF n < i THEN 0 ELSE ((n - i) \div p) + 1
                    IN [k \in 1..m |-> r[i + (k - 1) * p]]
Blocks(r, i, p) == LET n == Len(r)  c == (n + p - 1) \div p  a == (i - 1) * c + 1  b == IF i * c > n THEN n ELSE i * c
                   IN IF a > b THEN <<>> ELSE SubSeq(r, a, b)
(* the usual mistake: blocks of n / p rays, the rest is nobody's               *)
FloorBlocks(r, i, p) == LET c == Len(r) \div p IN SubSeq(r, (i - 1) * c + 1, i * c)

(* the cases to run on the real code: every input, every number of processes   *)
Show == pc = "done" /\ job # <<>> /\ (\A i \in DOMAIN job : job[i] = "done")
        => PrintT("OUT " \o ToJson([through |-> through, p |-> P, want |-> Passing(Ids(N)), n |-> N]))
=============================================================================
