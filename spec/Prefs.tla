------------------------------- MODULE Prefs -------------------------------
(* How several processes share one file of preferences.  Each change is made of *)
(* steps: take the lock, read the file, write it, release the lock; any process *)
(* can be killed between two steps, and anyone can destroy the file.  abs is     *)
(* what the users of the preferences believe: the changes, one after the other.  *)
(* The constants describe ways of getting it wrong.                              *)
EXTENDS PrefStore, TLC
CONSTANTS None, Procs, Keys, Vals, MaxOps,
          Locked,    \* a change takes the lock
          Atomic,    \* the file is replaced; otherwise emptied, then written
          Fresh      \* what is in memory is read again before each use

VARIABLES file, abs, mem, pc, act, lock, ops, seen
vars == <<file, abs, mem, pc, act, lock, ops, seen>>

Good(s) == [ok |-> TRUE, c |-> s]
Bad == [ok |-> FALSE, c |-> Empty]
Content(f) == f.c
Acts == {[a |-> "set", kv |-> <<<<k, v>>>>] : k \in Keys, v \in Vals} \cup {[a |-> "del", k |-> k] : k \in Keys} \cup {[a |-> "reset"]}

Init == /\ file \in {Good(Empty), Bad, Good({<<CHOOSE k \in Keys : TRUE, CHOOSE v \in Vals : TRUE>>})}
        /\ abs = Content(file)
        /\ mem = [p \in Procs |-> Content(file)]
        /\ pc = [p \in Procs |-> "idle"] /\ act = [p \in Procs |-> [a |-> "none"]]
        /\ lock = None /\ ops = 0 /\ seen = <<>>

Goto(p, x) == pc' = [pc EXCEPT ![p] = x]
Start(p) == /\ pc[p] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
            /\ \E x \in Acts : act' = [act EXCEPT ![p] = x]
            /\ Goto(p, "lock") /\ seen' = <<>>
            /\ UNCHANGED <<file, abs, mem, lock>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF Locked THEN lock = None /\ lock' = p ELSE lock' = lock
           /\ Goto(p, "load") /\ UNCHANGED <<file, abs, mem, act, ops, seen>>
Load(p) == /\ pc[p] = "load"
           /\ mem' = [mem EXCEPT ![p] = IF Fresh THEN Content(file) ELSE @]
           /\ Goto(p, "write") /\ UNCHANGED <<file, abs, act, lock, ops, seen>>
Write(p) == /\ pc[p] = "write"
            /\ mem' = [mem EXCEPT ![p] = After(@, act[p])]
            /\ IF Atomic THEN /\ file' = Good(mem'[p]) /\ abs' = After(abs, act[p]) /\ Goto(p, "unlock")
                         ELSE /\ file' = Bad /\ abs' = abs /\ Goto(p, "rest")
            /\ UNCHANGED <<act, lock, ops, seen>>
Rest(p) == /\ pc[p] = "rest" /\ file' = Good(mem[p]) /\ abs' = After(abs, act[p]) /\ Goto(p, "unlock")
           /\ UNCHANGED <<mem, act, lock, ops, seen>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = (IF lock = p THEN None ELSE lock) /\ Goto(p, "idle")
             /\ UNCHANGED <<file, abs, mem, act, ops, seen>>
(* the system releases the lock of a dead process; a new one takes its place     *)
Die(p) == /\ pc[p] # "idle" /\ Goto(p, "idle") /\ lock' = (IF lock = p THEN None ELSE lock)
          /\ mem' = [mem EXCEPT ![p] = Content(file)] /\ UNCHANGED <<file, abs, act, ops, seen>>
Read(p) == /\ pc[p] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
           /\ mem' = [mem EXCEPT ![p] = IF Fresh THEN Content(file) ELSE @]
           /\ seen' = <<mem'[p], abs>>
           /\ UNCHANGED <<file, abs, pc, act, lock>>
(* a foreign hand destroys or deletes the file when nobody is writing             *)
Spoil == /\ \A p \in Procs : pc[p] = "idle"
         /\ ops < MaxOps /\ ops' = ops + 1 /\ file' \in {Bad, Good(Empty)} /\ abs' = Empty
         /\ UNCHANGED <<mem, pc, act, lock, seen>>

Next == (\E p \in Procs : Start(p) \/ Lock(p) \/ Load(p) \/ Write(p) \/ Rest(p) \/ Unlock(p) \/ Die(p) \/ Read(p)) \/ Spoil
Spec == Init /\ [][Next]_vars

(* nobody's change is lost, and the values are readable at every moment            *)
NothingLost == Content(file) = abs
ReadsAreCurrent == seen = <<>> \/ seen[1] = seen[2]
OneWriter == Cardinality({p \in Procs : pc[p] \in {"load", "write", "rest", "unlock"}}) <= 1
=============================================================================
