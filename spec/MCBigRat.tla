----------------------------- MODULE MCBigRat -------------------------------
(* The Java evaluation of the R... operators agrees with the P... ones.     *)
EXTENDS BigRat, TLC, FiniteSets
VARIABLES p, go
Nats == {<<>>, <<1>>, <<3>>, <<9999>>, <<6, 0, 4>>}
Vals == {PNorm(s, n, d) : s \in {-1, 1}, n \in Nats, d \in Nats \ {<<>>}} \cup {PInf, NInf}
Init == p \in Vals /\ go = 0
Next == go = 0 /\ go' = 1 /\ UNCHANGED p
Agree == go = 1 => \A b \in Vals :
   /\ RAdd(p, b) = PAdd(p, b)
   /\ RMul(p, b) = PMul(p, b)
   /\ RDiv(p, b) = PDiv(p, b)
   /\ RCmp(p, b) = PCmp(p, b)
   /\ p[1] \in {0, 1} => RFloorPos(p) = PFloor(p)
(* algebra, exercised on the definitions used everywhere *)
Laws == go = 1 => \A b \in Vals : (IsFin(p) /\ IsFin(b)) =>
   /\ RAdd(p, b) = RAdd(b, p)
   /\ RSub(RAdd(p, b), b) = p
   /\ b[1] # 0 => RMul(RDiv(p, b), b) = p
   /\ RNear(p, p) /\ RNearT(RAdd(p, RQ(1, 1000000)), p, RQ(1, 100000)) 
   /\ ~RNear(RAdd(p, RMul(RQ(1,1000), RAdd(ROne, RAbs(p)))), p)
=============================================================================
