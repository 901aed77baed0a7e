----------------------------- MODULE MCLensFiles -----------------------------
(* Every small lens file: what the lens it describes must be, and files to      *)
(* give to the reader (harness/d_lenses.py).                                     *)
EXTENDS Lenses, TLC, Json
CONSTANT MaxSurfs, MaxWaves
VARIABLES file, hist
vars == <<file, hist>>

(* kinds of surfaces; the harness writes the same ones as text *)
Kinds == <<
  [c |-> RQ(1, 50),   hd |-> RI(6),  z |-> RI(4),     g |-> "N-BK7"],
  [c |-> RQ(-1, 40),  hd |-> None,   z |-> RQ(5, 2),  g |-> "n-sf10"],
  [c |-> RZero,       hd |-> RI(5),  z |-> RI(3),     g |-> ""],
  [c |-> RQ(-1, 25),  hd |-> None,   z |-> RI(0),     g |-> ""],
  [c |-> RZero,       hd |-> None,   z |-> PInf,      g |-> ""],
  [c |-> RQ(1, 100),  hd |-> RI(4),  z |-> RI(2),     g |-> "MIRROR"],
  [c |-> RQ(1, 80),   hd |-> RI(7),  z |-> RI(2),     g |-> "NBK7"] >>
Units == <<"", "MM", "IN", "CM", "METER">>
WaveKinds == <<RQ(4861, 10000), RQ(55, 100), RQ(1064, 1000)>>
NoSurfs == <<>>
Init == /\ \E u \in 1..Len(Units) : file = [unit |-> Units[u], waves |-> <<>>, surfs |-> NoSurfs] /\ hist = <<u, <<>>, <<>>>>
Next ==
  \/ \E k \in 1..Len(WaveKinds) :      \* the wavelengths first
       /\ Len(file.waves) < MaxWaves /\ file.surfs = NoSurfs
       /\ file' = [file EXCEPT !.waves = Append(@, WaveKinds[k])]
       /\ hist' = [hist EXCEPT ![2] = Append(@, k)]
       /\ PrintT("OUT " \o ToJson([hist |-> hist']))
  \/ \E k \in 1..Len(Kinds) :
       /\ Len(file.surfs) < MaxSurfs /\ file.waves # <<>>
       /\ Len(file.waves) + Len(file.surfs) < MaxSurfs + 1    \* many surfaces, or many wavelengths
       /\ file' = [file EXCEPT !.surfs = Append(@, Kinds[k])]
       /\ hist' = [hist EXCEPT ![3] = Append(@, k)]
       /\ PrintT("OUT " \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars

(* ---- theorems --------------------------------------------------------------*)
(* stand-ins for the indices: any that differ will do *)
NIdx(g) == IF g = AirNo THEN ROne ELSE IF g = Find("N_BK7") THEN RQ(3, 2) ELSE RQ(17, 10)
Ns(f) == [k \in 1..Len(LensSurfs(f)) |-> NIdx(LensSurfs(f)[k].g)]
Els(f) == FileElements(f, Ns(f))
Readable == FileOk(file)
(* a lens begins with glass and, unless the file stops in the glass, ends where its glass ends *)
Bounded ==
  Readable => LET ls == LensSurfs(file)  m == Len(ls) IN
    /\ (ls = <<>>) <=> \A k \in 1..Len(file.surfs) : file.surfs[k].g = ""
    /\ ls # <<>> =>
         /\ ls[1].g # AirNo
         /\ \A k \in 1..(m - 1) : ls[k].g # AirNo
         /\ ls[m].g # AirNo => ls[m].no = Len(file.surfs) - 1
         /\ \A k \in 2..m : ls[k].no = ls[k-1].no + 1
(* indices match across every surface, light goes from air to air, and the determinant says so *)
Chained ==
  Readable => LET es == Els(file)  s == Whole(es) IN
    /\ \A k \in 2..Len(es) : es[k].n1 = es[k-1].n2
    /\ es # <<>> => es[1].n1 = ROne /\ (LensSurfs(file)[Len(LensSurfs(file))].g = AirNo => es[Len(es)].n2 = ROne)
    /\ es # <<>> => RSub(RMul(s.A, s.D), RMul(s.B, s.C)) = RDiv(es[1].n1, es[Len(es)].n2)
    /\ Len(es) = Len(LensSurfs(file)) + Cardinality({k \in 1..Len(LensSurfs(file)) : LensSurfs(file)[k].g # AirNo})
(* a file in inches describes the same lens as the file in millimetres, 25.4 times as large *)
Scaled ==
  Readable => LET a == Whole(Els([file EXCEPT !.unit = "IN"]))  b == Whole(Els([file EXCEPT !.unit = "MM"]))  u == RQ(254, 10)
              IN /\ a.A = b.A /\ a.D = b.D /\ a.B = RMul(b.B, u) /\ RMul(a.C, u) = b.C /\ a.L = RMul(b.L, u)
                 /\ Els([file EXCEPT !.unit = ""]) = Els([file EXCEPT !.unit = "MM"])
(* what lies outside the lens does not change it *)
Air1 == [c |-> RQ(1, 33), hd |-> RI(3), z |-> RI(11), g |-> ""]
Ends == LET ls == LensSurfs(file) IN ls # <<>> /\ ls[Len(ls)].g = AirNo
Outside ==
  Readable =>
    /\ Els([file EXCEPT !.surfs = <<Air1>> \o @]) = Els(file)
    /\ Ends => \A k \in 1..Len(Kinds) : Els([file EXCEPT !.surfs = Append(@, Kinds[k])]) = Els(file)
(* padding with the wavelength that means "not used" changes nothing; the design wavelength is one of those given *)
Padded ==
  file.waves # <<>> =>
    /\ DesignWave(Append(file.waves, Useless)) = DesignWave(file.waves)
    /\ \E k \in 1..Len(file.waves) : DesignWave(file.waves) = file.waves[k]
(* mutants *)
KeepPadding(ws) == ws
AlwaysMM(unit) == ROne
=============================================================================
