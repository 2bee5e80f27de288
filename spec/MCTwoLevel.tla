------------------------------ MODULE MCTwoLevel ------------------------------
(* The two-level step as the buffers of one solver object see it, in exact     *)
(* arithmetic modulo Prime: restrict, solve on the coarse grid, prolong, apply *)
(* the operator, subtract, march, add.  Histories of calls on one object, with *)
(* buffers that keep whatever the calls before left in them.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Prime, Calls
F == 0..(Prime - 1)
Mod(x) == ((x % Prime) + Prime) % Prime
\* two slabs: the first with fine unknowns 1..3, the second with 4..6; coarse 1..2 and 3..4
NF == 6
NC == 4
Half == CHOOSE h \in F : Mod(2 * h) = 1
Up == [i \in 1..NF |-> [j \in 1..NC |->
   CASE i \in {1, 3} -> IF j = (i + 1) \div 2 THEN 1 ELSE 0
     [] i = 2 -> IF j <= 2 THEN Half ELSE 0
     [] i \in {4, 6} -> IF j = (i + 2) \div 2 THEN 1 ELSE 0
     [] i = 5 -> IF j >= 3 THEN Half ELSE 0]]
Down == [i \in 1..NC |-> [j \in 1..NF |-> IF j = <<1, 3, 4, 6>>[i] THEN 1 ELSE 0]]
Dot(r, x, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE Mod(S[i - 1] + r[i] * x[i]) IN S[n]
MV(m, x, n) == TLCEval([i \in DOMAIN m |-> Dot(m[i], x, n)])
VAdd(x, y) == TLCEval([i \in DOMAIN x |-> Mod(x[i] + y[i])])
VSub(x, y) == TLCEval([i \in DOMAIN x |-> Mod(x[i] - y[i])])
\* slab matrices, coupling below and above the diagonal
D(i, j) == IF i = j THEN 1 + (i % 2) ELSE IF j = i + 1 THEN 1 ELSE 0
FullA == [i \in 1..NF |-> [j \in 1..NF |->
   IF (i <= 3) = (j <= 3) THEN D(i, j) ELSE IF i = 4 /\ j = 3 THEN Mod(-2) ELSE IF i = 3 /\ j = 4 THEN Mod(-2) ELSE 0]]
LowerA == [i \in 1..NF |-> [j \in 1..NF |-> IF i <= 3 /\ j > 3 THEN 0 ELSE FullA[i][j]]]
\* A is the operator: with feedback or without; the marching inverts the one without
Ops == [full |-> FullA, lower |-> LowerA]
\* back substitution: rows from below within the slab, slabs in order
InvD(i) == CHOOSE y \in F : Mod(D(i, i) * y) = 1
SlabSolve(r) == TLCEval(LET x3(o) == Mod(InvD(o + 3) * r[3]) IN
   [o \in {0, 3} |-> LET c == x3(o) IN LET b == Mod(InvD(o + 2) * (r[2] - c)) IN LET a == Mod(InvD(o + 1) * (r[1] - b)) IN <<a, b, c>>])
March(b) == LET u == SlabSolve(<<b[1], b[2], b[3]>>)[0] IN
            LET w == SlabSolve(<<Mod(b[4] + 2 * u[3]), b[5], b[6]>>)[3] IN <<u[1], u[2], u[3], w[1], w[2], w[3]>>
\* some invertible coarse solver
Coarse(c) == <<Mod(2 * c[1] + c[2]), c[2], Mod(c[3] + c[4]), Mod(2 * c[4] + c[1])>>

VARIABLES vop, vhist, vpc, vin, vbuf, vres
vars == <<vop, vhist, vpc, vin, vbuf, vres>>
Rhs == <<<<1, 2, 0, 1, 1, 2>>, <<2, 0, 1, 0, 2, 2>>>>
CRhs == <<<<1, 0, 2, 1>>, <<0, 2, 1, 1>>>>
Kinds == {"prolong", "restrict", "correct", "twolevel"}
Junk(n, v) == [i \in 1..n |-> v]
Init == /\ vop \in DOMAIN Ops /\ vhist = <<>> /\ vpc = "idle" /\ vin = <<>> /\ vres = <<>>
        /\ vbuf = [c1 |-> Junk(NC, 1), c2 |-> Junk(NC, 2), t3 |-> Junk(NF, 1), t4 |-> Junk(NF, 2), t5 |-> Junk(NF, 1), t6 |-> Junk(NF, 2)]
Kind == vhist[Len(vhist)][1]
Start(k, r) == /\ vpc = "idle" /\ Len(vhist) < Calls /\ vhist' = Append(vhist, <<k, r>>)
               /\ vin' = IF k = "prolong" THEN CRhs[r] ELSE Rhs[r]
               /\ vpc' = IF k = "prolong" THEN "prolong" ELSE "restrict"
               /\ vres' = <<>> /\ UNCHANGED <<vop, vbuf>>
Restrict == /\ vpc = "restrict"
            /\ IF Kind = "restrict" THEN vres' = MV(Down, vin, NF) /\ vpc' = "idle" /\ UNCHANGED vbuf
               ELSE vbuf' = [vbuf EXCEPT !.c1 = MV(Down, vin, NF)] /\ vpc' = "coarse" /\ UNCHANGED vres
            /\ UNCHANGED <<vop, vhist, vin>>
CoarseSolve == /\ vpc = "coarse" /\ vbuf' = [vbuf EXCEPT !.c2 = Coarse(vbuf.c1)] /\ vpc' = "prolong" /\ UNCHANGED <<vop, vhist, vin, vres>>
Prolong == /\ vpc = "prolong"
           /\ CASE Kind = "prolong" -> vres' = MV(Up, vin, NC) /\ vpc' = "idle" /\ UNCHANGED vbuf
                [] Kind = "correct" -> vres' = MV(Up, vbuf.c2, NC) /\ vpc' = "idle" /\ UNCHANGED vbuf
                [] OTHER -> vbuf' = [vbuf EXCEPT !.t3 = MV(Up, vbuf.c2, NC)] /\ vpc' = "apply" /\ UNCHANGED vres
           /\ UNCHANGED <<vop, vhist, vin>>
Apply == /\ vpc = "apply" /\ vbuf' = [vbuf EXCEPT !.t4 = MV(Ops[vop], vbuf.t3, NF)] /\ vpc' = "subtract" /\ UNCHANGED <<vop, vhist, vin, vres>>
Subtract == /\ vpc = "subtract" /\ vbuf' = [vbuf EXCEPT !.t5 = VSub(vin, vbuf.t4)] /\ vpc' = "march" /\ UNCHANGED <<vop, vhist, vin, vres>>
Marching == /\ vpc = "march" /\ vbuf' = [vbuf EXCEPT !.t6 = March(vbuf.t5)] /\ vpc' = "add" /\ UNCHANGED <<vop, vhist, vin, vres>>
AddUp == /\ vpc = "add" /\ vres' = VAdd(vbuf.t3, vbuf.t6) /\ vpc' = "idle" /\ UNCHANGED <<vop, vhist, vin, vbuf>>
Next == (\E k \in Kinds, r \in 1..2 : Start(k, r)) \/ Restrict \/ CoarseSolve \/ Prolong \/ Apply \/ Subtract \/ Marching \/ AddUp
Spec == Init /\ [][Next]_vars

Done == vpc = "idle" /\ vhist # <<>>
Correction(b) == MV(Up, Coarse(MV(Down, b, NF)), NC)
Residual(b, x) == VSub(b, MV(Ops[vop], x, NF))
Want(k, r) == CASE k = "prolong" -> MV(Up, CRhs[r], NC)
                [] k = "restrict" -> MV(Down, Rhs[r], NF)
                [] k = "correct" -> Correction(Rhs[r])
                [] k = "twolevel" -> LET q == Correction(Rhs[r]) IN VAdd(q, March(Residual(Rhs[r], q)))
\* nothing of the calls before is left in the answer
Answer == Done => vres = Want(Kind, vhist[Len(vhist)][2])
\* restricting a prolonged vector gives it back
Identity == \A r \in 1..2 : MV(Down, MV(Up, CRhs[r], NC), NF) = CRhs[r]
\* the residuals multiply: (I - A T)(I - A Q)
Multiplicative == (Done /\ Kind = "twolevel") =>
   LET b == vin r == Residual(b, Correction(b)) IN Residual(b, vres) = VSub(r, MV(Ops[vop], March(r), NF))
\* where the marching is exact the step is exact, whatever the coarse grid does
ExactWithoutFeedback == (Done /\ Kind = "twolevel" /\ vop = "lower") => MV(LowerA, vres, NF) = vin
InputKept == (vhist # <<>>) => vin = IF Kind = "prolong" THEN CRhs[vhist[Len(vhist)][2]] ELSE Rhs[vhist[Len(vhist)][2]]
Collect == (Done /\ Len(vhist) = Calls /\ vop = "full") => TLCSet(1, TLCGet(1) \union {vhist})
ASSUME TLCSet(1, {})
EmitAll == JsonSerialize(IOEnv.OUT, [histories |-> TLCGet(1)])
=============================================================================
