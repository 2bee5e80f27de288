----------------------------- MODULE MCTimeBasis -----------------------------
(* State variables are named so that no library definition binds the same  *)
(* name: TLC would otherwise not cache the constant tables.                  *)
(* The builder of the element matrices: one entry per step, row by row, for  *)
(* every pair of degrees.  The properties of the finished tables are checked *)
(* as invariants; the tables are then written out to be replayed on the code.*)
EXTENDS TimeBasis, TLC, Json, IOUtils

VARIABLES vq, vqs, done, mat, vrow, vcol, val
vars == <<vq, vqs, done, mat, vrow, vcol, val>>

Kinds == {"M_q_qstar", "M_q_q", "M_qstar_qstar", "DM_q_qstar", "DM_q_q", "DDM_q_q"}
RowDeg(k) == CASE k \in {"M_q_qstar", "DM_q_qstar", "M_qstar_qstar"} -> vqs [] OTHER -> vq
ColDeg(k) == IF k = "M_qstar_qstar" THEN vqs ELSE vq
EntryOf(k, r, c) ==
  CASE k \in {"M_q_qstar", "M_q_q", "M_qstar_qstar"} -> MTab[RowDeg(k)][ColDeg(k)][r][c]
    [] k \in {"DM_q_qstar", "DM_q_q"}                -> DMTab[RowDeg(k)][ColDeg(k)][r][c]
    [] OTHER                                         -> DDMTab[RowDeg(k)][ColDeg(k)][r][c]

Init == /\ vq \in Degrees /\ vqs \in Degrees
        /\ mat \in Kinds /\ vrow = 0 /\ vcol = 0 /\ done = FALSE
        /\ val = EntryOf(mat, 0, 0)

Step == /\ ~done
        /\ IF vcol < ColDeg(mat) THEN vrow' = vrow /\ vcol' = vcol + 1
           ELSE vrow' = vrow + 1 /\ vcol' = 0
        /\ IF vrow' > RowDeg(mat) THEN done' = TRUE /\ val' = val
           ELSE done' = FALSE /\ val' = EntryOf(mat, vrow', vcol')
        /\ UNCHANGED <<vq, vqs, mat>>
Next == Step
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Nodal == \A a \in 0..vq : \A b \in 0..vq :
           PEval(BasisTab[vq][a], TNode(vq, b)) = (IF a = b THEN One ELSE Zero)
PartitionOfUnity == PEq(PSumSeq([a \in 1..(vq + 1) |-> BasisTab[vq][a - 1]]), <<One>>)
DerivSumsToZero  == PEq(PSumSeq([a \in 1..(vq + 1) |-> DBasisTab[vq][a - 1]]), <<Zero>>)
MirrorSymmetric  == \A a \in 0..vq : \A x \in {R(0, 1), R(1, 4), R(2, 5), R(1, 1)} :
                      vq = 0 \/ PEval(BasisTab[vq][a], x) = PEval(BasisTab[vq][vq - a], Sub(One, x))
MassSymmetric    == \A a, b \in 0..vq : MTab[vq][vq][a][b] = MTab[vq][vq][b][a]
DDMSymmetric     == \A a, b \in 0..vq : DDMTab[vq][vq][a][b] = DDMTab[vq][vq][b][a]
\* integration by parts
ByParts == \A a, b \in 0..vq :
  Add(DMTab[vq][vq][a][b], DMTab[vq][vq][b][a]) =
    Sub(Mul(PEval(BasisTab[vq][a], One), PEval(BasisTab[vq][b], One)),
        Mul(PEval(BasisTab[vq][a], Zero), PEval(BasisTab[vq][b], Zero)))
TotalMassOne == RSumSeq([n \in 1..((vq + 1) * (vqs + 1)) |->
                  MTab[vqs][vq][(n - 1) \div (vq + 1)][(n - 1) % (vq + 1)]]) = One
DiagonalPositive == (vrow = vcol /\ mat \in {"M_q_q", "M_qstar_qstar"}) => val[1] > 0
ASSUME /\ PEval(Theta, Q(-1)) = One /\ PEval(Theta, Zero) = Zero /\ PEval(Theta, One) = Zero
       /\ Len(Theta) = 3
Inside == vrow <= RowDeg(mat) + 1 /\ vcol <= ColDeg(mat)

----------------------------------------------------------------------------
Tables == [ basis  |-> [n \in 1..4 |-> [a \in 1..n |-> BasisTab[n - 1][a - 1]]],
            dbasis |-> [n \in 1..4 |-> [a \in 1..n |-> DBasisTab[n - 1][a - 1]]],
            M   |-> [a \in 1..4 |-> [b \in 1..4 |-> [r \in 1..a |-> [c \in 1..b |-> MTab[a - 1][b - 1][r - 1][c - 1]]]]],
            DM  |-> [a \in 1..4 |-> [b \in 1..4 |-> [r \in 1..a |-> [c \in 1..b |-> DMTab[a - 1][b - 1][r - 1][c - 1]]]]],
            DDM |-> [a \in 1..4 |-> [b \in 1..4 |-> [r \in 1..a |-> [c \in 1..b |-> DDMTab[a - 1][b - 1][r - 1][c - 1]]]]],
            theta |-> Theta, dtheta |-> DTheta ]
\* (a post condition must not be a constant)
Emit == TLCGet("stats").distinct > 0 /\ JsonSerialize(IOEnv.OUT, Tables)
=============================================================================
