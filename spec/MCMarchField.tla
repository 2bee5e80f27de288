----------------------------- MODULE MCMarchField -----------------------------
(* Time marching with exact slab solvers inverts the block lower triangular    *)
(* system: checked exactly in the field with Prime elements, where a slab has  *)
(* an inner unknown and an end unknown, the slab matrices are invertible 2 x 2 *)
(* matrices and the end of a slab feeds the first row of the next.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prime, N
F == 0..(Prime - 1)
Mod(x) == x % Prime
Det(m) == Mod(m[1] * m[4] - m[2] * m[3])
InvOf(x) == CHOOSE y \in F : Mod(x * y) = 1
SolveSlab(m, r) == LET d == InvOf(Det(m)) IN <<Mod(d * (m[4] * r[1] - m[2] * r[2])), Mod(d * (m[1] * r[2] - m[3] * r[1]))>>

VARIABLES vfirst, vgen, vc, vb, vb2, vx, vx2, vn
vars == <<vfirst, vgen, vc, vb, vb2, vx, vx2, vn>>
Mats == {m \in F \X F \X F \X F : Det(m) # 0}
\* a few matrices suffice for the coupling structure; all right-hand sides
SomeMats == {<<1, 0, 0, 1>>, <<1, 1, 0, 1>>, <<0, 1, 1, 0>>, <<1, 1, 1, 0>>, <<2, 1, 1, 1>>, <<1, 2, 1, 1>>} \intersect Mats
Rhs == [1..N -> F \X F]
Init == /\ vfirst \in SomeMats /\ vgen \in SomeMats /\ vc \in F /\ vb \in Rhs
        /\ \E s \in F \X F : vb2 = [vb EXCEPT ![N] = s]
        /\ vx = <<>> /\ vx2 = <<>> /\ vn = 0
Mat(n) == IF n = 1 THEN vfirst ELSE vgen
Carried(x, n) == IF n = 1 THEN 0 ELSE Mod(vc * x[n - 1][2])
March == /\ vn < N /\ vn' = vn + 1
         /\ vx' = Append(vx, SolveSlab(Mat(vn + 1), <<Mod(vb[vn + 1][1] + Carried(vx, vn + 1)), vb[vn + 1][2]>>))
         /\ vx2' = Append(vx2, SolveSlab(Mat(vn + 1), <<Mod(vb2[vn + 1][1] + Carried(vx2, vn + 1)), vb2[vn + 1][2]>>))
         /\ UNCHANGED <<vfirst, vgen, vc, vb, vb2>>
Spec == Init /\ [][March]_vars
\* the rows of the block lower triangular system hold as far as marched
Row(x, b, n) == /\ Mod(Mat(n)[1] * x[n][1] + Mat(n)[2] * x[n][2] - Carried(x, n)) = b[n][1]
                /\ Mod(Mat(n)[3] * x[n][1] + Mat(n)[4] * x[n][2]) = b[n][2]
Inverts == \A n \in 1..vn : Row(vx, vb, n) /\ Row(vx2, vb2, n)
\* two right-hand sides that agree up to slab N - 1 have the same solution there
Causal == \A n \in 1..vn : n < N => vx[n] = vx2[n]
=============================================================================
