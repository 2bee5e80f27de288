------------------------------ MODULE MCPipeline ------------------------------
(* Ways to solve one problem: operator, preconditioner, slab solvers and       *)
(* iteration can be combined freely as far as the problem admits them, and all *)
(* of them give the solution of the same system.  In exact arithmetic modulo   *)
(* Prime, for two slabs of two unknowns: whichever invertible preconditioner   *)
(* is used, the preconditioned system has the assembled system's solution and  *)
(* no other, and marching makes the iteration end after the rank of the        *)
(* feedback plus one steps.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Prime
F == 0..(Prime - 1)
Mod(x) == ((x % Prime) + Prime) % Prime
Operators == {"matrixfree", "assembled"}
Preconditioners == {"improved", "reference", "twolevel"}
SlabSolvers == {"LU", "pardiso", "dense"}
Iterations == {"gmres", "restarted", "bicgstab"}
Data == {"problem", "random", "late", "zero"}
Admits(jumps, pre) == pre = "improved" => ~jumps

VARIABLES vjumps, vop, vpre, vslab, viter, vdata, vpc, va, vfeed, vrhs
vars == <<vjumps, vop, vpre, vslab, viter, vdata, vpc, va, vfeed, vrhs>>
\* the small system: lower block triangular part plus feedback of the second slab on the end of the first
Lowers == {<<<<1, 0, 0, 0>>, <<1, 2, 0, 0>>, <<0, 1, 1, 1>>, <<0, 0, 0, 2>>>>, <<<<2, 1, 0, 0>>, <<0, 1, 0, 0>>, <<0, 2, 1, 0>>, <<0, 0, 1, 1>>>>}
Feedbacks == {<<x, y>> : x \in F, y \in {0, 1}}
Full == [i \in 1..4 |-> [j \in 1..4 |-> Mod(va[i][j] + (IF i = 2 /\ j > 2 THEN vfeed[j - 2] ELSE 0))]]
Vecs == F \X F \X F \X F
Dot(r, x) == Mod(r[1] * x[1] + r[2] * x[2] + r[3] * x[3] + r[4] * x[4])
MV(m, x) == <<Dot(m[1], x), Dot(m[2], x), Dot(m[3], x), Dot(m[4], x)>>
Sub4(x, y) == <<Mod(x[1] - y[1]), Mod(x[2] - y[2]), Mod(x[3] - y[3]), Mod(x[4] - y[4])>>
Lin(a, x, y) == <<Mod(a * x[1] + y[1]), Mod(a * x[2] + y[2]), Mod(a * x[3] + y[3]), Mod(a * x[4] + y[4])>>
Solutions(m, b) == {x \in Vecs : MV(m, x) = b}
Invertible(m) == \A x \in Vecs : MV(m, x) = <<0, 0, 0, 0>> => x = <<0, 0, 0, 0>>
InvApply(m, b) == CHOOSE x \in Vecs : MV(m, x) = b

Init == /\ vjumps \in BOOLEAN /\ vop \in Operators /\ vpre \in Preconditioners /\ vslab \in SlabSolvers
        /\ viter \in Iterations /\ vdata \in Data /\ Admits(vjumps, vpre)
        /\ vpc = "start" /\ va = <<>> /\ vfeed = <<>> /\ vrhs = <<>>
\* the algebra does not depend on how the parts are made: once per kind of preconditioner
Solve == /\ vpc = "start" /\ vpc' = "solved"
         /\ IF vop = "assembled" /\ vslab = "dense" /\ viter = "gmres" /\ vdata = "random" /\ ~vjumps
            THEN va' \in Lowers /\ vfeed' \in Feedbacks /\ vrhs' \in {v \in Vecs : v[1] = 1 /\ v[3] = v[2]}
            ELSE UNCHANGED <<va, vfeed, vrhs>>
         /\ UNCHANGED <<vjumps, vop, vpre, vslab, viter, vdata>>
Next == Solve
Spec == Init /\ [][Next]_vars
Here == vpc = "solved" /\ va # <<>> /\ Invertible(Full)
\* preconditioned by marching, or by marching after a coarse correction Q = c c^T with any c
Pre(x) == IF vpre = "twolevel"
          THEN LET q == <<Mod(x[1] + x[2]), Mod(x[1] + x[2]), 0, 0>> IN Lin(1, q, InvApply(va, Sub4(x, MV(Full, q))))
          ELSE InvApply(va, x)
PreInvertible == \A x \in Vecs : Pre(x) = <<0, 0, 0, 0>> => x = <<0, 0, 0, 0>>
SameSolution == Here => LET b == vrhs IN
   /\ Cardinality(Solutions(Full, b)) = 1
   /\ PreInvertible => {x \in Vecs : Pre(MV(Full, x)) = Pre(b)} = Solutions(Full, b)
\* the operator after marching differs from the identity by something of rank one
EndsEarly == (Here /\ vpre # "twolevel") =>
   LET b == InvApply(va, vrhs)
       kb == InvApply(va, MV(Full, b))
   IN \E c0, c1 \in F : MV(Full, Lin(c0, b, Lin(c1, kb, <<0, 0, 0, 0>>))) = vrhs
Collect == vpc = "start" => TLCSet(1, Append(TLCGet(1),
   [jumps |-> vjumps, op |-> vop, pre |-> vpre, slab |-> vslab, iter |-> viter, data |-> vdata]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
