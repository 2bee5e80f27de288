------------------------------- MODULE MCErrors -------------------------------
(* What the reported errors are of: the discrete solution made continuous      *)
(* across slabs, minus the exact one.  Node values are the exact ones plus a   *)
(* defect in one node, or an arbitrary pattern that jumps at every slab; the   *)
(* exact solution is t^m.  One step per slab; the error on a slab is a         *)
(* polynomial in the local variable s from 0 to 1.                             *)
EXTENDS TimeBasis, Setups
CONSTANTS Ns, MaxPower, Qs, Defects, SetupIds

VARIABLES vset, vq, vN, vm, vdef, vslab, verr, vend, vlifted, vdisc
vars == <<vset, vq, vN, vm, vdef, vslab, verr, vend, vlifted, vdisc>>
Dt == Div(TotalOf(vset), Q(vN))
ExactOn(n) == LET F[i \in Nat] == IF i = 0 THEN <<One>> ELSE PMul(F[i - 1], <<Mul(Q(n), Dt), Dt>>) IN F[vm]
\* defects: <<"none">>, <<"node", slab, node>>, <<"rough">>
Value(p, n, j) ==
  LET exact == PEval(p, TNode(vq, j))
  IN CASE vdef[1] = "none" -> exact
       [] vdef[1] = "node" -> IF vdef[2] = n /\ vdef[3] = j THEN Add(exact, One) ELSE exact
       [] vdef[1] = "rough" -> Q(((3 * n + 2 * j + vq) % 5) - 2)
Discrete(n) == LET exact == TLCEval(ExactOn(n)) IN PSumSeq([j \in 1..(vq + 1) |-> PScale(Value(exact, n, j - 1), BasisTab[vq][j - 1])])
\* the lifting polynomial lives on [-1, 1]: s -> 2 s - 1
Compose(p, lin) == LET F[i \in Nat] == IF i > Len(p) THEN <<Zero>> ELSE PAdd(<<p[i]>>, PMul(lin, F[i + 1])) IN F[1]
ThetaLocal == TLCEval(Compose(Theta, <<Q(-1), Q(2)>>))
Jump(before, this) == Sub(PEval(this, Zero), PEval(before, One))
Lift(before, this) == PAdd(this, PScale(Neg(Jump(before, this)), ThetaLocal))
ErrorOf(lifted, n) == PAdd(lifted, PScale(Q(-1), ExactOn(n)))

AllDefects(q, N) == {<<"none">>, <<"rough">>} \union {<<"node", n, j>> : n \in 0..(N - 1), j \in 0..q}
Init == /\ vset \in SetupIds /\ vq \in Qs /\ vN \in Ns /\ vm \in 0..MaxPower
        /\ vdef \in {d \in AllDefects(vq, vN) : d[1] \in Defects}
        /\ vslab = 0 /\ vdisc = Discrete(0) /\ vlifted = vdisc
        /\ verr = <<ErrorOf(vlifted, 0)>> /\ vend = PEval(verr[1], One)
Next == /\ vslab + 1 < vN /\ vslab' = vslab + 1
        /\ vdisc' = Discrete(vslab + 1)
        /\ vlifted' = Lift(vdisc, vdisc')
        /\ verr' = Append(verr, ErrorOf(vlifted', vslab + 1))
        /\ vend' = PEval(verr'[vslab + 2], One)
        /\ UNCHANGED <<vset, vq, vN, vm, vdef>>
Spec == Init /\ [][Next]_vars

\* continuous at every slab boundary
Continuous == [][PEval(vlifted', Zero) = PEval(vlifted, One)]_vars
\* the lift changes neither the end of a slab nor its midpoint
LiftKeepsEnd == PEval(vlifted, One) = PEval(vdisc, One)
LiftKeepsMiddle == PEval(vlifted, R(1, 2)) = PEval(vdisc, R(1, 2))
\* the exact solution has no error
NoError == (vdef[1] = "none" /\ vm <= vq) => PEq(verr[vslab + 1], <<Zero>>)
\* a defect in one node is seen in its own slab, and by the lift in the next if the node is the last
SeenWhere == (vdef[1] = "node" /\ vm <= vq) =>
   (~PEq(verr[vslab + 1], <<Zero>>) <=>
      \* for quadratics the lift is the first basis function, so that the first node does not matter after the first slab
      \/ vdef[2] = vslab /\ ~(vq = 2 /\ vdef[3] = 0 /\ vslab > 0)
      \/ vdef[2] = vslab - 1 /\ vdef[3] = vq)
Collect == vslab = vN - 1 => TLCSet(1, Append(TLCGet(1),
   [setup |-> vset, q |-> vq, N |-> vN, m |-> vm, defect |-> vdef, nodes |-> [n \in 1..vN |-> [j \in 1..(vq + 1) |-> Value(ExactOn(n - 1), n - 1, j - 1)]],
    err |-> verr, end |-> vend]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
