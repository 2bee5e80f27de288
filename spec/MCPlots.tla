------------------------------- MODULE MCPlots -------------------------------
(* What a plot shows: the discrete solution row by row, each row at one time   *)
(* of one slab.  Rows are equidistant in time, the end of a slab belongs to    *)
(* the next one.  Node values are those of t^m or an arbitrary pattern; in     *)
(* space everything is a fixed affine function, which is left to the harness.  *)
(* Field output shows the error at the final time only.                        *)
EXTENDS TimeBasis, Setups
CONSTANTS Ns, MaxPower, Qs, Subs, SetupIds

VARIABLES vset, vq, vN, vm, vrough, vsub, vslab, vrow, vshown, vend
vars == <<vset, vq, vN, vm, vrough, vsub, vslab, vrow, vshown, vend>>
Total == TotalOf(vset)
Dt == Div(Total, Q(vN))
Start(n) == Mul(Q(n), Dt)
Power(n) == LET F[i \in Nat] == IF i = 0 THEN <<One>> ELSE PMul(F[i - 1], <<Start(n), Dt>>) IN F[vm]
\* value of the solution and of its velocity at node j of slab n
Rough(c, n, j) == Q(((3 * n + 2 * j + vq + 2 * c) % 5) - 2)
Node(n, j)     == IF vrough THEN Rough(0, n, j) ELSE PEval(Power(n), TNode(vq, j))
Discrete(n)    == PSumSeq([j \in 1..(vq + 1) |-> PScale(Node(n, j - 1), BasisTab[vq][j - 1])])
Local(r)       == R(r, vsub)
Row(n, r) ==
  LET d == TLCEval(Discrete(n))  e == TLCEval(Power(n))  s == Local(r)
      v == PEval(d, s)  dv == Div(PEval(PDiff(d), s), Dt)
      x == PEval(e, s)  dx == Div(PEval(PDiff(e), s), Dt)
  IN [t |-> Add(Start(n), Mul(Dt, s)), v |-> v, dv |-> dv, err |-> Sub(v, x), derr |-> Sub(dv, dx)]
\* the last node of the last slab; degree 0 has one node
AtEnd(c) ==
  LET e == Power(vN - 1)
      exact == IF c = 0 THEN PEval(e, One) ELSE Div(PEval(PDiff(e), One), Dt)
  IN Sub(IF c = 0 THEN Node(vN - 1, vq) ELSE Rough(1, vN - 1, vq), exact)

Init == /\ vset \in SetupIds /\ vq \in Qs /\ vN \in Ns /\ vm \in 0..MaxPower /\ vrough \in BOOLEAN /\ vsub \in Subs
        /\ (~vrough => vm <= vq)
        /\ vslab = 0 /\ vrow = 0 /\ vshown = <<Row(0, 0)>> /\ vend = <<AtEnd(0), AtEnd(1)>>
Draw == /\ \/ vrow + 1 < vsub /\ vrow' = vrow + 1 /\ vslab' = vslab
           \/ vrow + 1 = vsub /\ vslab + 1 < vN /\ vslab' = vslab + 1 /\ vrow' = 0
        /\ vshown' = Append(vshown, Row(vslab', vrow'))
        /\ UNCHANGED <<vset, vq, vN, vm, vrough, vsub, vend>>
Spec == Init /\ [][Draw]_vars

Last == vshown[Len(vshown)]
Equidistant == [][Sub(vshown'[Len(vshown')].t, Last.t) = Div(Dt, Q(vsub))]_vars
Within == Lt(Last.t, Total)
StartOfSlab == (vrow = 0) => Last.v = Node(vslab, 0)
ExactIsExact == ~vrough => Last.err = Zero /\ Last.derr = Zero
Done == vslab = vN - 1 /\ vrow = vsub - 1
AllRows == Done => Len(vshown) = vN * vsub /\ Add(Last.t, Div(Dt, Q(vsub))) = Total
Collect == Done => TLCSet(1, Append(TLCGet(1),
   [setup |-> vset, q |-> vq, N |-> vN, m |-> vm, rough |-> vrough, sub |-> vsub, rows |-> vshown, end |-> vend,
    nodes |-> [n \in 1..vN |-> [j \in 1..(vq + 1) |-> Node(n - 1, j - 1)]],
    velocity |-> [n \in 1..vN |-> [j \in 1..(vq + 1) |-> Rough(1, n - 1, j - 1)]]]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
