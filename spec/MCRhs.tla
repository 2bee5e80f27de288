-------------------------------- MODULE MCRhs --------------------------------
(* The right-hand side for data t^m g(x): on slab n and time node k the       *)
(* number gamma * integral over the slab of t^m phi_k, times the load of g    *)
(* over the data domain.  One step per slab, power and node.                  *)
EXTENDS TimeBasis, Setups
CONSTANTS Ns, MaxPower, SetupIds

VARIABLES vset, vq, vN, vpow, vslab, vnode, vval, vacc, vlist
vars == <<vset, vq, vN, vpow, vslab, vnode, vval, vacc, vlist>>
Gd == DataOf(vset)
Gj == JumpOf(vset)
Dt == Div(TotalOf(vset), Q(vN))
Tn(slab) == Mul(Q(slab), Dt)
\* t^m on slab n in the local variable
PowerOn(slab, m) == LET F[i \in Nat] == IF i = 0 THEN <<One>> ELSE PMul(F[i - 1], <<Tn(slab), Dt>>) IN F[m]
Load(q, slab, m, node) == Mul(Dt, PInt01(PMul(PowerOn(slab, m), BasisTab[q][node])))

Init == /\ vset \in SetupIds /\ vq \in Degrees /\ vN \in Ns /\ vpow \in 0..MaxPower
        \* the rule in time is exact up to degree six; large numbers only in low powers
        /\ vpow + vq <= 6 /\ (vpow <= 3 \/ (TotalOf(vset)[1] <= 3 /\ vN <= 3))
        /\ vslab = 0 /\ vnode = 0 /\ vval = Load(vq, 0, vpow, 0) /\ vacc = vval
        /\ vlist = <<Mul(Gd, vval)>>
Next == /\ ~(vslab = vN - 1 /\ vnode = vq)
        /\ IF vnode < vq THEN vnode' = vnode + 1 /\ vslab' = vslab ELSE vnode' = 0 /\ vslab' = vslab + 1
        /\ vval' = Load(vq, vslab', vpow, vnode')
        /\ vacc' = Add(vacc, vval')
        /\ vlist' = Append(vlist, Mul(Gd, vval'))
        /\ UNCHANGED <<vset, vq, vN, vpow>>
Spec == Init /\ [][Next]_vars
\* after the last node of a slab all of t^m up to its end has been integrated
AllSoFar == vnode = vq => vacc = Div(RPow(Tn(vslab + 1), vpow + 1), Q(vpow + 1))
Done == vslab = vN - 1 /\ vnode = vq
Collect == Done => TLCSet(1, Append(TLCGet(1),
   [setup |-> vset, q |-> vq, N |-> vN, pow |-> vpow, load |-> vlist, init_m |-> Div(Gj, Dt), init_k |-> Mul(Gj, Dt)]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
