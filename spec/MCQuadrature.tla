----------------------------- MODULE MCQuadrature -----------------------------
(* One step per rule, interval and degree: the exact value the rule has to   *)
(* give.  An interpolatory rule with n nodes is exact to degree n-1+m if and *)
(* only if its node polynomial is orthogonal to all polynomials of degree    *)
(* below m; that is the invariant that justifies the degrees of the table.   *)
EXTENDS Quadrature, Json, IOUtils

Intervals == << <<Zero, One>>, <<Q(-1), One>>, <<R(1, 4), R(1, 2)>>, <<R(3, 2), R(8, 5)>>, <<Q(-5), Q(-2)>>,
                <<R(7, 10), R(701, 1000)>>, <<Zero, R(1, 8)>>, <<R(-1, 3), R(2, 7)>> >>

VARIABLES vrule, vint, vdeg, vmoment
vars == <<vrule, vint, vdeg, vmoment>>
Length(i) == Sub(Intervals[i][2], Intervals[i][1])

Init == /\ vrule \in 1..Len(Rules) /\ vint \in 1..Len(Intervals)
        /\ vdeg = 0 /\ vmoment = LocalMoment(Length(vint), 0)
Next == /\ vdeg < Rules[vrule].deg
        /\ vdeg' = vdeg + 1
        /\ vmoment' = LocalMoment(Length(vint), vdeg')
        /\ UNCHANGED <<vrule, vint>>
Spec == Init /\ [][Next]_vars

NodeDegree == Len(NodePoly[vrule]) = Rules[vrule].n + 1
Orthogonal == LET m == Rules[vrule].deg - (Rules[vrule].n - 1)
              IN \A k \in 0..(m - 1) : PIntSym(PMul(NodePoly[vrule], Mono(k))) = Zero
\* and to no higher degree: the order is sharp
Sharp == LET m == Rules[vrule].deg - (Rules[vrule].n - 1)
         IN PIntSym(PMul(NodePoly[vrule], Mono(m))) /= Zero
LeftEnd == Rules[vrule].left => PEval(NodePoly[vrule], Q(-1)) = Zero
NotRight == Rules[vrule].name = "Gauss-Radau" => PEval(NodePoly[vrule], One) /= Zero
\* exact rules with rational nodes: weights and moments, checked here in full
RationalRules == <<
  [i |-> 7, p |-> <<Q(-1), Q(1)>>,       w |-> <<Q(1), Q(1)>>],
  [i |-> 8, p |-> <<Q(-1), Zero, Q(1)>>, w |-> <<R(1, 3), R(4, 3), R(1, 3)>>],
  [i |-> 9, p |-> <<Zero>>,              w |-> <<Q(2)>>] >>
ASSUME \A r \in 1..3 : \A k \in 0..Rules[RationalRules[r].i].deg :
         RSumSeq([j \in 1..Len(RationalRules[r].p) |-> Mul(RationalRules[r].w[j], RPow(RationalRules[r].p[j], k))])
           = PIntSym(Mono(k))
MomentDecreases == vdeg > 0 => Lt(vmoment, Length(vint))

Out == [rules |-> Rules, intervals |-> Intervals, nodepoly |-> NodePoly,
        moments |-> [i \in 1..Len(Intervals) |-> [k \in 1..9 |-> LocalMoment(Length(i), k - 1)]]]
Emit == TLCGet("stats").distinct > 0 /\ JsonSerialize(IOEnv.OUT, Out)
=============================================================================
