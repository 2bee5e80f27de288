------------------------------- MODULE MCDriver -------------------------------
(* A driver called several times in one process, each time with some back end: *)
(* it factorises, hands the solvers to the problem, iterates, measures.        *)
(* Solvers of earlier calls stay alive; the problem keeps the ones set last.   *)
EXTENDS Driver, Json, IOUtils
CONSTANTS Slabs, Calls, MaxIterations
VARIABLES vhist, vpc, vheld, vset, vits, vslab, vused, vanswer, vmeasured, vb
vars == <<vhist, vpc, vheld, vset, vits, vslab, vused, vanswer, vmeasured, vb>>
\* vheld: matrices held by the solvers made so far; vset: role -> solver in use (0: none)
Init == /\ vhist = <<>> /\ vpc = "idle" /\ vheld = <<>> /\ vset = [r \in Roles |-> 0]
        /\ vits = 0 /\ vslab = 0 /\ vused = <<>> /\ vanswer = "none" /\ vmeasured = "none" /\ vb = "rhs"
Back == vhist[Len(vhist)][1]
Call(be, me) == /\ vpc = "idle" /\ Len(vhist) < Calls /\ vhist' = Append(vhist, <<be, me>>)
                /\ vpc' = IF be = "direct" THEN "direct" ELSE "make"
                /\ vanswer' = "none" /\ vmeasured' = "none" /\ vits' = 0
                /\ UNCHANGED <<vheld, vset, vslab, vused, vb>>
\* solvers of this call: made in any order
Made == {r \in Roles : vset[r] # 0 /\ vset[r] > Len(vheld) - vits}
Make(r) == /\ vpc = "make" /\ vheld' = Append(vheld, MatrixOf(r))
           /\ vset' = [vset EXCEPT ![r] = Len(vheld) + 1] /\ vits' = vits + 1
           /\ r \notin Made
           /\ vpc' = IF vits = 1 THEN "iterate" ELSE "make"
           /\ UNCHANGED <<vhist, vslab, vused, vanswer, vmeasured, vb>>
\* one application of the preconditioner: a solve per slab
March == /\ vpc = "iterate" /\ vslab < Slabs
         /\ vused' = <<vslab, vheld[vset[RoleOfSlab(vslab)]]>>
         /\ vslab' = vslab + 1 /\ UNCHANGED <<vhist, vpc, vheld, vset, vits, vanswer, vmeasured, vb>>
Iterated == /\ vpc = "iterate" /\ vslab = Slabs
            /\ \/ vits < 1 + MaxIterations /\ vits' = vits + 1 /\ vslab' = 0 /\ vpc' = "iterate" /\ UNCHANGED vanswer
               \/ vits' = 0 /\ vslab' = 0 /\ vpc' = "answered" /\ vanswer' = "solution"
            /\ UNCHANGED <<vhist, vheld, vset, vused, vmeasured, vb>>
Direct == /\ vpc = "direct" /\ vanswer' = "solution" /\ vpc' = "answered"
          /\ UNCHANGED <<vhist, vheld, vset, vits, vslab, vused, vmeasured, vb>>
Finish == /\ vpc = "answered" /\ vpc' = "idle"
          /\ vmeasured' = IF vhist[Len(vhist)][2] THEN vanswer ELSE "none"
          /\ UNCHANGED <<vhist, vheld, vset, vits, vslab, vused, vanswer, vb>>
Next == (\E be \in Backends, me \in BOOLEAN : Call(be, me)) \/ (\E r \in Roles : Make(r)) \/ March \/ Iterated \/ Direct \/ Finish
Spec == Init /\ [][Next]_vars

OwnMatrix == vused # <<>> => vused[2] = MatrixOf(RoleOfSlab(vused[1]))
SetBeforeUse == (vpc = "iterate") => \A r \in Roles : vset[r] # 0
MeasuresTheAnswer == vmeasured # "none" => vmeasured = "solution"
RightHandSideKept == vb = "rhs"
Collect == (vpc = "idle" /\ Len(vhist) = Calls) => TLCSet(1, TLCGet(1) \union {vhist})
ASSUME TLCSet(1, {})
EmitAll == JsonSerialize(IOEnv.OUT, [histories |-> TLCGet(1)])
=============================================================================
