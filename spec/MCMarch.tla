------------------------------- MODULE MCMarch --------------------------------
(* Histories of applications on one solver object: the reference marching     *)
(* (load assembled anew on every slab), the optimised one (buffers that live  *)
(* as long as the object) and the operator.  Every history of Calls calls     *)
(* over two right-hand sides and two sets of slab solvers.                    *)
EXTENDS Marching, Json, IOUtils
CONSTANTS Ns, Calls

VARIABLES vN, vhist,       \* number of slabs, calls so far: <<kind, rhs, solvers>>
          vpc, vslab,      \* where in the current call
          vbufS, vbufR,    \* buffer of the slab's right-hand side: start, rest
          vbnd, vload,     \* boundary vectors of the optimised variant
          vcarry,          \* end of the last slab in the reference variant
          vuh, vsol,       \* slab solution, solution vector of the call
          vlast            \* last call of the slab solver: [solver, start, rest]
vars == <<vN, vhist, vpc, vslab, vbufS, vbufR, vbnd, vload, vcarry, vuh, vsol, vlast>>

c == Len(vhist)
Kind == vhist[c][1]
NoSolve == [solver |-> "none", start |-> Nil, rest |-> Nil]

Init == /\ vN \in Ns /\ vhist = <<>> /\ vpc = "idle" /\ vslab = 0
        /\ vbufS = Junk(1) /\ vbufR = Junk(2) /\ vbnd = Junk(3) /\ vload = Junk(4) /\ vcarry = Junk(5) /\ vuh = Junk(6)
        /\ vsol = [n \in 0..(vN - 1) |-> Junk(7)] /\ vlast = NoSolve

Start(kind, rhs, set) ==
  /\ vpc = "idle" /\ Len(vhist) < Calls
  /\ vhist' = Append(vhist, <<kind, rhs, set>>) /\ vslab' = 0
  /\ vsol' = [n \in 0..(vN - 1) |-> Junk(7)]
  /\ vpc' = IF kind = "apply" THEN "idle" ELSE "load"
  /\ IF kind = "improved" THEN vbufS' = Nil /\ vbufR' = Nil ELSE UNCHANGED <<vbufS, vbufR>>
  /\ UNCHANGED <<vN, vbnd, vload, vcarry, vuh, vlast>>

\* reference: a fresh vector, the load of the carried functions if there is a slab before
LoadReference == /\ vpc = "load" /\ Kind = "reference"
                 /\ vbufS' = BagAdd(IF vslab = 0 THEN Nil ELSE vcarry, B(c, vslab))
                 /\ vbufR' = B(c, vslab)
                 /\ vpc' = "solve" /\ UNCHANGED <<vN, vhist, vslab, vbnd, vload, vcarry, vuh, vsol, vlast>>
LoadImproved == /\ vpc = "load" /\ Kind = "improved"
                /\ vbufS' = BagAdd(vbufS, B(c, vslab)) /\ vbufR' = BagAdd(vbufR, B(c, vslab))
                /\ vpc' = "solve" /\ UNCHANGED <<vN, vhist, vslab, vbnd, vload, vcarry, vuh, vsol, vlast>>
Solve == /\ vpc = "solve"
         /\ vlast' = [solver |-> WantSolver(vslab), start |-> vbufS, rest |-> vbufR]
         /\ vuh' = X(c, vslab)
         /\ vpc' = "carry" /\ UNCHANGED <<vN, vhist, vslab, vbufS, vbufR, vbnd, vload, vcarry, vsol>>
CarryReference == /\ vpc = "carry" /\ Kind = "reference"
                  /\ vcarry' = M(c, vslab)
                  /\ vpc' = "scatter" /\ UNCHANGED <<vN, vhist, vslab, vbufS, vbufR, vbnd, vload, vuh, vsol, vlast>>
\* the boundary vector is cleared, then added to; the buffer is cleared, then gets the load
CarryImproved == /\ vpc = "carry" /\ Kind = "improved"
                 /\ vbnd' = M(c, vslab) /\ vload' = vbnd' /\ vbufS' = vload' /\ vbufR' = Nil
                 /\ vpc' = "scatter" /\ UNCHANGED <<vN, vhist, vslab, vcarry, vuh, vsol, vlast>>
Scatter == /\ vpc = "scatter"
           /\ vsol' = [vsol EXCEPT ![vslab] = vuh]
           /\ IF vslab + 1 < vN THEN vslab' = vslab + 1 /\ vpc' = "load" ELSE vslab' = 0 /\ vpc' = "idle"
           /\ UNCHANGED <<vN, vhist, vbufS, vbufR, vbnd, vload, vcarry, vuh, vlast>>
Next == \/ \E kind \in {"reference", "improved"}, rhs \in {1, 2}, set \in {1, 2} : Start(kind, rhs, set)
        \/ \E rhs \in {1, 2} : Start("apply", rhs, 1)
        \/ LoadReference \/ LoadImproved \/ Solve \/ CarryReference \/ CarryImproved \/ Scatter
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
SolverGetsItsSlab == vpc = "carry" => /\ vlast.start = WantStart(c, vslab)
                                      /\ vlast.rest = WantRest(c, vslab)
                                      /\ vlast.solver = WantSolver(vslab)
SolutionComplete == (vpc = "idle" /\ c > 0 /\ Kind # "apply") => \A n \in 0..(vN - 1) : vsol[n] = X(c, n)
\* nothing of later slabs is used, nothing of earlier calls
Causal == vpc = "carry" => \A t \in DOMAIN vlast.start \union DOMAIN vlast.rest : t[2] = c /\ t[3] <= vslab
\* no uninitialised contents reach a solver or the solution
Clean == /\ \A t \in DOMAIN vlast.start \union DOMAIN vlast.rest : t[1] # "junk"
         /\ (vpc = "idle" /\ c > 0 /\ Kind # "apply") => \A n \in 0..(vN - 1) : \A t \in DOMAIN vsol[n] : t[1] # "junk"
Collect == (vpc = "idle" /\ c = Calls) => TLCSet(1, Append(TLCGet(1), [N |-> vN, calls |-> vhist]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
