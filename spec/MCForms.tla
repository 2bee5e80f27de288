------------------------------- MODULE MCForms -------------------------------
(* Two processes over the tables of Forms: the assembly of the space-time    *)
(* matrix slab by slab (with its preconditioning variant alongside), and the *)
(* matrix-free operator, which gathers the unknowns of a slab, multiplies    *)
(* with the slab matrix, scatters, and couples the ends of two slabs.        *)
EXTENDS Forms, Setups

\* sequence of [q, qs, N, k, jumps, wp, apply, setup]; read from a file
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))

Cfg(c) == [q |-> c.q, qs |-> c.qs, N |-> c.N, k |-> c.k, jumps |-> c.jumps, wp |-> c.wp,
           dt |-> Div(TotalOf(c.setup), Q(c.N)), gd |-> DataOf(c.setup), gs |-> DualOf(c.setup),
           gp |-> PrimalOf(c.setup), gj |-> JumpOf(c.setup)]

VARIABLES vcase, vcfg, vphase, vn, vslab, vmat, vpre, vin, vout
vars == <<vcase, vcfg, vphase, vn, vslab, vmat, vpre, vin, vout>>

Init == /\ vcase \in 1..Len(Cases) /\ vcfg = Cfg(Cases[vcase])
        /\ vphase = "slab" /\ vn = 0
        /\ vslab = SlabTable(vcfg)
        /\ vmat = Empty /\ vpre = Empty /\ vin = <<0, 0, 0>> /\ vout = Empty

AddSlab == /\ vphase = "slab"
           /\ vmat' = LET a == Plus(vmat, Place(vslab, vn)) IN IF vn = 0 THEN Plus(a, InitialPenalty(vcfg)) ELSE a
           /\ vpre' = LET a == Plus(vpre, Place(vslab, vn)) IN IF vn = 0 THEN Plus(a, InitialPenalty(vcfg)) ELSE a
           /\ vphase' = IF vn > 0 THEN "couple" ELSE IF vn + 1 = vcfg.N THEN "assembled" ELSE "slab"
           /\ vn' = IF vn > 0 THEN vn ELSE 1
           /\ UNCHANGED <<vcase, vcfg, vslab, vin, vout>>
AddCoupling == /\ vphase = "couple"
               /\ vmat' = Plus(vmat, Coupling(vcfg, vn, FALSE))
               /\ vpre' = Plus(vpre, Coupling(vcfg, vn, TRUE))
               /\ vn' = vn + 1
               /\ vphase' = IF vn + 1 = vcfg.N THEN "assembled" ELSE "slab"
               /\ UNCHANGED <<vcase, vcfg, vslab, vin, vout>>

\* the operator applied to a vector supported on one block; vout: <<component, slab, node, op>> |-> coefficient
UnitBlocks == {<<u[1], n, u[2]>> : u \in SlabUnknowns(vcfg), n \in 0..(vcfg.N - 1)}
Column(tab, blk) == LET keys == {key \in DOMAIN tab : ColBlock(key) = blk}
                    IN TLCEval([r \in {<<key[1], key[2], key[3], key[7]>> : key \in keys} |->
                                  tab[<<r[1], r[2], r[3]>> \o blk \o <<r[4]>>]])
Begin == /\ vphase = "assembled" /\ Cases[vcase].apply
         /\ vin' \in UnitBlocks /\ vout' = Empty /\ vn' = 0 /\ vphase' = "apply"
         /\ UNCHANGED <<vcase, vcfg, vslab, vmat, vpre>>
ApplySlab == /\ vphase = "apply"
             /\ vout' = Plus(vout, Column(IF vn = 0 THEN SlabFirst(vcfg) ELSE Place(vslab, vn), vin))
             /\ vphase' = IF vn > 0 THEN "applycouple" ELSE IF vn + 1 = vcfg.N THEN "applied" ELSE "apply"
             /\ vn' = IF vn > 0 THEN vn ELSE 1
             /\ UNCHANGED <<vcase, vcfg, vslab, vmat, vpre, vin>>
ApplyCoupling == /\ vphase = "applycouple"
                 /\ vout' = Plus(vout, Column(Coupling(vcfg, vn, FALSE), vin))
                 /\ vn' = vn + 1
                 /\ vphase' = IF vn + 1 = vcfg.N THEN "applied" ELSE "apply"
                 /\ UNCHANGED <<vcase, vcfg, vslab, vmat, vpre, vin>>
Next == AddSlab \/ AddCoupling \/ Begin \/ ApplySlab \/ ApplyCoupling
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Assembling == vphase \in {"slab", "couple", "assembled"}
Symmetric == Assembling => IsSymmetric(vmat)
\* each slab only meets its neighbours
BlockTridiagonal == Assembling => \A key \in NonZero(vmat) : key[2] - key[5] \in {-1, 0, 1}
OnlySlabsSoFar == Assembling => \A key \in NonZero(vmat) : key[2] <= vn /\ key[5] <= vn
\* slabs only meet at the end of one and the start of the next
MeetAtTheEnds == Assembling => \A key \in NonZero(vmat) : key[2] # key[5] =>
   LET lo == IF key[2] < key[5] THEN RowBlock(key) ELSE ColBlock(key)
       hi == IF key[2] < key[5] THEN ColBlock(key) ELSE RowBlock(key)
   IN hi[3] = 0 /\ lo[3] = DegOf(vcfg, lo[1])
LowerTriangular == (Assembling /\ ~vcfg.jumps) => \A key \in NonZero(vpre) : key[2] >= key[5]
\* the variants differ only in what a slab feeds back on the one before
DiffersInFeedback == Assembling => \A key \in DOMAIN vmat :
   vmat[key] # Get(vpre, key) => (key[2] < vcfg.N - 1 /\ key[3] = DegOf(vcfg, key[1]) /\ key[2] <= key[5])
\* diagonal blocks of the preconditioner are the slab matrices
SlabOfPre(n) == [key \in {x \in DOMAIN vpre : x[2] = n /\ x[5] = n} |-> vpre[key]]
DiagonalIsSlabMatrix == (vphase = "assembled" /\ ~vcfg.jumps) =>
   /\ Same(SlabOfPre(0), SlabFirst(vcfg))
   /\ \A n \in 1..(vcfg.N - 1) : Same(SlabOfPre(n), Plus(Place(vslab, n), StartPenalty(vcfg, n)))
\* marching with slab solvers solves the lower triangular system
Negated(tab) == [key \in DOMAIN tab |-> Neg(tab[key])]
MarchingIsPre == (vphase = "assembled" /\ ~vcfg.jumps /\ vcfg.N > 1) =>
   Same([key \in {x \in DOMAIN vpre : x[2] = 1 /\ x[5] = 0} |-> vpre[key]], Negated(MarchLoad(vcfg)))
\* in between, the load and the slab matrix are the two sides of the same jump
MarchLoadIsJump == vphase = "assembled" =>
   LET start == Plus(SlabJumps(vcfg), Negated(Plus(SlabNoJumps(vcfg), IF vcfg.jumps THEN DualStart(vcfg, 0) ELSE Empty)))
       load == MarchLoad(vcfg)
   IN \A key \in NonZero(load) :
        Get(start, <<key[1], 0, key[3], key[4], 0, 0, key[7]>>) = load[key]
AppliedIsAssembled == vphase = "applied" => Same(vout, Column(vmat, vin))
\* the energy of data fit and primal stabilisation is not negative on the diagonal
DiagonalSign == vphase = "assembled" => \A key \in NonZero(vmat) :
   (RowBlock(key) = ColBlock(key) /\ key[7] \in {"M", "K", "Mom", "Bh", "J", "h2M", "h2LL"}) =>
      IF key[1] <= 2 THEN vmat[key][1] > 0 ELSE vmat[key][1] < 0

----------------------------------------------------------------------------
Rows(tab) == LET keys == NonZero(tab) IN {<<key, tab[key]>> : key \in keys}
Record == [case |-> Cases[vcase], cfg |-> vcfg, mat |-> Rows(vmat), pre |-> Rows(vpre),
           nojump |-> Rows(SlabNoJumps(vcfg)), jump |-> Rows(SlabJumps(vcfg)), first |-> Rows(SlabFirst(vcfg)),
           march |-> Rows(MarchLoad(vcfg))]
Collect == vphase = "assembled" => TLCSet(1, Append(TLCGet(1), Record))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
