------------------------------- MODULE Marching -------------------------------
(* Time marching over the slabs, at the granularity of the buffers it uses.   *)
(* A vector is described by where its entries come from: a bag of tokens      *)
(*   <<"b", call, slab>>   right-hand side of a call on a slab                *)
(*   <<"m", call, slab>>   the end of a slab's solution through the mass      *)
(*                         matrix between slabs                               *)
(*   <<"x", call, slab>>   what the slab solver answered                      *)
(*   <<"junk", i, 0>>      whatever an uninitialised vector contains          *)
(* A slab vector has a part that the slab before contributes to (the first    *)
(* primal nodes) and the rest.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == [t \in {} |-> 0]
Tok(t) == t :> 1
BagAdd(a, b) == [t \in DOMAIN a \union DOMAIN b |->
                   (IF t \in DOMAIN a THEN a[t] ELSE 0) + (IF t \in DOMAIN b THEN b[t] ELSE 0)]

B(c, n) == Tok(<<"b", c, n>>)
M(c, n) == Tok(<<"m", c, n>>)
X(c, n) == Tok(<<"x", c, n>>)
Junk(i) == Tok(<<"junk", i, 0>>)

\* what a slab solver is to be given, and which one
WantStart(c, n) == IF n = 0 THEN B(c, n) ELSE BagAdd(B(c, n), M(c, n - 1))
WantRest(c, n)  == B(c, n)
WantSolver(n)   == IF n = 0 THEN "first" ELSE "general"
=============================================================================
