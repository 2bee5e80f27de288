-------------------------------- MODULE Driver --------------------------------
(* What a driver and its back end have to do, shared by the model of the       *)
(* drivers and the validation of their recorded runs.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Backends == {"pypardiso", "petsc-LU", "direct"}
Iterative == {"pypardiso", "petsc-LU"}
Roles == {"first", "general"}
\* the matrix a solver in this role has to hold
MatrixOf(role) == IF role = "first" THEN "first" ELSE "slab"
RoleOfSlab(n) == IF n = 0 THEN "first" ELSE "general"
=============================================================================
