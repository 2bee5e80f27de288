------------------------------ MODULE TimeBasis ------------------------------
(* The discretisation in time: nodal bases on [0, 1], the matrices of their  *)
(* integrals, and the polynomial that lifts the jump between two slabs.      *)
(* Everything is defined from what it is for (values at nodes, integrals),   *)
(* not from the closed formulas in the code.                                 *)
EXTENDS Poly, FiniteSets

Degrees == 0..3

\* node j (0-based) of degree q; degree 0 has the constant function only
TNode(q, j) == IF q = 0 THEN Zero ELSE R(j, q)

\* (q x - m) / (j - m): one at node j and zero at node m
LinFactor(q, j, m) == <<R(-m, j - m), R(q, j - m)>>
Others(q, j) == [n \in 1..q |-> IF n - 1 < j THEN n - 1 ELSE n]
Basis(q, j)  == PProdSeq([n \in 1..q |-> LinFactor(q, j, Others(q, j)[n])])
DBasis(q, j) == PDiff(Basis(q, j))

\* tables, so that TLC computes every entry once
BasisTab  == TLCEval([q \in Degrees |-> TLCEval([j \in 0..q |-> Basis(q, j)])])
DBasisTab == TLCEval([q \in Degrees |-> TLCEval([j \in 0..q |-> DBasis(q, j)])])

MEntry(qt, i, qu, j)   == PInt01(PMul(BasisTab[qt][i], BasisTab[qu][j]))
DMEntry(qt, i, qu, j)  == PInt01(PMul(BasisTab[qt][i], DBasisTab[qu][j]))
DDMEntry(qt, i, qu, j) == PInt01(PMul(DBasisTab[qt][i], DBasisTab[qu][j]))

\* [test degree][trial degree][test index][trial index]
MTab == TLCEval([qt \in Degrees |-> TLCEval([qu \in Degrees |->
          TLCEval([i \in 0..qt |-> TLCEval([j \in 0..qu |-> MEntry(qt, i, qu, j)])])])])
DMTab == TLCEval([qt \in Degrees |-> TLCEval([qu \in Degrees |->
          TLCEval([i \in 0..qt |-> TLCEval([j \in 0..qu |-> DMEntry(qt, i, qu, j)])])])])
DDMTab == TLCEval([qt \in Degrees |-> TLCEval([qu \in Degrees |->
          TLCEval([i \in 0..qt |-> TLCEval([j \in 0..qu |-> DDMEntry(qt, i, qu, j)])])])])

\* lifting polynomial on [-1, 1]: nodes -1, 0, 1 with values 1, 0, 0
Theta  == PProdSeq(<< <<Zero, R(1, -1)>>, <<R(1, 2), R(-1, 2)>> >>)
DTheta == PDiff(Theta)
=============================================================================
