------------------------------ MODULE MCTransfer ------------------------------
(* Transfer between two grids by interpolation in space, block by block: every *)
(* component, slab and time node goes to itself.  The matrices of the          *)
(* interpolation on intervals are computed here exactly for each order; the    *)
(* transfer is one step per block, in any order of the blocks.                 *)
EXTENDS TimeBasis, Json, IOUtils
CONSTANTS Orders, SomeN

\* points in hundredths
Grids == [line8 |-> <<0, 13, 21, 30, 37, 50, 70, 82, 100>>, line |-> <<0, 21, 37, 70, 100>>, line3 |-> <<0, 30, 45, 100>>,
          lineb |-> <<0, 33, 50, 85, 100>>]
Pairs == {<<"line8", "line">>, <<"line", "line3">>, <<"line", "lineb">>}  \* <<fine, coarse>>; only the first is nested; the last of equal size
Nested(p) == p = <<"line8", "line">>
Orders4 == Orders \X Orders  \* primal and dual order

\* positions of the degrees of freedom in units of 1 / (100 k)
NDof(g, k) == k * (Len(Grids[g]) - 1) + 1
Dof(g, k, i) == LET c == (i - 1) \div k IN
  IF c = Len(Grids[g]) - 1 THEN k * Grids[g][c + 1]
  ELSE k * Grids[g][c + 1] + (i - 1 - c * k) * (Grids[g][c + 2] - Grids[g][c + 1])
\* cell of grid g that holds position y (units of 1 / (100 k)): the first one
CellOf(g, k, y) == CHOOSE c \in 1..(Len(Grids[g]) - 1) :
   /\ k * Grids[g][c] <= y /\ y <= k * Grids[g][c + 1]
   /\ \A d \in 1..(c - 1) : ~(k * Grids[g][d] <= y /\ y <= k * Grids[g][d + 1])
Local(g, k, c, y) == R(y - k * Grids[g][c], k * (Grids[g][c + 1] - Grids[g][c]))
\* entry of the interpolation from grid h (columns) to grid g (rows)
Entry(g, h, k, i, j) ==
  LET y == Dof(g, k, i) IN LET c == CellOf(h, k, y) IN LET n == j - 1 - (c - 1) * k IN
  IF n < 0 \/ n > k THEN Zero ELSE PEval(BasisTab[k][n], Local(h, k, c, y))
Interp(g, h, k) == TLCEval([i \in 1..NDof(g, k) |-> TLCEval([j \in 1..NDof(h, k) |-> Entry(g, h, k, i, j)])])
Tab == TLCEval([p \in Pairs |-> TLCEval([k \in Orders |-> [up |-> Interp(p[1], p[2], k), down |-> Interp(p[2], p[1], k)]])])
MatMul(a, b, m, n, l) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..l |-> RSumSeq([q \in 1..n |-> Mul(a[i][q], b[q][j])])])])

VARIABLES vp, vk, vks, vq, vqs, vN, vtodo, vdone
vars == <<vp, vk, vks, vq, vqs, vN, vtodo, vdone>>
Blocks(q, qs, N) == {<<c, n, t>> : c \in 1..2, n \in 0..(N - 1), t \in 0..q} \union {<<c, n, t>> : c \in 3..4, n \in 0..(N - 1), t \in 0..qs}
OrderOf(c) == IF c <= 2 THEN vk ELSE vks
Init == /\ vp \in Pairs /\ vk \in Orders /\ vks \in Orders /\ vN \in SomeN /\ vq \in 1..2 /\ vqs \in 0..1
        /\ vtodo = Blocks(vq, vqs, vN) /\ vdone = <<>>
Transfer(b) == /\ vtodo' = vtodo \ {b}
               /\ vdone' = Append(vdone, <<b, b, OrderOf(b[1])>>)   \* from block, to block, order
               /\ UNCHANGED <<vp, vk, vks, vq, vqs, vN>>
\* the order does not matter for what is transferred; components, slabs and nodes ascending
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Next == vtodo # {} /\ Transfer(CHOOSE b \in vtodo : \A d \in vtodo : d = b \/ Less(b, d))
Spec == Init /\ [][Next]_vars

OnlyItself == \A i \in 1..Len(vdone) : vdone[i][1] = vdone[i][2]
EveryBlockOnce == /\ vtodo = {} => {vdone[i][2] : i \in 1..Len(vdone)} = Blocks(vq, vqs, vN)
                  /\ \A i, j \in 1..Len(vdone) : vdone[i][2] = vdone[j][2] => i = j

\* the interpolation itself: values, sums and reproduction
Fresh == vdone = <<>>
Up == Tab[vp][vk].up
Down == Tab[vp][vk].down
NFine == NDof(vp[1], vk)
NCoarse == NDof(vp[2], vk)
RowSums == Fresh => \A i \in 1..NFine : RSumSeq(Up[i]) = One
RestrictedProlongationIsIdentity ==
  (Fresh /\ Nested(vp)) => MatMul(Down, Up, NCoarse, NFine, NCoarse) = [i \in 1..NCoarse |-> [j \in 1..NCoarse |-> IF i = j THEN One ELSE Zero]]
\* polynomials up to the order
Power(g, e) == [i \in 1..NDof(g, vk) |-> RPow(R(Dof(g, vk, i), 100 * vk), e)]
Reproduces == Fresh => \A e \in 0..(IF vk = 3 THEN 2 ELSE vk) :
   LET f == Power(vp[1], e) c == Power(vp[2], e) IN
   /\ \A i \in 1..NFine : RSumSeq([j \in 1..NCoarse |-> Mul(Up[i][j], c[j])]) = f[i]
   /\ \A i \in 1..NCoarse : RSumSeq([j \in 1..NFine |-> Mul(Down[i][j], f[j])]) = c[i]

Collect == vtodo = {} => TLCSet(1, Append(TLCGet(1), [fine |-> vp[1], coarse |-> vp[2], k |-> vk, ks |-> vks, q |-> vq, qs |-> vqs, N |-> vN, moves |-> vdone]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, [moves |-> TLCGet(1), tables |-> {[fine |-> p[1], coarse |-> p[2], k |-> k, up |-> Tab[p][k].up, down |-> Tab[p][k].down] : p \in Pairs, k \in Orders}])
=============================================================================
