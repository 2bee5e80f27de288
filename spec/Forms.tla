-------------------------------- MODULE Forms --------------------------------
(* The stabilised space-time formulation of the data assimilation problem.   *)
(*                                                                           *)
(* Unknowns U = (u1, u2) displacement and velocity, Z = (z1, z2) duals, with *)
(* tests W = (w1, w2) and Y = (y1, y2), components 1..4 in this order.  Each *)
(* component is piecewise polynomial in time, with a node value in space per *)
(* slab and time node.  A bilinear form is a table                           *)
(*     <<row component, row slab, row node, column component, column slab,   *)
(*       column node, operator in space>>  |->  rational coefficient         *)
(* The operators in space are left symbolic:                                 *)
(*   M (u,v)   K (grad u, grad v)   Mom (u,v) over the data domain           *)
(*   F  <n.grad u, v> over the boundary   Ft  its transpose                  *)
(*   Bh <u,v>/h over the boundary   J  mean h <[grad u],[grad v]> inside     *)
(*   h2M h^2(u,v)  h2L h^2(u,Lap v)  h2Lt h^2(Lap u,v)  h2LL h^2(Lap u,Lap v) *)
EXTENDS TimeBasis, TLC

\* cfg: [q, qs, N, k, dt, gd, gs, gp, gj, jumps, wp], rationals except q, qs, N, k and the flags
DegOf(cfg, comp) == IF comp <= 2 THEN cfg.q ELSE cfg.qs
Lambda(cfg) == Q(5 * cfg.k * cfg.k)
DtPow(cfg, e) == IF e = 0 THEN One ELSE IF e > 0 THEN cfg.dt ELSE Inv(cfg.dt)

\* integral over a slab of d^rd(row basis) d^cd(column basis)
TimeInt(cfg, rc, rd, rt, cc, cd, ct) ==
  LET dr == DegOf(cfg, rc)
      dc == DegOf(cfg, cc)
      ref == IF rd = 0 /\ cd = 0 THEN MTab[dr][dc][rt][ct]
             ELSE IF rd = 0 THEN DMTab[dr][dc][rt][ct]
             ELSE IF cd = 0 THEN DMTab[dc][dr][ct][rt]
             ELSE DDMTab[dr][dc][rt][ct]
  IN Mul(DtPow(cfg, 1 - rd - cd), ref)

\* one term of the form, integrated over a slab: coefficient, row component and its time derivatives, column ..., operator
T(c, rc, rd, cc, cd, op) == [c |-> c, rc |-> rc, rd |-> rd, cc |-> cc, cd |-> cd, op |-> op]
Transposed(op) == CASE op = "F" -> "Ft" [] op = "Ft" -> "F" [] op = "h2L" -> "h2Lt" [] op = "h2Lt" -> "h2L" [] OTHER -> op
TransposeTerm(t) == T(t.c, t.cc, t.cd, t.rc, t.rd, Transposed(t.op))

\* the wave operator tested with Y: u1'' = Lap u1 as a first order system
Forward == << T(One, 3, 0, 2, 1, "M"), T(One, 3, 0, 1, 0, "K"), T(Q(-1), 3, 0, 1, 0, "F"),
              T(One, 4, 0, 1, 1, "M"), T(Q(-1), 4, 0, 2, 0, "M") >>
\* and its transpose: the dual acting on W
Backward == [i \in 1..Len(Forward) |-> TransposeTerm(Forward[i])]
DataFit(cfg) == << T(cfg.gd, 1, 0, 1, 0, "Mom") >>
Dual(cfg) == << T(Neg(cfg.gs), 3, 0, 3, 0, "M"), T(Neg(cfg.gs), 3, 0, 3, 0, "K"), T(Neg(cfg.gs), 4, 0, 4, 0, "M"),
                T(Neg(Mul(cfg.gs, Lambda(cfg))), 3, 0, 3, 0, "Bh") >>
\* least squares of the residuals u2 - u1' and h (u2' - Lap u1): every product of two factors
Res1 == << [c |-> 2, d |-> 0, s |-> One], [c |-> 1, d |-> 1, s |-> Q(-1)] >>
Res2 == << [c |-> 2, d |-> 1, s |-> One, lap |-> FALSE], [c |-> 1, d |-> 0, s |-> Q(-1), lap |-> TRUE] >>
OpOf(rowlap, collap) == IF rowlap THEN IF collap THEN "h2LL" ELSE "h2L" ELSE IF collap THEN "h2Lt" ELSE "h2M"
Primal(cfg) ==
  << T(Mul(cfg.gp, Lambda(cfg)), 1, 0, 1, 0, "Bh"), T(cfg.gp, 1, 0, 1, 0, "J") >>
  \o [i \in 1..4 |-> LET a == Res1[1 + ((i - 1) \div 2)]  b == Res1[1 + ((i - 1) % 2)]
                     IN T(Mul(cfg.gp, Mul(a.s, b.s)), a.c, a.d, b.c, b.d, "M")]
  \o [i \in 1..4 |-> LET a == Res2[1 + ((i - 1) \div 2)]  b == Res2[1 + ((i - 1) % 2)]
                     IN T(Mul(cfg.gp, Mul(a.s, b.s)), a.c, a.d, b.c, b.d, OpOf(a.lap, b.lap))]
Terms(cfg) == Forward \o Backward \o DataFit(cfg) \o Dual(cfg) \o Primal(cfg)

(* -------------------------- tables ---------------------------------------- *)
SlabUnknowns(cfg) == UNION {{<<comp, t>> : t \in 0..DegOf(cfg, comp)} : comp \in 1..4}
\* rows and columns of one slab, not yet placed at a slab
SlabTable(cfg) ==
  LET terms == TLCEval(Terms(cfg))
      ids   == TLCEval({<<terms[i].rc, terms[i].cc, terms[i].op>> : i \in 1..Len(terms)})
      keys  == TLCEval(UNION {{<<id[1], r, id[2], c, id[3]>> : r \in 0..DegOf(cfg, id[1]), c \in 0..DegOf(cfg, id[2])} : id \in ids})
      value(key) == LET F[i \in Nat] == IF i = 0 THEN Zero
                          ELSE LET t == terms[i] IN
                               IF t.rc = key[1] /\ t.cc = key[3] /\ t.op = key[5]
                               THEN Add(F[i - 1], Mul(t.c, TimeInt(cfg, t.rc, t.rd, key[2], t.cc, t.cd, key[4])))
                               ELSE F[i - 1]
                    IN F[Len(terms)]
  IN TLCEval([key \in keys |-> value(key)])

Empty == [key \in {} |-> Zero]
Get(tab, key) == IF key \in DOMAIN tab THEN tab[key] ELSE Zero
Plus(a, b) == TLCEval([key \in DOMAIN a \union DOMAIN b |-> Add(Get(a, key), Get(b, key))])
Place(tab, n) == TLCEval([key \in {<<s[1], n, s[2], s[3], n, s[4], s[5]>> : s \in DOMAIN tab} |->
                            tab[<<key[1], key[3], key[4], key[6], key[7]>>]])

(* values at single time nodes: a functional is a set of <<component, slab, node, sign>> *)
First(cfg, comp, n) == <<comp, n, 0>>
Last(cfg, comp, n)  == <<comp, n, DegOf(cfg, comp)>>
Jump(cfg, comp, n)  == << [at |-> First(cfg, comp, n), s |-> One], [at |-> Last(cfg, comp, n - 1), s |-> Q(-1)] >>
Start(cfg, comp, n) == << [at |-> First(cfg, comp, n), s |-> One] >>

\* coefficient * (column functional, row functional) through an operator in space
Product(c, row, col, op) ==
  LET all == TLCEval({<<i, j>> : i \in 1..Len(row), j \in 1..Len(col)})
      key(p) == row[p[1]].at \o col[p[2]].at \o <<op>>
      keys == TLCEval({key(p) : p \in all})
      value(k) == LET p == CHOOSE p \in all : key(p) = k IN Mul(c, Mul(row[p[1]].s, col[p[2]].s))
  IN TLCEval([k \in keys |-> value(k)])
SumTables(seq) == LET F[i \in Nat] == IF i = 0 THEN Empty ELSE Plus(F[i - 1], seq[i]) IN F[Len(seq)]

\* penalty of a functional of the primal unknowns: value and gradient of u1, value of u2
Penalty(cfg, row(_), col(_)) ==
  << Product(Div(cfg.gj, cfg.dt), row(1), col(1), "M"), Product(Mul(cfg.gj, cfg.dt), row(1), col(1), "K"),
     Product(Div(cfg.gj, cfg.dt), row(2), col(2), "M") >>

JumpPenalty(cfg, n) == LET f(comp) == Jump(cfg, comp, n) IN SumTables(Penalty(cfg, f, f))
\* preconditioner: the slab n sees the jump, the slab before does not
JumpPenaltyPre(cfg, n) == LET f(comp) == Jump(cfg, comp, n)
                              g(comp) == Start(cfg, comp, n)
                          IN SumTables(Penalty(cfg, g, f))
StartPenalty(cfg, n) == LET f(comp) == Start(cfg, comp, n) IN SumTables(Penalty(cfg, f, f))

\* jumps of the forward problem: they enter the wave operator where the time derivative is, and its transpose
ForwardJump(cfg, n) ==
  SumTables(<< Product(One, Start(cfg, 3, n), Jump(cfg, 2, n), "M"), Product(One, Start(cfg, 4, n), Jump(cfg, 1, n), "M"),
               Product(One, Jump(cfg, 2, n), Start(cfg, 3, n), "M"), Product(One, Jump(cfg, 1, n), Start(cfg, 4, n), "M") >>)
DualStart(cfg, n) ==
  LET c == Neg(Mul(cfg.gs, cfg.dt))
  IN SumTables(<< Product(c, Start(cfg, 3, n), Start(cfg, 3, n), "M"), Product(c, Start(cfg, 4, n), Start(cfg, 4, n), "M") >>)
\* what the slab solver sees of them: the jump's part in the slab itself, tested with Y
ForwardStart(cfg, n) ==
  SumTables(<< Product(One, Start(cfg, 3, n), Start(cfg, 2, n), "M"), Product(One, Start(cfg, 4, n), Start(cfg, 1, n), "M") >>)

\* coupling of slab n with the one before
Coupling(cfg, n, pre) ==
  LET base == IF pre THEN JumpPenaltyPre(cfg, n) ELSE JumpPenalty(cfg, n)
  IN IF cfg.jumps THEN SumTables(<<base, ForwardJump(cfg, n), DualStart(cfg, n)>>) ELSE base
InitialPenalty(cfg) == IF cfg.wp THEN StartPenalty(cfg, 0) ELSE Empty

\* matrices of one slab, placed at slab 0
SlabNoJumps(cfg) == Place(SlabTable(cfg), 0)
SlabJumps(cfg) ==
  LET base == Plus(SlabNoJumps(cfg), StartPenalty(cfg, 0))
  IN IF cfg.jumps THEN SumTables(<<base, DualStart(cfg, 0), ForwardStart(cfg, 0)>>) ELSE base
SlabFirst(cfg) == Plus(SlabNoJumps(cfg), InitialPenalty(cfg))

\* time marching: the right-hand side of slab 1 gets this from the solution of slab 0
MarchLoad(cfg) ==
  LET row(comp) == Start(cfg, comp, 1)
      col(comp) == << [at |-> Last(cfg, comp, 0), s |-> One] >>
      base == SumTables(Penalty(cfg, row, col))
  IN IF cfg.jumps THEN SumTables(<<base, Product(One, row(3), col(2), "M"), Product(One, row(4), col(1), "M")>>) ELSE base

RowBlock(key) == <<key[1], key[2], key[3]>>
ColBlock(key) == <<key[4], key[5], key[6]>>
NonZero(tab) == {key \in DOMAIN tab : tab[key] /= Zero}
TKey(key) == <<key[4], key[5], key[6], key[1], key[2], key[3], Transposed(key[7])>>
IsSymmetric(tab) == \A key \in DOMAIN tab : Get(tab, TKey(key)) = tab[key]
Same(a, b) == \A key \in DOMAIN a \union DOMAIN b : Get(a, key) = Get(b, key)
Nonzeros(tab) == TLCEval([key \in NonZero(tab) |-> tab[key]])
=============================================================================
