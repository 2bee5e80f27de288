------------------------------ MODULE Quadrature ------------------------------
(* Quadrature rules, each defined by what makes it unique: the polynomial    *)
(* whose roots are its nodes (Legendre for Gauss, the sum of two neighbours  *)
(* for left Radau) or its rational nodes, and its order of exactness.        *)
EXTENDS Poly

\* P[n+1] = ((2n+1) x P[n] - n P[n-1]) / (n+1)
LegendreTab ==
  LET F[n \in Nat] == IF n = 0 THEN <<One>>
                      ELSE IF n = 1 THEN <<Zero, One>>
                      ELSE PAdd(PScale(R(2 * n - 1, n), PMul(<<Zero, One>>, F[n - 1])),
                                PScale(R(1 - n, n), F[n - 2]))
  IN TLCEval([n \in 0..5 |-> TLCEval(F[n])])
RadauPoly(n) == PAdd(LegendreTab[n - 1], LegendreTab[n])

\* integral over [-1, 1]
PIntSym(p) == RSumSeq([i \in 1..Len(p) |-> IF i % 2 = 1 THEN Div(Add(p[i], p[i]), Q(i)) ELSE Zero])
Mono(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN One ELSE Zero]

\* deg: exact for all polynomials up to this degree; digits: number of digits of a tabulated rule (0: full)
Rules == <<
  [name |-> "Gauss",         n |-> 1, deg |-> 1, digits |-> 0, left |-> FALSE],
  [name |-> "Gauss",         n |-> 2, deg |-> 3, digits |-> 0, left |-> FALSE],
  [name |-> "Gauss",         n |-> 3, deg |-> 5, digits |-> 0, left |-> FALSE],
  [name |-> "Gauss-Radau",   n |-> 3, deg |-> 4, digits |-> 0, left |-> TRUE],
  [name |-> "Gauss-Radau",   n |-> 4, deg |-> 6, digits |-> 6, left |-> TRUE],
  [name |-> "Gauss-Radau",   n |-> 5, deg |-> 8, digits |-> 6, left |-> TRUE],
  [name |-> "Newton-Cotes",  n |-> 2, deg |-> 1, digits |-> 0, left |-> TRUE],
  [name |-> "Newton-Cotes",  n |-> 3, deg |-> 3, digits |-> 0, left |-> TRUE],
  [name |-> "Midpoint-Rule", n |-> 1, deg |-> 1, digits |-> 0, left |-> FALSE] >>

\* the polynomial on [-1, 1] whose roots are the nodes
NodePolyOf(r) == CASE r.name = "Gauss"        -> LegendreTab[r.n]
                   [] r.name = "Gauss-Radau"  -> RadauPoly(r.n)
                   [] r.name = "Newton-Cotes" -> IF r.n = 2 THEN <<Q(-1), Zero, One>> ELSE <<Zero, Q(-1), Zero, One>>
                   [] OTHER                   -> <<Zero, One>>
NodePoly == TLCEval([i \in 1..Len(Rules) |-> TLCEval(NodePolyOf(Rules[i]))])

\* integral over an interval of length len of ((x - a)/len)^k
LocalMoment(len, k) == Div(len, Q(k + 1))
=============================================================================
