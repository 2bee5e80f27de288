-------------------------------- MODULE Gmres --------------------------------
(* Restarted GMRES with left preconditioning in exact rational arithmetic.   *)
(* The state holds the iterate x, the preconditioned residual r and an       *)
(* orthogonal basis p_1..p_k of C K_k (C = B A) together with the directions *)
(* q_i, C q_i = p_i, in the Krylov space; each step makes r minimal.         *)
EXTENDS Rat, TLC

Dot(u, v)   == RSumSeq([i \in 1..Len(u) |-> Mul(u[i], v[i])])
VAdd(u, v)  == TLCEval([i \in 1..Len(u) |-> Add(u[i], v[i])])
VSub(u, v)  == TLCEval([i \in 1..Len(u) |-> Sub(u[i], v[i])])
VScale(c, u) == TLCEval([i \in 1..Len(u) |-> Mul(c, u[i])])
MulVec(M, u) == TLCEval([i \in 1..Len(M) |-> Dot(M[i], u)])
VZero(n)    == TLCEval([i \in 1..n |-> Zero])
IsZeroVec(u) == \A i \in 1..Len(u) : u[i] = Zero

\* one system: A, B integer matrices, b integer vector
Rational(M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M[i]) |-> Q(M[i][j])])])
RatVec(u)   == TLCEval([i \in 1..Len(u) |-> Q(u[i])])

\* directions may be scaled: take p primitive, i.e. integer entries without a common factor
Lcm(a, b) == (a \div Gcd(a, b)) * b
Scaling(p) == LET L[i \in Nat] == IF i = 0 THEN 1 ELSE Lcm(L[i - 1], p[i][2])
                  G[i \in Nat] == IF i = 0 THEN 0 ELSE Gcd(G[i - 1], Abs(p[i][1] * (L[Len(p)] \div p[i][2])))
              IN R(L[Len(p)], G[Len(p)])
Primitive(d) == IF IsZeroVec(d.p) THEN d
                ELSE LET c == Scaling(d.p) IN [p |-> VScale(c, d.p), q |-> VScale(c, d.q)]

\* subtract from <<p, q>> the components along the basis
Orthogonalise(basis, p0, q0) ==
  LET F[k \in Nat] ==
        IF k = 0 THEN [p |-> p0, q |-> q0]
        ELSE LET prev == F[k - 1]
                 c == Div(Dot(prev.p, basis[k].p), Dot(basis[k].p, basis[k].p))
             IN [p |-> VSub(prev.p, VScale(c, basis[k].p)), q |-> VSub(prev.q, VScale(c, basis[k].q))]
  IN Primitive(F[Len(basis)])
=============================================================================
