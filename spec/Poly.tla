-------------------------------- MODULE Poly --------------------------------
(* Polynomials in one variable with rational coefficients: p[i] belongs to  *)
(* x^(i-1).                                                                 *)
EXTENDS Rat, TLC
\* TLCEval: TLC would otherwise evaluate the coefficients again at every use

PConst(c) == <<c>>
Coef(p, i) == IF i <= Len(p) THEN p[i] ELSE Zero
Max2(a, b) == IF a > b THEN a ELSE b

PAdd(p, r)   == TLCEval([i \in 1..Max2(Len(p), Len(r)) |-> Add(Coef(p, i), Coef(r, i))])
PScale(c, p) == TLCEval([i \in 1..Len(p) |-> Mul(c, p[i])])

\* sum_{a=1..i} p[a] * r[i+1-a]
ConvAt(p, r, i) == LET F[a \in Nat] == IF a = 0 THEN Zero
                                       ELSE Add(Mul(Coef(p, a), Coef(r, i + 1 - a)), F[a - 1])
                   IN F[i]
PMul(p, r) == TLCEval([i \in 1..(Len(p) + Len(r) - 1) |-> ConvAt(p, r, i)])

PDiff(p) == IF Len(p) <= 1 THEN <<Zero>> ELSE TLCEval([i \in 1..(Len(p) - 1) |-> Mul(Q(i), p[i + 1])])
\* integral over [0, 1]
PInt01(p) == RSumSeq([i \in 1..Len(p) |-> Div(p[i], Q(i))])

PEval(p, x) == LET F[i \in Nat] == IF i > Len(p) THEN Zero ELSE Add(p[i], Mul(x, F[i + 1]))
               IN F[1]

PSumSeq(s)  == LET F[k \in Nat] == IF k = 0 THEN <<Zero>> ELSE PAdd(s[k], F[k - 1]) IN F[Len(s)]
PProdSeq(s) == LET F[k \in Nat] == IF k = 0 THEN <<One>> ELSE PMul(s[k], F[k - 1]) IN F[Len(s)]

\* equality as functions, whatever the length of the coefficient sequences
PEq(p, r) == \A i \in 1..Max2(Len(p), Len(r)) : Coef(p, i) = Coef(r, i)
=============================================================================
