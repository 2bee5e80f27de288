------------------------------- MODULE MCGmres -------------------------------
EXTENDS Gmres, FiniteSets, Json, IOUtils

CONSTANTS MaxSteps, Restarts

\* id: name; every entry an integer
Systems == <<
  [A |-> <<<<2>>>>,                                     B |-> <<<<1>>>>,                                 b |-> <<3>>],
  [A |-> <<<<1, 0>>, <<0, 2>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 1>>],
  [A |-> <<<<1, 0>>, <<0, 2>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<0, 0>>],
  [A |-> <<<<0, 1>>, <<1, 0>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 0>>],
  [A |-> <<<<0, -1>>, <<1, 1>>>>,                       B |-> <<<<1, 0>>, <<0, 3>>>>,                    b |-> <<1, 2>>],
  [A |-> <<<<2, 1>>, <<0, 1>>>>,                        B |-> <<<<1, 1>>, <<0, 1>>>>,                    b |-> <<1, -1>>],
  [A |-> <<<<1, 0>>, <<0, 3>>>>,                        B |-> <<<<50, 0>>, <<0, 50>>>>,                  b |-> <<1, 1>>],
  [A |-> <<<<3, 0>>, <<0, 1>>>>,                        B |-> <<<<1, 0>>, <<0, 3>>>>,                    b |-> <<4, -3>>],
  [A |-> <<<<1, 0>>, <<0, 0>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 1>>],
  [A |-> <<<<0, 1>>, <<0, 0>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 0>>],
  [A |-> <<<<0, 0>>, <<0, 0>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 2>>],
  [A |-> <<<<1, 1>>, <<1, 1>>>>,                        B |-> <<<<1, 0>>, <<0, 1>>>>,                    b |-> <<1, 1>>],
  [A |-> <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>,     B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, b |-> <<1, 0, 0>>],
  [A |-> <<<<0, 0, 2>>, <<1, 0, 0>>, <<0, 1, 0>>>>,     B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>, b |-> <<2, 0, 0>>],
  [A |-> <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>>>,     B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, b |-> <<1, 1, 1>>],
  [A |-> <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>>>,    B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, b |-> <<1, 1, 1>>],
  [A |-> <<<<1, 1, 0>>, <<0, 1, 1>>, <<0, 0, 1>>>>,     B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, b |-> <<0, 0, 1>>],
  [A |-> <<<<2, -1, 0>>, <<-1, 2, -1>>, <<0, -1, 2>>>>, B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, b |-> <<1, 0, 0>>],
  [A |-> <<<<0, 0, 0, 1>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>>>,
   B |-> <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>, b |-> <<1, 0, 0, 0>>],
  [A |-> <<<<0, 0, 0, 1>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>>>,
   B |-> <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>, b |-> <<1, 1, 0, 0>>] >>

\* <<relative, absolute>>; a missing tolerance is zero
Tols == {<<R(1, 2), Zero>>, <<R(1, 10), Zero>>, <<R(1, 10), R(4, 5)>>, <<R(1, 40), R(1, 100)>>,
         <<Zero, R(1, 100)>>, <<Zero, R(4, 5)>>, <<Zero, R(5, 2)>>, <<R(1, 2), R(5, 2)>>}

VARIABLES vsys, vmax, vrst, vrtol, vatol, vits, vx, vr, vr0, vbasis, vout, vhist
vars == <<vsys, vmax, vrst, vrtol, vatol, vits, vx, vr, vr0, vbasis, vout, vhist>>

SA == TLCEval([s \in 1..Len(Systems) |-> Rational(Systems[s].A)])
SB == TLCEval([s \in 1..Len(Systems) |-> Rational(Systems[s].B)])
Sb == TLCEval([s \in 1..Len(Systems) |-> RatVec(Systems[s].b)])
C(s, u) == MulVec(SB[s], MulVec(SA[s], u))

Norm2(u) == Dot(u, u)
Met(r2, r02) == \/ LePos(r2, Mul(Mul(vrtol, vrtol), r02))
                \/ LePos(r2, Mul(vatol, vatol))
\* what is decided once the residual is known
Decide(r2, r02, its) == IF Met(r2, r02) THEN "return" ELSE IF its = vmax THEN "raise" ELSE "run"

Big(u) == \E i \in 1..Len(u) : Abs(u[i][1]) > 3000 \/ u[i][2] > 3000

Init == /\ vsys \in 1..Len(Systems) /\ vmax \in MaxSteps /\ vrst \in Restarts
        /\ \E t \in Tols : vrtol = t[1] /\ vatol = t[2]
        /\ vits = 0 /\ vx = VZero(Len(Sb[vsys])) /\ vbasis = <<>>
        /\ vr = MulVec(SB[vsys], Sb[vsys]) /\ vr0 = Norm2(vr)
        /\ vhist = <<Norm2(vr)>>
        /\ vout = Decide(vr0, vr0, 0)

\* beyond exact 32-bit arithmetic: such a behaviour is not pursued
Cut == vout' = "cut" /\ UNCHANGED <<vits, vx, vr, vbasis, vhist>>

Iterate ==
  /\ vout = "run"
  /\ LET basis == IF Len(vbasis) = vrst THEN <<>> ELSE vbasis      \* restart
         q == IF basis = <<>> THEN vr ELSE basis[Len(basis)].p
         d == Orthogonalise(basis, C(vsys, q), q)
     IN IF IsZeroVec(d.p)
        THEN /\ vout' = "raise"                                     \* Krylov space exhausted
             /\ UNCHANGED <<vits, vx, vr, vbasis, vhist>>
        ELSE IF Big(d.p) THEN Cut
        ELSE LET a == Div(Dot(vr, d.p), Dot(d.p, d.p))
                 r == VSub(vr, VScale(a, d.p))
             IN IF Big(r) THEN Cut
                ELSE /\ vr' = r
                     /\ vx' = VAdd(vx, VScale(a, d.q))
                     /\ vbasis' = Append(basis, d)
                     /\ vits' = vits + 1
                     /\ vhist' = Append(vhist, Norm2(r))
                     /\ vout' = Decide(Norm2(r), vr0, vits + 1)
  /\ UNCHANGED <<vsys, vmax, vrst, vrtol, vatol, vr0>>
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Final == vout /= "run"
TypeOK == vout \in {"run", "return", "raise", "cut"} /\ vits \in 0..vmax /\ Len(vbasis) <= vrst
\* r is the preconditioned residual of x
Faithful == Final => vr = VSub(MulVec(SB[vsys], Sb[vsys]), C(vsys, vx))
ConvergedOrRaised == (vout = "return") => Met(Norm2(vr), vr0)
NeverEarly == (vout = "raise") => ~Met(Norm2(vr), vr0)
InTime == vits <= vmax
Monotone == Len(vhist) > 1 => LePos(vhist[Len(vhist)], vhist[Len(vhist) - 1])
\* the residual of the current cycle is orthogonal to C K_k, hence minimal
Minimal == ~Final \/ \A k \in 1..Len(vbasis) : Dot(vr, vbasis[k].p) = Zero
MonotoneP == [][LePos(Norm2(vr'), Norm2(vr))]_vars
FullCycleSolves == (vits = Len(Sb[vsys]) /\ Len(vbasis) = vits) => IsZeroVec(vr) \/ vout /= "return" \/ Met(Norm2(vr), vr0)
Terminates == <>(vout /= "run")

----------------------------------------------------------------------------
\* Every finished behaviour is written out to be replayed on the code.
Record == [sys |-> vsys, max |-> vmax, restart |-> vrst, rtol |-> vrtol, atol |-> vatol,
           out |-> vout, its |-> vits, x |-> vx, hist |-> vhist]
\* registers: 1 the list of finished behaviours (one worker)
Collect == (Final /\ vout /= "cut") => TLCSet(1, Append(TLCGet(1), Record))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, [systems |-> Systems, runs |-> TLCGet(1)])
=============================================================================
