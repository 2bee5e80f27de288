---------------------------- MODULE MCGmresLarge ----------------------------
(* Three families of systems whose residual norms are known in closed form:  *)
(*  shift: A = cyclic shift of n unknowns, b = first unit vector.  The       *)
(*         residual stays at its initial norm until a cycle has n steps.     *)
(*  two:   A = diag(1, 1 + m 10^-e), b = 10^-s (1, 1).  One step leaves the  *)
(*         relative residual m/2 10^-e, two steps leave none.                *)
(*  spiral: A = blocks [[1, a], [-a, 1]] with a^2/(1+a^2) = 10^(-2/d), so    *)
(*         that a cycle of one step takes a residual of norm 1 to 10^(-1/d). *)
(*         The tolerance lies half way between m and m + 1 such steps; two   *)
(*         steps in one cycle leave none.                                    *)
(* They are large enough for the limits that apply when the caller gives     *)
(* none (100 iterations, 1e-7 relative, 1e-12 absolute).                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Ns, Spirals, Steps, Rates
DefaultMax == 100
DefaultRestart == 1000

VARIABLES vfam, vn, vmax, vrst, vm, ve, vs, vits, vk, vlev, vout
vars == <<vfam, vn, vmax, vrst, vm, ve, vs, vits, vk, vlev, vout>>

\* magnitudes mant * 10^-exp (mantissa in hundredths), compared within the 32-bit range
P10(k) == LET F[i \in Nat] == IF i = 0 THEN 1 ELSE 10 * F[i - 1] IN F[k]
\* x <= y : bring the one with the smaller exponent down
MagLe(x, y) == IF x[1] = 0 THEN TRUE
               ELSE IF x[2] >= y[2] THEN (x[2] - y[2] > 5) \/ (x[1] <= y[1] * P10(x[2] - y[2]))
               ELSE ~(y[2] - x[2] > 5) /\ (x[1] * P10(y[2] - x[2]) <= y[1])
\* residual levels of the family "two"
Level(l) == CASE l = 0 -> <<141, vs>> [] l = 1 -> <<(141 * vm) \div 2, vs + ve>> [] OTHER -> <<0, 0>>
Gone == 100000
Met == IF vfam = "shift" THEN vlev' = 2
       ELSE IF vfam = "spiral" THEN vlev' > vm
       ELSE MagLe(Level(vlev'), <<141, vs + 7>>) \/ MagLe(Level(vlev'), <<100, 12>>)
MaxOf == IF vmax = 0 THEN DefaultMax ELSE vmax
RestartOf == IF vrst = 0 THEN DefaultRestart ELSE vrst

InitShift == /\ vfam = "shift" /\ vn \in Ns
             /\ vmax \in {0, vn - 1, vn, vn + 1, 2 * vn + 3} \ {-1}
             /\ vrst \in {0, vn - 1, vn, vn + 1, 7}
             /\ (vmax = 0 => vn <= 101)
             /\ vm = 0 /\ ve = 0 /\ vs = 0
InitTwo == /\ vfam = "two" /\ vn = 2 /\ vmax \in {0, 1} /\ vrst = 0
           /\ vm \in {1, 4} /\ ve \in 5..8 /\ vs \in {0, 2, 5, 6, 9, 12, 13}
InitSpiral == /\ vfam = "spiral" /\ vn \in Spirals /\ vm \in Steps /\ ve \in Rates /\ vm <= 8 * ve
              /\ vmax \in {0, vm, vm + 1, vm + 2, 5000} /\ vrst \in {0, 1, 2, 3} /\ vs = 0
Init == /\ InitShift \/ InitTwo \/ InitSpiral
        /\ vits = -1 /\ vk = 0 /\ vlev = 0 /\ vout = "run"

Judge == vout' = IF Met THEN "return" ELSE IF vits' = MaxOf THEN "raise" ELSE "run"
Begin == /\ vits = -1 /\ vits' = 0 /\ vlev' = 0 /\ vk' = 0 /\ Judge
Iterate == /\ vits >= 0 /\ vout = "run"
           /\ vits' = vits + 1
           /\ vk' = IF vk = RestartOf THEN 1 ELSE vk + 1
           /\ vlev' = CASE vfam = "two" -> vlev + 1
                        [] vfam = "spiral" -> IF vk' = 2 THEN Gone ELSE vlev + 1
                        [] OTHER -> IF vk' = vn THEN 2 ELSE 0
           /\ Judge
Next == (Begin \/ Iterate) /\ UNCHANGED <<vfam, vn, vmax, vrst, vm, ve, vs>>
Spec == Init /\ [][Next]_vars

InTime == vits <= MaxOf
ReturnedMeans == vout = "return" =>
   \/ vfam = "shift" /\ vits % RestartOf <= vits /\ vk = vn /\ RestartOf >= vn /\ vits = vn
   \/ vfam = "two"
   \/ vfam = "spiral" /\ (IF RestartOf = 1 \/ vm = 0 THEN vits = vm + 1 ELSE vits = 2)
StagnationRaises == (vfam = "shift" /\ RestartOf < vn) => vout /= "return"
Collect == vout /= "run" =>
  TLCSet(1, Append(TLCGet(1), [fam |-> vfam, n |-> vn, max |-> vmax, restart |-> vrst, m |-> vm, e |-> ve, s |-> vs,
                               out |-> vout, its |-> vits]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
