---------------------------- MODULE PipelineTrace -----------------------------
(* Recorded solves: a sequence of                                              *)
(*   [ev |-> "problem", name]                                                  *)
(*   [ev |-> "solve", config, data, residual, difference, kept]                *)
(*      residual, difference: digits gained in the preconditioned residual and *)
(*      agreed with the direct solution; kept: the right-hand side is unchanged*)
(*   [ev |-> "level", errors]  measured errors in units of 1e-6 of the first   *)
(*      level's, one per norm, for mesh and time steps refined together        *)
(*   [ev |-> "apply", what, digits, kept]  one use of an adapter, which is kept*)
(*      for many: digits agreed with the assembled matrix (or its solution)    *)
(*   [ev |-> "failed", config, why]                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Residual, Difference, Gain
Log == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES ve, vlevel, vbad
vars == <<ve, vlevel, vbad>>
Init == ve = 1 /\ vlevel = <<>> /\ vbad = "none"
Ev == Log[ve]
\* the coarse correction amplifies: digits in its own norm are fewer in that of the marching
Slack == IF Ev.config.pre = "twolevel" THEN 2 ELSE 0
Verdict ==
  CASE Ev.ev = "problem" -> "ok"
    [] Ev.ev = "solve" ->
         IF ~Ev.kept THEN "the right-hand side was modified"
         ELSE IF Ev.residual < Residual - Slack THEN "the solution does not solve the assembled system"
         ELSE IF Ev.difference < Difference - Slack THEN "the solution differs from that of the direct solver"
         ELSE "ok"
    [] Ev.ev = "apply" ->
         IF ~Ev.kept THEN "an adapter modified its input"
         ELSE IF Ev.digits < 8 THEN "an adapter gives another result than the assembled matrix"
         ELSE "ok"
    [] Ev.ev = "level" ->
         IF vlevel # <<>> /\ \E i \in 1..Len(vlevel) : 100 * (Ev.errors[i] \div 100) > Gain * (vlevel[i] \div 100) THEN "an error does not decrease under refinement"
         ELSE "ok"
    [] Ev.ev = "failed" -> "a solve failed"
    [] OTHER -> "unknown event"
Next == /\ vbad = "none" /\ ve <= Len(Log)
        /\ vbad' = IF Verdict = "ok" THEN "none" ELSE Verdict
        /\ ve' = IF Verdict = "ok" THEN ve + 1 ELSE ve
        /\ vlevel' = IF Ev.ev = "problem" THEN <<>> ELSE IF Ev.ev = "level" THEN Ev.errors ELSE vlevel
Spec == Init /\ [][Next]_vars
Note == TLCSet(1, [event |-> ve, bad |-> vbad, accepted |-> ve > Len(Log) /\ vbad = "none"])
ASSUME TLCSet(1, [bad |-> "not started"])
EmitVerdict == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
