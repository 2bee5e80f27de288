------------------------------- MODULE Setups --------------------------------
(* Total times and stabilisation parameters of the problems that are looked    *)
(* at; read from a file, so that the harness makes its problems with the same. *)
(*   [T |-> rational, g |-> <<data, dual, primal, primal-jump>>]               *)
EXTENDS Rat, TLC, Json, IOUtils
Setups == TLCEval(JsonDeserialize(IOEnv.SETUPS))
TotalOf(s) == Setups[s].T
DataOf(s) == Setups[s].g[1]
DualOf(s) == Setups[s].g[2]
PrimalOf(s) == Setups[s].g[3]
JumpOf(s) == Setups[s].g[4]
ASSUME \A s \in DOMAIN Setups : Setups[s].T[1] > 0 /\ \A v \in {Setups[s].T, Setups[s].g[1], Setups[s].g[2], Setups[s].g[3], Setups[s].g[4]} :
          v[2] > 0 /\ v[1] > 0 /\ R(v[1], v[2]) = v
===============================================================================
