----------------------------- MODULE SessionTrace -----------------------------
(* The programs processes were seen to run, one after the other: all ways of   *)
(* interleaving them have to be fine.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == TLCEval(JsonDeserialize(IOEnv.TRACE))
World == 0..(Len(Log) - 1)
AllFiles == TLCEval(UNION {{Log[p][i].f : i \in {j \in DOMAIN Log[p] : "f" \in DOMAIN Log[p][j]}} : p \in DOMAIN Log})
VARIABLES prog, pc, session, call, written, held, bad
I == INSTANCE Session WITH Procs <- World, Files <- AllFiles
vars == <<prog, pc, session, call, written, held, bad>>
Spec == (I!Init /\ prog = [p \in World |-> Log[p + 1]]) /\ [][I!Next /\ bad = "none"]_vars
Where == [p \in DOMAIN Log |-> IF pc[p - 1] <= Len(Log[p]) THEN Log[p][pc[p - 1]] ELSE [do |-> "end"]]
Worst == IF bad # "none" THEN bad ELSE IF I!Stuck THEN "the processes wait for each other" ELSE IF ~I!Fine THEN "a file is left open" ELSE "none"
Note == /\ (Worst # "none" => TLCSet(1, [bad |-> Worst, at |-> Where, calls |-> call, accepted |-> FALSE]))
        /\ (I!Done /\ TLCGet(1).bad = "not finished" => TLCSet(1, [bad |-> "none", accepted |-> TRUE]))
ASSUME TLCSet(1, [bad |-> "not finished", accepted |-> FALSE])
EmitVerdict == JsonSerialize(IOEnv.OUT, TLCGet(1))
===============================================================================
