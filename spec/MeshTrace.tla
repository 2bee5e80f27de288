------------------------------ MODULE MeshTrace -------------------------------
(* Generated meshes, as a sequence of                                          *)
(*   [ev |-> "mesh", id, mesh, domain, boxes, disc, longest]                   *)
(*   [ev |-> "curved", of, mids, disc]     extra nodes of the mesh at place of *)
(*   [ev |-> "refined", old, new, from, parent]     old, new: places in the log*)
(*   [ev |-> "levels", got, want]                                              *)
(*   [ev |-> "finer", cells]     numbers of cells for decreasing size factors  *)
(*   [ev |-> "size", edge, longest, volume, of]     a mesh of many cells       *)
(*   [ev |-> "failed", why]                                                    *)
EXTENDS Mesh, TLC, Json, IOUtils
Log == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES at, bad
vars == <<at, bad>>
Init == at = 1 /\ bad = <<>>
Ev == Log[at]
MeshOf(e) ==
  LET t == Tiling(e.mesh, e.domain)
  IN IF t # "ok" THEN t
     ELSE IF \E i \in DOMAIN e.boxes : ~Fits(e.mesh, e.boxes[i]) THEN "the boundary of a region cuts through cells"
     ELSE IF e.disc > 0 /\ ~FitsDisc(e.mesh, e.disc) THEN "the boundary of the disc cuts through cells"
     ELSE IF ~NoLongerThan(e.mesh, e.longest) THEN "cells larger than the requested size"
     ELSE "ok"
Verdict ==
  CASE Ev.ev = "mesh" -> MeshOf(Ev)
    [] Ev.ev = "curved" -> IF Curved(Log[Ev.of].mesh, Ev.mids, Ev.disc) THEN "ok" ELSE "an extra node in the wrong place"
    [] Ev.ev = "refined" -> Refined(Log[Ev.old].mesh, Log[Ev.new].mesh, Ev.from, Ev.parent)
    [] Ev.ev = "levels" -> IF Ev.got = Ev.want THEN "ok" ELSE "wrong number of levels"
    [] Ev.ev = "finer" -> IF \A i \in 2..Len(Ev.cells) : Ev.cells[i - 1] < Ev.cells[i] THEN "ok" ELSE "a smaller size factor gives no finer mesh"
    [] Ev.ev = "size" -> IF Ev.edge > Ev.longest THEN "cells larger than the requested size"
                         ELSE IF 1000 * (IF Ev.volume > Ev.of THEN Ev.volume - Ev.of ELSE Ev.of - Ev.volume) > Ev.of THEN "the cells do not add up to the domain"
                         ELSE "ok"
    [] Ev.ev = "failed" -> "no mesh"
    [] OTHER -> "unknown event"
Next == /\ at <= Len(Log)
        /\ at' = at + 1
        /\ LET v == Verdict IN bad' = IF v = "ok" THEN bad ELSE Append(bad, [at |-> at, what |-> v])
Spec == Init /\ [][Next]_vars
Note == TLCSet(1, [accepted |-> at > Len(Log) /\ bad = <<>>, bad |-> bad, at |-> at])
ASSUME TLCSet(1, [bad |-> "not started"])
EmitVerdict == JsonSerialize(IOEnv.OUT, TLCGet(1))
===============================================================================
