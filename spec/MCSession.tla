------------------------------ MODULE MCSession -------------------------------
(* Histories of generator calls of the three kinds on several processes, with  *)
(* and without a fault in one of the calls; some faults are the last process's.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxCalls, Size
World == 0..(Size - 1)
Final == Size - 1
Kinds == {"exchange", "direct", "volume"}
Faults == {"none", "left open", "rank left open", "rank writes", "not written", "read early", "closed early", "alone"}
S(a) == <<[do |-> a]>>
F(a, f) == <<[do |-> a, f |-> f]>>
If(c, x) == IF c THEN x ELSE <<>>
\* the steps of one call on process p
Exchange(p, fault) ==
  S("init") \o If(fault = "read early", F("open", "xdmf") \o F("read", "xdmf") \o F("close", "xdmf"))
  \o If(fault = "closed early", S("finalize") \o S("init") \o S("finalize"))
  \o If(p = 0, S("use") \o F("put", "msh"))
  \o If(~(fault = "left open" \/ (fault = "rank left open" /\ p = Final) \/ fault = "closed early"), S("finalize"))
  \o If(p = 0 \/ (fault = "rank writes" /\ p = Final), If(fault # "not written", F("get", "msh") \o F("put", "xdmf") \o F("put", "mt")))
  \o F("open", "xdmf") \o F("read", "xdmf") \o F("close", "xdmf")
  \o If(fault # "alone" \/ p # Final, F("open", "mt") \o F("read", "mt") \o F("close", "mt"))
Direct(p, fault) ==
  S("init") \o If(fault = "closed early", S("finalize")) \o If(p = 0, S("use") \o F("put", "msh")) \o S("use")
  \o If(fault = "read early", F("open", "xdmf"))
  \o If(~(fault = "left open" \/ (fault = "rank left open" /\ p = Final) \/ fault = "closed early"), S("finalize"))
  \o If(fault = "rank writes" /\ p = Final, F("put", "xdmf")) \o If(fault = "not written", F("get", "mt"))
  \o S("create") \o If(fault # "alone" \/ p # Final, F("openw", "xdmf") \o F("change", "xdmf") \o F("close", "xdmf"))
Volume(p, fault) ==
  S("init") \o If(fault = "closed early", S("finalize")) \o S("use") \o If(fault = "read early", F("open", "xdmf"))
  \o If(fault # "alone" \/ p # Final, S("create")) \o If(fault = "rank writes" /\ p = Final, F("put", "xdmf"))
  \o If(fault = "not written", F("get", "mt"))
  \o If(~(fault = "left open" \/ (fault = "rank left open" /\ p = Final) \/ fault = "closed early"), S("finalize"))
CallOf(p, n, kind, fault) ==
  <<[do |-> "call", n |-> n]>>
  \o (CASE kind = "exchange" -> Exchange(p, fault) [] kind = "direct" -> Direct(p, fault) [] OTHER -> Volume(p, fault))
  \o <<[do |-> "return", n |-> n]>>
Histories == UNION {[1..n -> Kinds] : n \in 1..MaxCalls}
ProgramOf(h, where, fault) == [p \in World |-> FlattenSeq([n \in DOMAIN h |-> CallOf(p, n, h[n], IF n = where THEN fault ELSE "none")])]
VARIABLES pc, session, call, written, held, bad, history, fault, prog
I == INSTANCE Session WITH Procs <- World, Files <- {"msh", "xdmf", "mt"}
vars == <<prog, pc, session, call, written, held, bad, history, fault>>
Init == /\ history \in Histories
        /\ \E at \in DOMAIN history : \E x \in Faults :
              /\ (x = "none" => at = 1)
              /\ fault = x
              /\ prog = ProgramOf(history, at, x)
        /\ I!Init
Next == I!Next /\ UNCHANGED <<history, fault>>
Spec == Init /\ [][Next]_vars
\* without a fault nothing goes wrong, on any schedule
WithoutFault == fault = "none" => I!Fine
\* with one, no schedule ends well
WithFault == fault # "none" => (I!Done => bad # "none" \/ \E f \in {"msh", "xdmf", "mt"} : held[f])
Collect == I!Done /\ fault = "none" => TLCSet(1, TLCGet(1) \cup {history})
ASSUME TLCSet(1, {})
EmitAll == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
===============================================================================
