------------------------------- MODULE Session --------------------------------
(* Mesh generation on several processes: sessions of the mesh generator, which *)
(* are local, and files, which the first process writes and all read together. *)
(* A process runs a program, a sequence of steps                               *)
(*   call n, return n       the n-th generator call of the history             *)
(*   result n same          its mesh, the same as in a process of its own?     *)
(*   init, finalize, use    of the session                                     *)
(*   put f, get f           files written and read by one process              *)
(*   open f, read f, change f, close f, create       by all processes together *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Files
VARIABLES prog, pc, session, call, written, held, bad   \* prog: the program of every process
vars == <<prog, pc, session, call, written, held, bad>>
Program(p) == prog[p]
Together == {"open", "openw", "read", "change", "close", "create"}
Init == /\ pc = [p \in Procs |-> 1]
        /\ session = [p \in Procs |-> FALSE]
        /\ call = [p \in Procs |-> 0]
        /\ written = [f \in Files |-> 0]   \* the call in which a file was written
        /\ held = [f \in Files |-> FALSE]
        /\ bad = "none"
More(p) == pc[p] <= Len(Program(p))
Step(p) == Program(p)[pc[p]]
Worse(x) == bad' = IF bad = "none" THEN x ELSE bad
Same == UNCHANGED bad
Local(p) ==
  /\ More(p) /\ Step(p).do \notin Together
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ LET s == Step(p) IN
     CASE s.do = "call" -> /\ call' = [call EXCEPT ![p] = s.n]
                           /\ (IF session[p] THEN Worse("a call with a session left open") ELSE Same)
                           /\ UNCHANGED <<session, written, held>>
       [] s.do = "return" -> /\ (IF session[p] THEN Worse("the session is left open") ELSE Same)
                             /\ UNCHANGED <<session, call, written, held>>
       [] s.do = "result" -> /\ (IF ~s.same THEN Worse("the mesh depends on earlier calls") ELSE Same)
                             /\ UNCHANGED <<session, call, written, held>>
       [] s.do = "failed" -> /\ Worse("the call failed") /\ UNCHANGED <<session, call, written, held>>
       [] s.do = "init" -> /\ (IF session[p] THEN Worse("a session inside another") ELSE Same)
                           /\ session' = [session EXCEPT ![p] = TRUE]
                           /\ UNCHANGED <<call, written, held>>
       [] s.do = "finalize" -> /\ (IF ~session[p] THEN Worse("no session to close") ELSE Same)
                               /\ session' = [session EXCEPT ![p] = FALSE]
                               /\ UNCHANGED <<call, written, held>>
       [] s.do = "use" -> /\ (IF ~session[p] THEN Worse("used without a session") ELSE Same)
                          /\ UNCHANGED <<session, call, written, held>>
       [] s.do = "put" -> /\ (IF p # 0 THEN Worse("a file written by another than the first process")
                              ELSE IF held[s.f] THEN Worse("a file written while it is read") ELSE Same)
                          /\ written' = [written EXCEPT ![s.f] = call[p]]
                          /\ UNCHANGED <<session, call, held>>
       [] s.do = "get" -> /\ (IF written[s.f] # call[p] THEN Worse("a file read before it was written in this call") ELSE Same)
                          /\ UNCHANGED <<session, call, written, held>>
Jointly ==
  /\ \A p \in Procs : More(p) /\ Step(p) = Step(0)
  /\ Step(0).do \in Together
  /\ pc' = [p \in Procs |-> pc[p] + 1]
  /\ LET s == Step(0) IN
     CASE s.do = "open" -> /\ (IF written[s.f] # call[0] THEN Worse("a file opened before it was written in this call") ELSE Same)
                           /\ held' = [held EXCEPT ![s.f] = TRUE]
                           /\ UNCHANGED <<session, call, written>>
       [] s.do = "openw" -> /\ written' = [written EXCEPT ![s.f] = call[0]]
                            /\ held' = [held EXCEPT ![s.f] = TRUE]
                            /\ Same /\ UNCHANGED <<session, call>>
       [] s.do \in {"read", "change"} -> /\ (IF ~held[s.f] THEN Worse("a file used that is not open") ELSE Same)
                                         /\ UNCHANGED <<session, call, written, held>>
       [] s.do = "close" -> /\ held' = [held EXCEPT ![s.f] = FALSE]
                            /\ Same /\ UNCHANGED <<session, call, written>>
       [] s.do = "create" -> Same /\ UNCHANGED <<session, call, written, held>>
Next == (Jointly \/ \E p \in Procs : Local(p)) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
Done == \A p \in Procs : ~More(p)
Stuck == ~Done /\ ~ENABLED Next
\* what is wanted of every history, on every schedule
Fine == /\ bad = "none"
        /\ ~Stuck
        /\ (Done => \A f \in Files : ~held[f])
===============================================================================
