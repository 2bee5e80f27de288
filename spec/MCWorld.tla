------------------------------- MODULE MCWorld --------------------------------
(* A mesh spread over several processes: each of them has a part of every      *)
(* integral, in any proportion and arriving in any order; what is reported is  *)
(* of the whole, the same on all processes.  The parts are in quarters.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Sizes
Whole == <<16, 36, 4>>      \* the squares that are integrated, one after the other
Steps == DOMAIN Whole
Splits(n) == {s \in [1..n -> 0..4] : FoldSeq(LAMBDA a, b : a + b, 0, s) = 4}
VARIABLES wsize, wsplit, wat, wtotal
vars == <<wsize, wsplit, wat, wtotal>>
Procs == 1..wsize
Part(k, p) == (Whole[k] * wsplit[k][p]) \div 4
Sum(f, S) == FoldSet(LAMBDA p, a : f[p] + a, 0, S)
Init == /\ wsize \in Sizes
        /\ wsplit \in [Steps -> Splits(wsize)]
        /\ wat = [p \in Procs |-> 0]
        /\ wtotal = [k \in Steps |-> -1]
\* a process hands in its part of the next integral; the last one to do so completes it
Contribute(p) ==
  /\ wat[p] < Len(Whole)
  /\ \A k \in 1..wat[p] : wtotal[k] >= 0       \* it waits for the sum before it goes on
  /\ wat' = [wat EXCEPT ![p] = @ + 1]
  /\ wtotal' = IF \A r \in Procs : wat'[r] >= wat'[p]
               THEN [wtotal EXCEPT ![wat'[p]] = Sum([r \in Procs |-> Part(wat'[p], r)], Procs)] ELSE wtotal
  /\ UNCHANGED <<wsize, wsplit>>
Next == \E p \in Procs : Contribute(p)
Spec == Init /\ [][Next]_vars
Done == \A p \in Procs : wat[p] = Len(Whole)
Summed == \A k \in Steps : wtotal[k] \in {-1, Whole[k]}
Ends == Done => \A k \in Steps : wtotal[k] = Whole[k]
NotStuck == Done \/ ENABLED Next
\* what other ways of putting the parts together would report: the largest of all steps
Largest == Max({Whole[k] : k \in Steps})
Locally(p) == Max({Part(k, p) : k \in Steps})
Wrong == [local |-> \E p \in Procs : Locally(p) # Largest,
          largestPart |-> Max({Part(k, p) : k \in Steps, p \in Procs}) # Largest,
          largestFirst |-> Sum([p \in Procs |-> Locally(p)], Procs) # Largest]
Tells == Wrong.local /\ Wrong.largestPart /\ Wrong.largestFirst
Collect == (Done /\ Tells) => TLCSet(1, TLCGet(1) \cup {[size |-> wsize, split |-> wsplit]})
ASSUME TLCSet(1, {})
Post == /\ {x.size : x \in TLCGet(1)} = Sizes
        /\ JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
===============================================================================
