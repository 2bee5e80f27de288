------------------------------ MODULE MCAdapters ------------------------------
(* Adapters around direct solvers: each solves with the matrix it was made     *)
(* for, whichever adapters were made or used in between, and writes only the   *)
(* result; conversions give the entries a matrix has at that time.  Matrices   *)
(* get new entries in place or are replaced by new objects.                    *)
(* Behaviours of Steps steps that end with something to compare.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Steps, MaxAdapters
Mats == {"A", "B"}
VARIABLES vmats, vsteps, vlast, vobj, vver
vars == <<vmats, vsteps, vlast, vobj, vver>>
\* matrix m: which object it is now, and how often the entries of each of its objects were changed
Init == /\ vmats = <<>> /\ vsteps = <<>> /\ vlast = <<>>
        /\ vobj = [m \in Mats |-> 1] /\ vver = [m \in Mats |-> <<0>>]
Now(m) == [mat |-> m, obj |-> vobj[m], ver |-> vver[m][vobj[m]]]
Make(m) == /\ Len(vmats) < MaxAdapters /\ vmats' = Append(vmats, Now(m))
           /\ vsteps' = Append(vsteps, [do |-> "make", of |-> Now(m), adapter |-> Len(vmats) + 1, rhs |-> 0])
           /\ vlast' = <<>> /\ UNCHANGED <<vobj, vver>>
\* nothing is said about an adapter whose matrix has other entries by now
Valid(a) == vver[a.mat][a.obj] = a.ver
Use(s, r) == /\ Valid(vmats[s])
             /\ vsteps' = Append(vsteps, [do |-> "solve", of |-> vmats[s], adapter |-> s, rhs |-> r])
             /\ vlast' = <<vmats[s], r>> /\ UNCHANGED <<vmats, vobj, vver>>
Convert(m) == /\ vsteps' = Append(vsteps, [do |-> "convert", of |-> Now(m), adapter |-> 0, rhs |-> 0])
              /\ vlast' = <<Now(m), 0>> /\ UNCHANGED <<vmats, vobj, vver>>
Change(m) == /\ vver[m][vobj[m]] = 0
             /\ vver' = [vver EXCEPT ![m] = [@ EXCEPT ![vobj[m]] = @ + 1]]
             /\ vsteps' = Append(vsteps, [do |-> "change", of |-> Now(m), adapter |-> 0, rhs |-> 0])
             /\ vlast' = <<>> /\ UNCHANGED <<vmats, vobj>>
Renew(m) == /\ vobj[m] = 1
            /\ vobj' = [vobj EXCEPT ![m] = @ + 1] /\ vver' = [vver EXCEPT ![m] = Append(@, 0)]
            /\ vsteps' = Append(vsteps, [do |-> "renew", of |-> Now(m), adapter |-> 0, rhs |-> 0])
            /\ vlast' = <<>> /\ UNCHANGED vmats
Next == /\ Len(vsteps) < Steps
        /\ \/ \E m \in Mats : Make(m) \/ Convert(m) \/ Change(m) \/ Renew(m)
           \/ \E s \in 1..Len(vmats), r \in 1..2 : Use(s, r)
Spec == Init /\ [][Next]_vars
\* the answer is to the matrix the adapter was made for
Own == vlast # <<>> /\ vsteps[Len(vsteps)].do = "solve" => vlast[1] = vmats[vsteps[Len(vsteps)].adapter]
Current == vlast # <<>> /\ vsteps[Len(vsteps)].do = "convert" => vlast[1] = Now(vlast[1].mat)
Permanent == [][\A s \in 1..Len(vmats) : vmats'[s] = vmats[s]]_vars
Collect == (Len(vsteps) = Steps /\ vlast # <<>>) => TLCSet(1, Append(TLCGet(1), vsteps))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
