-------------------------------- MODULE MCLife --------------------------------
(* The life of a solver object after its spaces are set up: what is built      *)
(* lazily, what is kept, and what each public call needs and hands out.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Jumps

Builders == {"slabjump", "slabplain", "coupling", "mass", "rhs", "coarse", "solvers", "coarsesolver"}
Kinds == {"none", "plain", "precond"}
\* what a call needs before it may be made, by the documentation of the object
Prepared == {"slabjump", "slabplain", "coupling", "mass", "rhs"}
Needs == [ matrix |-> {}, matrixpre |-> {}, form |-> {}, formpre |-> {},
           slab |-> {}, slabform |-> {}, first |-> {"slabjump", "slabplain"}, firstform |-> {"slabjump", "slabplain"},
           rhs |-> {}, linearform |-> {}, setuprhs |-> {}, prepare |-> {}, preparecoarse |-> {},
           coarse |-> {"coarse"}, setsolvers |-> {}, setcoarsesolver |-> {"coarse"},
           apply |-> Prepared, marchref |-> Prepared \union {"solvers"}, marchimp |-> Prepared \union {"solvers"},
           transfer |-> {"coarse"}, twolevel |-> Prepared \union {"coarse", "solvers", "coarsesolver"},
           errors |-> {}, paraview |-> {}, plot |-> {}, ploterror |-> {} ]
Calls == DOMAIN Needs
Builds == [ slab |-> {"slabjump", "slabplain"}, slabform |-> {"slabjump", "slabplain"}, rhs |-> {"rhs"}, linearform |-> {"rhs"},
            setuprhs |-> {"rhs"}, prepare |-> Prepared, preparecoarse |-> {"coarse", "rhs"}, setsolvers |-> {"solvers"},
            setcoarsesolver |-> {"coarsesolver"} ]
\* which space-time matrix is kept after a call
Keeps == [ matrix |-> "plain", form |-> "plain", matrixpre |-> "precond", formpre |-> "precond" ]
\* what is handed out: always what was asked for
Asked == [ matrix |-> <<"space-time matrix", "plain">>, matrixpre |-> <<"space-time matrix", "precond">>,
           form |-> <<"space-time form", "plain">>, formpre |-> <<"space-time form", "precond">> ]

VARIABLES vkind, vhave, vout
vars == <<vkind, vhave, vout>>
Init == vkind = "none" /\ vhave = {} /\ vout = <<"nothing", "none">>

Enabled(call, have) == Needs[call] \subseteq have /\ ~(Jumps /\ call = "marchimp")
HaveAfter(call, have) == have \union (IF call \in DOMAIN Builds THEN Builds[call] ELSE {})
\* a getter builds what it does not have of the kind it was asked for; applying the operator with forward jumps asks for the plain one
KindAfter(call, kind) == IF call \in DOMAIN Keeps THEN Keeps[call]
                         ELSE IF Jumps /\ call \in {"apply", "twolevel"} THEN "plain" ELSE kind
Do(call) == /\ Enabled(call, vhave)
            /\ vkind' = KindAfter(call, vkind) /\ vhave' = HaveAfter(call, vhave)
            /\ vout' = IF call \in DOMAIN Keeps THEN <<Asked[call][1], vkind'>> ELSE <<"other", "none">>
Next == \E call \in Calls : Do(call)
Spec == Init /\ [][Next]_vars

\* a form or matrix handed out is of the kind that is kept, which is the kind that was asked for
HandsOutWhatIsKept == vout[1] \in {"space-time matrix", "space-time form"} => vout[2] = vkind
KeepsOneKind == vkind \in Kinds
HasOnlyBuildable == vhave \subseteq Builders
\* nothing that was available is lost, and after the preparation calls in any order everything runs
Monotone == [][vhave \subseteq vhave']_vars
AllPrepared == (Prepared \union {"coarse", "solvers", "coarsesolver"}) \subseteq vhave
                 => \A call \in Calls : Enabled(call, vhave) \/ (Jumps /\ call = "marchimp")

Collect == TLCSet(1, TLCGet(1) \union {[kind |-> vkind, have |-> vhave,
   next |-> {<<call, KindAfter(call, vkind), HaveAfter(call, vhave)>> : call \in {x \in Calls : Enabled(x, vhave)}}]})
ASSUME TLCSet(1, {})
EmitAll == JsonSerialize(IOEnv.OUT, [states |-> TLCGet(1)])
=============================================================================
