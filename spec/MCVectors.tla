------------------------------ MODULE MCVectors -------------------------------
(* Callers keep their vectors: one and the same vector object is written to,   *)
(* handed to an operation, written to again in place -- also such that its     *)
(* norm stays what it was -- and handed over again; results are fed back in.   *)
(* A content is the sequence of what was done to a starting vector.  Every     *)
(* operation is a function of the content of its input at the time of the      *)
(* call, writes its whole output and nothing else.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Part, Steps

Square(kinds) == {<<k, d[1], d[2]>> : k \in kinds, d \in {<<1, 2>>, <<2, 1>>}}
\* operations with the objects they go from and to
Moves == CASE Part = "operator" -> Square({"apply", "wrapped"})
           [] Part = "marching" -> Square({"reference", "improved", "wrapped"})
           [] Part = "twolevel" -> Square({"correct", "twolevel"})
           [] Part = "transfer" -> {<<"prolong", 1, 2>>, <<"restrict", 2, 1>>}   \* 1 on the coarse grid, 2 on the fine one
           [] Part = "solver" -> Square({"solve"})
\* what is done to the input before the call; the first four keep the norm.
\* "broken" is a vector of NaN: nothing is said of its results, but they must be gone with the next content
Writes == {"nothing", "negate", "turn", "other", "shrink", "zero", "broken"}

VARIABLES vcont, vhist, vseen
vars == <<vcont, vhist, vseen>>
Init == /\ vcont = [o \in {1, 2} |-> <<"start">>]
        /\ vhist = <<>>
        /\ vseen = {}        \* <<operation, content of its input, content of its output>>
Written(c, w) == IF w = "nothing" THEN c ELSE IF w \in {"other", "zero", "broken"} THEN <<w>> ELSE Append(c, w)
Step(w, m) == LET c == Written(vcont[m[2]], w) r == Append(c, m[1])
              IN /\ vcont' = [vcont EXCEPT ![m[2]] = c, ![m[3]] = r]
                 /\ vhist' = Append(vhist, [write |-> w, kind |-> m[1], from |-> m[2], to |-> m[3], input |-> c, output |-> r])
                 /\ vseen' = vseen \cup {<<m[1], c, r>>}
Next == Len(vhist) < Steps /\ \E w \in Writes, m \in Moves : Step(w, m)
Spec == Init /\ [][Next]_vars

\* same operation, same content: same result, whichever objects and whatever came before
Function == \A s, t \in vseen : s[1] = t[1] /\ s[2] = t[2] => s[3] = t[3]
\* broken data do not outlive the content they came with
Broken(c) == c[1] = "broken"
Clean == \A s \in vseen : Broken(s[3]) <=> Broken(s[2])
\* the objects hold what the history says, nothing in between has changed them
Held == \A o \in {1, 2} : LET I == {i \in DOMAIN vhist : vhist[i].to = o \/ vhist[i].from = o} IN
           IF I = {} THEN vcont[o] = <<"start">>
           ELSE LET i == CHOOSE i \in I : \A j \in I : j <= i
                IN vcont[o] = IF vhist[i].to = o THEN vhist[i].output ELSE vhist[i].input
\* a history tells a result kept for an object (or for a norm) from one for a content
Telling == {h \in {vhist} : \E i, j \in DOMAIN h : i < j /\ h[i].kind = h[j].kind /\ h[i].from = h[j].from /\ h[i].input # h[j].input}
Collect == (Len(vhist) = Steps) => TLCSet(1, Append(TLCGet(1), [steps |-> vhist, telling |-> Telling # {}]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
Some == \E i \in DOMAIN TLCGet(1) : TLCGet(1)[i].telling
Post == Some /\ EmitAll
===============================================================================
