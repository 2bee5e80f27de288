------------------------------- MODULE MCLayout -------------------------------
(* Unknowns are numbered per component, slab by slab and node by node; the    *)
(* space of one slab numbers the nodes of that slab only.  One step hands     *)
(* out the next unknown.  The gather/scatter of a slab and of the coupling    *)
(* are the maps between the two.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Qs, Ns
VARIABLES vq, vqs, vN, vcomp, vslab, vnode, vlist
vars == <<vq, vqs, vN, vcomp, vslab, vnode, vlist>>

Deg(comp) == IF comp <= 2 THEN vq ELSE vqs
Place(comp, slab, node) == [comp |-> comp, slab |-> slab, node |-> node, sub |-> slab * (Deg(comp) + 1) + node]

Init == /\ vq \in Qs /\ vqs \in Qs /\ vN \in Ns
        /\ vcomp = 1 /\ vslab = 0 /\ vnode = 0 /\ vlist = <<>>
Next == /\ vcomp <= 4
        /\ vlist' = Append(vlist, Place(vcomp, vslab, vnode))
        /\ IF vnode < Deg(vcomp) THEN vnode' = vnode + 1 /\ UNCHANGED <<vslab, vcomp>>
           ELSE IF vslab < vN - 1 THEN vnode' = 0 /\ vslab' = vslab + 1 /\ UNCHANGED vcomp
           ELSE vnode' = 0 /\ vslab' = 0 /\ vcomp' = vcomp + 1
        /\ UNCHANGED <<vq, vqs, vN>>
Spec == Init /\ [][Next]_vars

Done == vcomp = 5
Of(comp) == {i \in 1..Len(vlist) : vlist[i].comp = comp}
\* sub-elements are used in order, each once
InOrder == \A i \in 1..Len(vlist) : vlist[i].sub = Cardinality({j \in 1..(i - 1) : vlist[j].comp = vlist[i].comp})
Complete == Done => /\ Len(vlist) = vN * 2 * (vq + 1 + vqs + 1)
                    /\ \A comp \in 1..4 : {vlist[i].sub : i \in Of(comp)} = 0..(vN * (Deg(comp) + 1) - 1)
OneToOne == \A i, j \in 1..Len(vlist) : (vlist[i].comp = vlist[j].comp /\ vlist[i].sub = vlist[j].sub) => i = j
\* end of a slab and start of the next are neighbours
EndsMeet == \A i \in 1..Len(vlist) : vlist[i].node = Deg(vlist[i].comp) /\ i < Len(vlist) /\ vlist[i + 1].comp = vlist[i].comp
                => vlist[i + 1].node = 0 /\ vlist[i + 1].slab = vlist[i].slab + 1
\* what processing one slab may touch: its own unknowns, and through the coupling of a primal component the end of the
\* slab before and the start of the next
Touches(u, w) == \/ u.slab = w.slab
                 \/ u.comp = w.comp /\ u.comp <= 2 /\ u.slab + 1 = w.slab /\ u.node = Deg(u.comp) /\ w.node = 0
                 \/ u.comp = w.comp /\ u.comp <= 2 /\ w.slab + 1 = u.slab /\ w.node = Deg(w.comp) /\ u.node = 0
Reach == [i \in 1..Len(vlist) |-> {j \in 1..Len(vlist) : Touches(vlist[i], vlist[j])}]
TouchIsMutual == Done => \A i, j \in 1..Len(vlist) : Touches(vlist[i], vlist[j]) = Touches(vlist[j], vlist[i])
\* what marching carries into a slab comes from the last primal nodes of the one before, into its first primal nodes
Carried == {i \in 1..Len(vlist) : vlist[i].comp <= 2 /\ vlist[i].node = 0 /\ vlist[i].slab > 0}
CarriedIsReached == Done => \A i \in Carried : \E j \in Reach[i] : vlist[j].slab = vlist[i].slab - 1 /\ vlist[j].node = vq
Collect == Done => TLCSet(1, Append(TLCGet(1),
   [q |-> vq, qs |-> vqs, N |-> vN, unknowns |-> vlist, reach |-> Reach, carried |-> Carried]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
