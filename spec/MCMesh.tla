-------------------------------- MODULE MCMesh --------------------------------
(* Refinements of small meshes stay tilings of their domain that fit the same  *)
(* regions and are recognised as uniform refinements; every single fault put   *)
(* into one of them is rejected.                                               *)
EXTENDS Mesh, TLC, Json, IOUtils
CONSTANTS Depth
Square == [lo |-> <<0, 0>>, hi |-> <<8, 8>>]
Cube == [lo |-> <<0, 0, 0>>, hi |-> <<8, 8, 8>>]
Starts == {
  [pts |-> <<<<0, 0>>, <<8, 0>>, <<0, 8>>, <<8, 8>>>>, cells |-> <<<<1, 2, 4>>, <<1, 4, 3>>>>],
  [pts |-> <<<<0, 0>>, <<8, 0>>, <<0, 8>>, <<8, 8>>, <<4, 4>>>>, cells |-> <<<<1, 2, 5>>, <<2, 4, 5>>, <<4, 3, 5>>, <<5, 3, 1>>>>],
  [pts |-> <<<<0, 0, 0>>, <<8, 0, 0>>, <<0, 8, 0>>, <<8, 8, 0>>, <<0, 0, 8>>, <<8, 0, 8>>, <<0, 8, 8>>, <<8, 8, 8>>>>,
   cells |-> <<<<1, 2, 4, 8>>, <<1, 2, 8, 6>>, <<1, 6, 8, 5>>, <<1, 4, 3, 8>>, <<1, 7, 5, 8>>, <<1, 3, 7, 8>>>>]}
DomainOf(m) == IF Dim(m) = 2 THEN Square ELSE Cube
\* all that is needed to divide the cells of a mesh
Pairs(m) == SetToSeq({e \in EdgesOf(m) : Cardinality(e) = 2})
PlaceOf(m, ps, a, b) == Len(m.pts) + CHOOSE i \in DOMAIN ps : ps[i] = {a, b}
Longest(m, c) == CHOOSE i \in 1..3 : \A j \in 1..3 :
  Dist2(m.pts[c[(i % 3) + 1]], m.pts[c[((i + 1) % 3) + 1]]) >= Dist2(m.pts[c[(j % 3) + 1]], m.pts[c[((j + 1) % 3) + 1]])
Divide(m, ps, c, how) ==
  LET M(i, j) == PlaceOf(m, ps, c[i], c[j])
  IN IF Dim(m) = 3
     THEN <<<<c[1], M(1,2), M(1,3), M(1,4)>>, <<M(1,2), c[2], M(2,3), M(2,4)>>, <<M(1,3), M(2,3), c[3], M(3,4)>>, <<M(1,4), M(2,4), M(3,4), c[4]>>,
            <<M(1,2), M(1,3), M(1,4), M(2,4)>>, <<M(1,2), M(1,3), M(2,3), M(2,4)>>, <<M(1,3), M(1,4), M(2,4), M(3,4)>>, <<M(1,3), M(2,3), M(2,4), M(3,4)>>>>
     ELSE IF how = "red"
     THEN <<<<c[1], M(1,2), M(1,3)>>, <<M(1,2), c[2], M(2,3)>>, <<M(1,3), M(2,3), c[3]>>, <<M(1,2), M(2,3), M(1,3)>>>>
     ELSE LET i == Longest(m, c)
              j == (i % 3) + 1
              k == ((i + 1) % 3) + 1
          IN <<<<c[i], M(i,j), M(j,k)>>, <<M(i,j), c[j], M(j,k)>>, <<c[i], M(i,k), M(j,k)>>, <<M(i,k), c[k], M(j,k)>>>>
Halfway(m, s) == LET a == CHOOSE v \in s : TRUE
                     b == CHOOSE v \in s : v # a
                 IN [k \in 1..Dim(m) |-> (m.pts[a][k] + m.pts[b][k]) \div 2]
Divided(m, how) ==
  LET ps == TLCEval(Pairs(m))
      all == TLCEval([i \in DOMAIN m.cells |-> Divide(m, ps, m.cells[i], how)])
      n == Children(m)
  IN TLCEval([mesh |-> [pts |-> m.pts \o [i \in DOMAIN ps |-> Halfway(m, ps[i])],
                        cells |-> [i \in 1..(n * Len(m.cells)) |-> all[((i - 1) \div n) + 1][((i - 1) % n) + 1]]],
              from |-> [i \in DOMAIN m.pts |-> <<i, i>>] \o [i \in DOMAIN ps |-> LET a == CHOOSE v \in ps[i] : TRUE IN <<a, CHOOSE v \in ps[i] : v # a>>],
              parent |-> [i \in 1..(n * Len(m.cells)) |-> ((i - 1) \div n) + 1]])
VARIABLES new, old, from, parent, level
vars == <<new, old, from, parent, level>>
Init == /\ new \in Starts
        /\ old = <<>> /\ from = <<>> /\ parent = <<>> /\ level = 0
Next == /\ level < (IF Dim(new) = 2 THEN Depth ELSE 1)
        /\ \E how \in {"red", "longest"} :
             LET d == Divided(new, how)
             IN new' = d.mesh /\ from' = d.from /\ parent' = d.parent /\ old' = new
        /\ level' = level + 1
Spec == Init /\ [][Next]_vars
Valid == Tiling(new, DomainOf(new)) = "ok"
IsRefinement == level > 0 => Refined(old, new, from, parent) = "ok"
Half == [DomainOf(new) EXCEPT !.hi[1] = 4]
Third == [DomainOf(new) EXCEPT !.hi[1] = 3]
FitsWhatItShould == /\ Fits(new, DomainOf(new))
                    /\ (Dim(new) = 2 /\ Len(new.cells) \in {8, 32} => Fits(new, Half))
                    /\ ~Fits(new, Third)
\* single faults
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Dropped == {[new EXCEPT !.cells = Without(new.cells, i)] : i \in DOMAIN new.cells}
Repeated == {[new EXCEPT !.cells = Append(new.cells, new.cells[i])] : i \in DOMAIN new.cells}
Collapsed == {[new EXCEPT !.pts[new.cells[i][1]] = new.pts[new.cells[i][2]]] : i \in DOMAIN new.cells}
Outside == {[new EXCEPT !.pts[v][1] = IF @ = 8 THEN 9 ELSE IF @ = 0 THEN -1 ELSE 20] : v \in DOMAIN new.pts}
\* a cell cut at the middle of one side, its neighbour not
Hanging == {LET c == new.cells[i]
                n == Len(new.pts) + 1
            IN [pts |-> Append(new.pts, [k \in 1..Dim(new) |-> (new.pts[c[1]][k] + new.pts[c[2]][k]) \div 2]),
                cells |-> Append([new.cells EXCEPT ![i] = [c EXCEPT ![1] = n]], [c EXCEPT ![2] = n])]
            : i \in {x \in DOMAIN new.cells : ~\E f \in Boundary(Facets(new)) : \A k \in {1, 2} : new.cells[x][k] \in {f[l] : l \in DOMAIN f}}}
Missing == {[new EXCEPT !.cells[i][1] = Len(new.pts) + 1] : i \in DOMAIN new.cells}
Faulty == Dropped \cup Repeated \cup Collapsed \cup Outside \cup Hanging \cup Missing
FaultsRejected == \A m \in Faulty : Tiling(m, DomainOf(new)) # "ok"
\* refinements that leave something out
NotRefined == level > 0 =>
  /\ Refined(old, [new EXCEPT !.cells = Without(new.cells, 1)], from, Without(parent, 1)) # "ok"
  /\ Refined(old, old, [i \in DOMAIN old.pts |-> <<i, i>>], [i \in DOMAIN old.cells |-> i]) # "ok"
  /\ Refined(new, old, [i \in DOMAIN old.pts |-> <<i, i>>], [i \in DOMAIN old.cells |-> i]) # "ok"
  /\ Refined(old, new, [from EXCEPT ![1] = <<1, 2>>], parent) # "ok"
  /\ Refined(old, new, from, [parent EXCEPT ![1] = IF @ = 1 THEN 2 ELSE 1]) # "ok"
  /\ Refined(old, [new EXCEPT !.pts[Len(new.pts)][1] = @ + 2], from, parent) # "ok"
Collect == TLCSet(1, TLCGet(1) + Cardinality(Faulty))
ASSUME TLCSet(1, 0)
EmitAll == JsonSerialize(IOEnv.OUT, [rejected |-> TLCGet(1)])
===============================================================================
