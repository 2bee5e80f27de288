-------------------------------- MODULE Mesh ----------------------------------
(* Simplicial meshes with integer coordinates, in two or three dimensions.     *)
(* A mesh is [pts |-> sequence of points, cells |-> sequence of vertex tuples] *)
(* with vertices counted from one.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Dim(m) == Len(m.pts[1])
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Det2(u, v) == u[1] * v[2] - u[2] * v[1]
Det3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
\* d! times the signed volume of a cell
Volume(m, c) ==
  LET o == m.pts[c[1]]
      u == Minus(m.pts[c[2]], o)
      v == Minus(m.pts[c[3]], o)
  IN IF Dim(m) = 2 THEN Det2(u, v) ELSE Det3(u, v, Minus(m.pts[c[4]], o))
Abs(x) == IF x < 0 THEN -x ELSE x
\* the cell with positive volume
Oriented(m, c) == IF Volume(m, c) > 0 THEN c ELSE IF Dim(m) = 2 THEN <<c[1], c[3], c[2]>> ELSE <<c[1], c[2], c[4], c[3]>>
\* an oriented facet, with its smallest vertex first
Canon3(a, b, c) == IF a < b /\ a < c THEN <<a, b, c>> ELSE IF b < a /\ b < c THEN <<b, c, a>> ELSE <<c, a, b>>
FacetsOf(m, c) ==
  LET o == Oriented(m, c)
  IN IF Dim(m) = 2 THEN {<<o[1], o[2]>>, <<o[2], o[3]>>, <<o[3], o[1]>>}
     ELSE {Canon3(o[2], o[3], o[4]), Canon3(o[1], o[4], o[3]), Canon3(o[1], o[2], o[4]), Canon3(o[1], o[3], o[2])}
Reverse2(f) == IF Len(f) = 2 THEN <<f[2], f[1]>> ELSE Canon3(f[1], f[3], f[2])
Facets(m) == UNION {FacetsOf(m, m.cells[i]) : i \in DOMAIN m.cells}
Boundary(fs) == {f \in fs : Reverse2(f) \notin fs}
Total(m, S) == FoldLeft(LAMBDA sum, i : sum + IF i \in S THEN Abs(Volume(m, m.cells[i])) ELSE 0, 0, [i \in DOMAIN m.cells |-> i])
Factor(m) == IF Dim(m) = 2 THEN 2 ELSE 6
BoxVolume(b) == IF Len(b.lo) = 2 THEN (b.hi[1] - b.lo[1]) * (b.hi[2] - b.lo[2])
                ELSE (b.hi[1] - b.lo[1]) * (b.hi[2] - b.lo[2]) * (b.hi[3] - b.lo[3])
\* the cells of a mesh tile the box
WellFormed(m) == \A i \in DOMAIN m.cells : /\ Len(m.cells[i]) = Dim(m) + 1
                                           /\ \A j \in DOMAIN m.cells[i] : m.cells[i][j] \in DOMAIN m.pts
Flat(m) == \E i \in DOMAIN m.cells : Volume(m, m.cells[i]) = 0
OnSide(m, f, b) == \E a \in 1..Dim(m) : (\A j \in DOMAIN f : m.pts[f[j]][a] = b.lo[a]) \/ (\A j \in DOMAIN f : m.pts[f[j]][a] = b.hi[a])
Tiling(m, b) ==
  IF m.cells = <<>> THEN "no cells"
  ELSE IF ~WellFormed(m) THEN "cells with missing vertices"
  ELSE IF Flat(m) THEN "degenerate cells"
  ELSE LET fs == Facets(m)
       IN IF Cardinality(fs) # (Dim(m) + 1) * Len(m.cells) THEN "cells overlap or are repeated"
          ELSE IF \E f \in Boundary(fs) : ~OnSide(m, f, b) THEN "a facet inside the domain has only one cell, or the mesh leaves the domain"
          ELSE IF Total(m, DOMAIN m.cells) # Factor(m) * BoxVolume(b) THEN "the cells do not fill the domain once"
          ELSE "ok"
\* the cells inside a closed box fill it: no cell crosses its boundary
InBox(p, b) == \A a \in 1..Len(p) : b.lo[a] <= p[a] /\ p[a] <= b.hi[a]
Inside(m, b) == {i \in DOMAIN m.cells : \A j \in DOMAIN m.cells[i] : InBox(m.pts[m.cells[i][j]], b)}
Fits(m, b) == Total(m, Inside(m, b)) = Factor(m) * BoxVolume(b)
\* the same for a disc about the origin, up to the rounding of coordinates
Norm2(p) == p[1] * p[1] + p[2] * p[2]
Tol(r) == 4 * r
OnCircle(p, r) == Abs(Norm2(p) - r * r) <= Tol(r)
InDisc(m, r) == {i \in DOMAIN m.cells : \A j \in 1..3 : Norm2(m.pts[m.cells[i][j]]) <= r * r + Tol(r)}
Rim(m, r) == Boundary(UNION {FacetsOf(m, m.cells[i]) : i \in InDisc(m, r)})
FitsDisc(m, r) == /\ InDisc(m, r) # {}
                  /\ \A f \in Rim(m, r) : OnCircle(m.pts[f[1]], r) /\ OnCircle(m.pts[f[2]], r)
\* extra nodes of curved cells: node j on the edge opposite to vertex j
Straight(a, b, p) == \A k \in 1..2 : Abs(2 * p[k] - a[k] - b[k]) <= 2
Curved(m, mids, r) ==
  LET rim == Rim(m, r)
  IN \A i \in DOMAIN m.cells : \A j \in 1..3 :
       LET c == m.cells[i]
           a == c[(j % 3) + 1]
           b == c[((j + 1) % 3) + 1]
           p == mids[i][j]
       IN IF <<a, b>> \in rim \/ <<b, a>> \in rim
          THEN OnCircle(p, r) /\ \A k \in 1..2 : Abs(2 * p[k] - m.pts[a][k] - m.pts[b][k]) <= Abs(m.pts[a][1] - m.pts[b][1]) + Abs(m.pts[a][2] - m.pts[b][2])
          ELSE Straight(m.pts[a], m.pts[b], p)
\* no edge is longer than the given length
Dist2(p, q) == LET d == Minus(p, q) IN IF Len(d) = 2 THEN d[1] * d[1] + d[2] * d[2] ELSE d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
NoLongerThan(m, l) == \A i \in DOMAIN m.cells : \A j, k \in DOMAIN m.cells[i] : j < k => Dist2(m.pts[m.cells[i][j]], m.pts[m.cells[i][k]]) <= l * l
\* uniform refinement: from[v] is the pair of old vertices in whose middle the new vertex lies (twice the
\* same for a vertex kept), parent[c] the old cell the new cell c lies in
EdgesOf(m) == UNION {{{m.cells[i][j], m.cells[i][k]} : j, k \in DOMAIN m.cells[i]} : i \in DOMAIN m.cells}
Middle(p, a, b) == \A k \in 1..Len(p) : Abs(2 * p[k] - a[k] - b[k]) <= 2
Children(m) == IF Dim(m) = 2 THEN 4 ELSE 8
Refined(old, new, from, parent) ==
  IF Len(new.cells) # Children(old) * Len(old.cells) THEN "not every cell is divided"
  ELSE IF \E v \in DOMAIN new.pts : from[v][1] \notin DOMAIN old.pts \/ from[v][2] \notin DOMAIN old.pts THEN "a new vertex that is no midpoint"
  ELSE IF \E v \in DOMAIN new.pts : ~Middle(new.pts[v], old.pts[from[v][1]], old.pts[from[v][2]]) THEN "a vertex in the wrong place"
  ELSE LET origins == {{from[v][1], from[v][2]} : v \in DOMAIN new.pts}
       IN IF Cardinality(origins) # Len(new.pts) THEN "two vertices in one place"
          ELSE IF origins # EdgesOf(old) THEN "not every edge is divided"
          ELSE IF \E c \in DOMAIN new.cells : parent[c] \notin DOMAIN old.cells THEN "a new cell outside the old ones"
          ELSE IF \E c \in DOMAIN new.cells : \E j \in DOMAIN new.cells[c] :
                    ~({from[new.cells[c][j]][1], from[new.cells[c][j]][2]} \subseteq {old.cells[parent[c]][k] : k \in DOMAIN old.cells[parent[c]]})
               THEN "a new cell across old ones"
          ELSE "ok"
===============================================================================
