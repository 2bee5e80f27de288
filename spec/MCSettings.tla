------------------------------ MODULE MCSettings ------------------------------
(* What the drivers solve, as told by their settings: level of refinement,     *)
(* order, final time, width of the data strip, geometric control or not.       *)
(* A setting is chosen; the cells of the space grid are then visited layer by  *)
(* layer and put into the data domain or not, in integer coordinates.          *)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Levels, Orders, MaxPoints

Dims == {1, 2, 3}
Pow2(n) == LET F[i \in Nat] == IF i = 0 THEN 1 ELSE 2 * F[i - 1] IN F[n]
\* slabs and cells along an axis (0: an unstructured mesh, of the hierarchy's level)
SlabsOf(d, l) == Pow2(l)
CellsOf(d, l) == CASE d = 1 -> 5 * Pow2(l) [] d = 2 -> 0 [] d = 3 -> 2 * Pow2(l)
Degrees(d, o) == IF d = 1 THEN [q |-> o, qstar |-> IF o = 1 THEN 1 ELSE 0, k |-> o, kstar |-> 1]
                 ELSE [q |-> o, qstar |-> o, k |-> o, kstar |-> o]
Times(d) == IF d = 3 THEN {R(1, 2), R(2, 3)} ELSE {R(1, 1), R(2, 3)}
Widths(d, l) == IF d # 3 THEN {R(1, 5)} ELSE IF l >= 2 THEN {R(1, 4), R(1, 8)} ELSE {R(1, 4)}
\* data at one end only (no geometric control) or all around
Arounds(d) == CASE d = 1 -> {FALSE} [] d = 2 -> {TRUE} [] d = 3 -> BOOLEAN
Settings == {[dim |-> d, level |-> l, order |-> o, T |-> t, width |-> w, around |-> a] :
                d \in Dims, l \in Levels, o \in Orders, t \in UNION {Times(d) : d \in Dims},
                w \in {R(1, 5), R(1, 4), R(1, 8)}, a \in BOOLEAN}
Possible(s) == s.T \in Times(s.dim) /\ s.width \in Widths(s.dim, s.level) /\ s.around \in Arounds(s.dim)

\* the grid of cells whose midpoints are looked at
Grid(s) == CASE s.dim = 1 -> CellsOf(1, s.level) [] s.dim = 2 -> 10
             [] s.dim = 3 -> IF CellsOf(3, s.level) \in 8..MaxPoints THEN CellsOf(3, s.level)
                             ELSE IF CellsOf(3, s.level) < 8 THEN 8 ELSE MaxPoints
\* is a point, n parts of m along each axis, in the data domain
Low(n, m, w) == n * w[2] <= m * w[1]
Near(n, m, w) == Low(n, m, w) \/ Low(m - n, m, w)
InDomain(s, p, m) == IF s.around THEN \E i \in 1..s.dim : Near(p[i], m, s.width) ELSE Low(p[1], m, s.width)
Mid(c) == [i \in DOMAIN c |-> 2 * c[i] + 1]
Cells(s, layer) == {c \in [1..s.dim -> 0..(Grid(s) - 1)] : c[1] = layer}
\* the interior of the cell of the mesh does not meet the boundary of the domain:
\* the corners, moved a little inside, are all in or all out
Corners(c) == {[i \in DOMAIN c |-> 8 * c[i] + 1 + 6 * e[i]] : e \in [DOMAIN c -> {0, 1}]}
Cut(s, c, m) == LET a == {InDomain(s, p, 8 * m) : p \in Corners(c)} IN Cardinality(a) > 1

VARIABLES vset, vlayer, vin, vcut
vars == <<vset, vlayer, vin, vcut>>
Visit(s, layer) == {c \in Cells(s, layer) : InDomain(s, Mid(c), 2 * Grid(s))}
Init == /\ vset \in {s \in Settings : Possible(s)} /\ vlayer = 0
        /\ vin = Visit(vset, 0) /\ vcut = {c \in Cells(vset, 0) : Cut(vset, c, Grid(vset))}
Next == /\ vlayer + 1 < Grid(vset) /\ vlayer' = vlayer + 1
        /\ vin' = vin \union Visit(vset, vlayer')
        /\ vcut' = vcut \union {c \in Cells(vset, vlayer') : Cut(vset, c, Grid(vset))}
        /\ UNCHANGED vset
Spec == Init /\ [][Next]_vars

Done == vlayer = Grid(vset) - 1
\* a grid that is fitted to the domain where the drivers say so; those of two cells are not
Fitted(s) == s.dim # 3 \/ CellsOf(3, s.level) > 2
NoneCut == (Fitted(vset) => vcut = {})
TwoCut == (vset.dim = 3 /\ vset.level = 0) =>
             \A c \in [1..3 -> {0, 1}] : Cut(vset, c, 2) \/ (~vset.around /\ c[1] = 1)
\* the part of the volume with data is the same on all levels
Volume(s) == LET w == s.width IN
   IF ~s.around THEN w ELSE LET i == Sub(One, Mul(Q(2), w)) IN Sub(One, IF s.dim = 2 THEN Mul(i, i) ELSE Mul(i, Mul(i, i)))
Ipow(a, n) == LET F[i \in Nat] == IF i = 0 THEN 1 ELSE a * F[i - 1] IN F[n]
SameVolume == Done => R(Cardinality(vin), Ipow(Grid(vset), vset.dim)) = Volume(vset)
\* unknown somewhere, known somewhere
Proper == Done => vin # {} /\ Cardinality(vin) < Ipow(Grid(vset), vset.dim)
\* without geometric control the far side stays unseen
OneSided == (Done /\ ~vset.around) => \A c \in vin : c[1] < Grid(vset) - 1
\* time and space are refined together
Together == LET s == vset IN s.dim # 2 => \A l \in Levels :
   CellsOf(s.dim, s.level) * SlabsOf(s.dim, l) = CellsOf(s.dim, l) * SlabsOf(s.dim, s.level)

Encode(c, m) == LET F[i \in 0..Len(c)] == IF i = 0 THEN 0 ELSE F[i - 1] * m + c[i] IN F[Len(c)]
Collect == Done => TLCSet(1, Append(TLCGet(1),
   [set |-> vset, slabs |-> SlabsOf(vset.dim, vset.level), cells |-> CellsOf(vset.dim, vset.level), fitted |-> Fitted(vset),
    degrees |-> Degrees(vset.dim, vset.order), grid |-> Grid(vset), volume |-> Volume(vset),
    inside |-> {Encode(c, Grid(vset)) : c \in vin}]))
ASSUME TLCSet(1, <<>>)
EmitAll == JsonSerialize(IOEnv.OUT, TLCGet(1))
===============================================================================
