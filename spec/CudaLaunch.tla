----------------------------- MODULE CudaLaunch -----------------------------
(***************************************************************************)
(* A kernel launch: threads of all blocks run in any order, each computes  *)
(* the element it is responsible for and returns at once if that is out of *)
(* range.  With a grid of blocks chosen by rounding up, every element is   *)
(* handled exactly once, whatever the size; with any smaller grid some     *)
(* element would be missed.                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxX, MaxY, MaxZ, WideBlock, TallBlock, TallFrom
VARIABLES dims, shape
vars == <<dims, shape>>
RoundUp(i, b) == (i + b - 1) \div b
Block(d) == IF d[2] >= TallFrom THEN TallBlock ELSE WideBlock
Config(d) == LET b == Block(d) IN [block |-> b, grid |-> [a \in 1..3 |-> RoundUp(d[a], b[a])]]
Threads(c) == {<<bx, by, bz, tx, ty, tz>> :
                 bx \in 0..c.grid[1] - 1, by \in 0..c.grid[2] - 1, bz \in 0..c.grid[3] - 1,
                 tx \in 0..c.block[1] - 1, ty \in 0..c.block[2] - 1, tz \in 0..c.block[3] - 1}
Element(c, t) == <<t[1] * c.block[1] + t[4], t[2] * c.block[2] + t[5], t[3] * c.block[3] + t[6]>>
Elements == (0..dims[1] - 1) \X (0..dims[2] - 1) \X (0..dims[3] - 1)

Init == /\ dims \in (0..MaxX) \X (0..MaxY) \X (0..MaxZ)
        /\ shape = Config(dims)
(* threads run in any order: the checks only concern which elements they handle *)
Injective == Cardinality(Threads(shape)) = Cardinality({Element(shape, t) : t \in Threads(shape)})
Covered   == Elements \subseteq {Element(shape, t) : t \in Threads(shape)}
Minimal   == \A a \in 1..3 : shape.grid[a] > 0 /\ (\A b \in 1..3 : dims[b] > 0) =>
               ~(Elements \subseteq {Element([shape EXCEPT !.grid[a] = @ - 1], t) : t \in Threads([shape EXCEPT !.grid[a] = @ - 1])})
Wide == <<5, 1, 1>>
Tall == <<3, 2, 1>>
Stutter == Init /\ [][UNCHANGED vars]_vars
=============================================================================
