------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* Which problems and calls are well formed: what the library has to       *)
(* accept, and what it has to refuse with an error.                        *)
(***************************************************************************)
EXTENDS Interpolant

\* Equality of recorded numbers ("nan" equals itself: no number is an answer too)
SameNum(a, b) == IF IsNum(a) /\ IsNum(b) THEN REq(RParse(a), RParse(b))
                 ELSE IF IsNum(a) \/ IsNum(b) THEN FALSE ELSE a = b

MinNodes(m) == IF m = "cubic" THEN 4 ELSE 2
MaxFlat(m)  == IF m = "cubic" THEN 4 ELSE 6      \* fixed-dimension interpolators
MaxCall(m)  == IF m = "nearest" THEN 6 ELSE 8    \* convenience functions

Positive(v) == IF IsNum(v) THEN RLt(Zero, RParse(v)) ELSE v = "inf"
Above(v, w) == IsNum(v) /\ IsNum(w) /\ RLt(RParse(w), RParse(v))

AxesOk(p) ==
  IF p.g = "regular"
  THEN /\ Len(p.starts) = Len(p.dims) /\ Len(p.steps) = Len(p.dims)
       /\ \A d \in 1..Len(p.dims) : RLe(RInt(MinNodes(p.m)), RParse(p.dims[d]))
       /\ \A d \in 1..Len(p.steps) : Positive(p.steps[d])
  ELSE \A d \in 1..Len(p.grids) :
         LET ax == p.grids[d] IN
         /\ ALen(ax) >= MinNodes(p.m)
         /\ IF ax.k = "list" THEN Above(ax.v[2], ax.v[1]) ELSE RLt(Coord(ax, 0), Coord(ax, 1))

DimsOf(p) == IF p.g = "regular" THEN p.dims ELSE [d \in 1..Len(p.grids) |-> ALen(p.grids[d])]

ProblemOk(p) == NDims(p) >= 1 /\ AxesOk(p) /\ REq(Product(DimsOf(p)), ValLen(p.vals))

\* Interpolator types: "flat" has the number of dimensions in its type, "rec"
\* (recursive) a maximum number md.
NewOk(p, fam, md) ==
  /\ ProblemOk(p)
  /\ IF fam = "flat" THEN NDims(p) = md /\ md <= MaxFlat(p.m) ELSE NDims(p) <= md

\* A batch: one array of n coordinates per axis, n results.
BatchOk(nd, obs, n) == Len(obs) = nd /\ \A d \in 1..Len(obs) : Len(obs[d]) = n

CallOk(p, obs, n) == NDims(p) <= MaxCall(p.m) /\ ProblemOk(p) /\ BatchOk(NDims(p), obs, n)

\* The bounds check: "yes" it must answer, "no" it must refuse, "any".
BoundsOk(p, obs, n) ==
  LET nd == NDims(p)
      ok == /\ Len(obs) = nd /\ n = nd
            /\ IF p.g = "regular"
               THEN Len(p.starts) = nd /\ Len(p.steps) = nd /\ \A d \in 1..nd : RLt(Zero, RParse(p.dims[d]))
               ELSE \A d \in 1..nd : ALen(p.grids[d]) > 0
  IN  IF nd = 0 /\ ok THEN "any" ELSE IF ok THEN "yes" ELSE "no"

\* Coordinates for which an evaluation may give up with an error: not finite,
\* or so far away that the number of cells does not fit a machine integer.
FarCells == RPow2(62)
Offset(ax, x) == RDiv(RSub(x, First(ax)), Width(ax, 0))
MayFail(p, x) ==
  \E d \in 1..Len(x) : IF ~IsNum(x[d]) THEN TRUE
                       ELSE RLe(FarCells, RAbs(Offset(Axis(p, d), RParse(x[d]))))
Finite(x) == \A d \in 1..Len(x) : IsNum(x[d])
\* Near enough for the result to be judged in floating point.
Plain(p, x) == IF ~Finite(x) THEN FALSE ELSE \A d \in 1..Len(x) : RLt(RAbs(Offset(Axis(p, d), RParse(x[d]))), RPow2(20))
=============================================================================
