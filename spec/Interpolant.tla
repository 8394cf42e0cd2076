---------------------------- MODULE Interpolant ----------------------------
(***************************************************************************)
(* What the interpolation methods mean, in exact arithmetic.               *)
(*                                                                         *)
(* An axis is a finite strictly increasing sequence of coordinates, given  *)
(* explicitly or in closed form:                                           *)
(*   [k |-> "list", v |-> <<c0, c1, ...>>]                                 *)
(*   [k |-> "aff", n, s, h]        node i lies at s + i*h                  *)
(*   [k |-> "alt", n, s, h1, h2]   spacing h1, h2, h1, h2, ...             *)
(* A value array (flat, C order) is likewise explicit or in closed form.   *)
(* A problem p has p.m \in {"linear","cubic","nearest"}, p.g \in           *)
(* {"regular","rectilinear"}, its axes, p.vals and p.lin (linearized       *)
(* extrapolation).  Nodes are numbered from 0.                             *)
(***************************************************************************)
EXTENDS Rational, Sequences, TLC

Zero == RInt(0)
One  == RInt(1)
Two  == RInt(2)
Half == R(1, 2)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
IMax(a, b) == IF a < b THEN b ELSE a
IMin(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Axes *)

ALen(ax) == IF ax.k = "list" THEN Len(ax.v) ELSE ax.n

Coord(ax, i) ==
  CASE ax.k = "list" -> RParse(ax.v[i + 1])
    [] ax.k = "aff"  -> RAdd(RParse(ax.s), RMul(RInt(i), RParse(ax.h)))
    [] ax.k = "alt"  -> LET h1 == RParse(ax.h1) h2 == RParse(ax.h2) IN
                        RAdd(RParse(ax.s),
                             RAdd(RMul(RInt(i \div 2), RAdd(h1, h2)),
                                  IF i % 2 = 1 THEN h1 ELSE Zero))

Axis(p, d) == IF p.g = "regular"
              THEN [k |-> "aff", n |-> p.dims[d], s |-> p.starts[d], h |-> p.steps[d]]
              ELSE p.grids[d]
NDims(p) == IF p.g = "regular" THEN Len(p.dims) ELSE Len(p.grids)
Shape(p) == [d \in 1..NDims(p) |-> ALen(Axis(p, d))]

\* The last node of lo..hi whose coordinate is <= x, or lo.
RECURSIVE Bisect(_, _, _, _)
Bisect(ax, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF RLe(Coord(ax, mid), x) THEN Bisect(ax, x, mid, hi) ELSE Bisect(ax, x, lo, mid - 1)

\* The cell i (between node i and node i+1) used for x: the one that contains
\* it, or the edge cell on the side where x lies outside.
Cell(ax, x) ==
  LET n == ALen(ax) IN
  IF ax.k = "aff"
  THEN IMax(0, IMin(n - 2, RFloor(RDiv(RSub(x, RParse(ax.s)), RParse(ax.h)))))
  ELSE Bisect(ax, x, 0, n - 2)

Width(ax, i) == RSub(Coord(ax, i + 1), Coord(ax, i))
Pos(ax, i, x) == RDiv(RSub(x, Coord(ax, i)), Width(ax, i))   \* position in cell i
First(ax) == Coord(ax, 0)
Last(ax)  == IF ax.k = "aff" THEN RAdd(RParse(ax.s), RMul(RSub(RParse(ax.n), One), RParse(ax.h)))
             ELSE Coord(ax, ALen(ax) - 1)
Side(ax, x) == IF RLt(x, First(ax)) THEN "low" ELSE IF RLt(Last(ax), x) THEN "high" ELSE "in"

-----------------------------------------------------------------------------
(* Curves along one axis, through the data y(0), ..., y(n-1) *)

LinearCurve(ax, x, y(_)) ==
  LET i == Cell(ax, x) t == Pos(ax, i, x)
  IN  RAdd(y(i), RMul(t, RSub(y(i + 1), y(i))))

\* Half-way points go to the lower node; outside, t < 0 or t > 1.
NearestNode(ax, x) == LET i == Cell(ax, x) IN IF RLe(Pos(ax, i, x), Half) THEN i ELSE i + 1
NearestCurve(ax, x, y(_)) == y(NearestNode(ax, x))

Chord(ax, i, y(_)) == RDiv(RSub(y(i + 1), y(i)), Width(ax, i))

\* Distance-weighted central difference: the nearer neighbour weighs more.
InnerSlope(ax, j, y(_)) ==
  LET h0 == Width(ax, j - 1) h1 == Width(ax, j) h == RAdd(h0, h1)
  IN  RAdd(RMul(RDiv(h0, h), Chord(ax, j, y)), RMul(RDiv(h1, h), Chord(ax, j - 1, y)))

\* At the ends the slope is the one that makes the edge cell quadratic.
Slope(ax, j, y(_)) ==
  LET n == ALen(ax) IN
  CASE j = 0     -> RSub(RMul(Two, Chord(ax, 0, y)), InnerSlope(ax, 1, y))
    [] j = n - 1 -> RSub(RMul(Two, Chord(ax, n - 2, y)), InnerSlope(ax, n - 2, y))
    [] OTHER     -> InnerSlope(ax, j, y)

\* The cubic with values y0, y1 and (cell-width scaled) slopes d0, d1 at t = 0, 1.
Hermite(t, y0, y1, d0, d1) ==
  LET u == RSub(One, t)
      t2 == RMul(t, t)  u2 == RMul(u, u)
      h00 == RMul(u2, RAdd(One, RMul(Two, t)))  h01 == RMul(t2, RSub(RInt(3), RMul(Two, t)))
      h10 == RMul(t, u2)                        h11 == RNeg(RMul(t2, u))
  IN  RAdd(RAdd(RMul(h00, y0), RMul(h01, y1)), RAdd(RMul(h10, d0), RMul(h11, d1)))

CellCubic(ax, i, x, y(_)) ==
  LET w == Width(ax, i)
  IN  Hermite(Pos(ax, i, x), y(i), y(i + 1), RMul(w, Slope(ax, i, y)), RMul(w, Slope(ax, i + 1, y)))

Tangent(ax, j, x, y(_)) == RAdd(y(j), RMul(Slope(ax, j, y), RSub(x, Coord(ax, j))))

CubicCurve(lin, ax, x, y(_)) ==
  LET s == Side(ax, x) IN
  CASE lin /\ s = "low"  -> Tangent(ax, 0, x, y)
    [] lin /\ s = "high" -> Tangent(ax, ALen(ax) - 1, x, y)
    [] OTHER             -> CellCubic(ax, Cell(ax, x), x, y)

Curve(m, lin, ax, x, y(_)) ==
  CASE m = "linear"  -> LinearCurve(ax, x, y)
    [] m = "nearest" -> NearestCurve(ax, x, y)
    [] m = "cubic"   -> CubicCurve(lin, ax, x, y)

-----------------------------------------------------------------------------
(* Footprint and weights.  The curves are linear in y and use only the nodes *)
(* Lo..Hi, so their weights are their values on unit data (MCAxis checks     *)
(* both facts).                                                              *)

FootLo(m, ax, x) == LET i == Cell(ax, x) IN IF m = "cubic" THEN IMax(0, i - 1) ELSE i
FootHi(m, ax, x) == LET i == Cell(ax, x) IN IF m = "cubic" THEN IMin(ALen(ax) - 1, i + 2) ELSE i + 1

Weight(m, lin, ax, x, k) == LET unit(j) == IF j = k THEN One ELSE Zero IN Curve(m, lin, ax, x, unit)

\* <<node, weight>> pairs with non-zero weight
Weights(m, lin, ax, x) ==
  IF m = "nearest" THEN <<<<NearestNode(ax, x), One>>>>
  ELSE LET lo == FootLo(m, ax, x) hi == FootHi(m, ax, x)
           all == [k \in 1..(hi - lo + 1) |-> <<lo + k - 1, Weight(m, lin, ax, x, lo + k - 1)>>]
       IN  SelectSeq(all, LAMBDA w : RSign(w[2]) # 0)

-----------------------------------------------------------------------------
(* Value arrays *)

RECURSIVE Flat_(_, _, _, _)
Flat_(dims, ix, d, acc) == IF d > Len(dims) THEN acc ELSE Flat_(dims, ix, d + 1, acc * dims[d] + ix[d])
FlatIndex(dims, ix) == Flat_(dims, ix, 1, 0)      \* C order: last axis fastest

RECURSIVE ProdR_(_, _)
ProdR_(dims, d) == IF d > Len(dims) THEN One ELSE RMul(RParse(dims[d]), ProdR_(dims, d + 1))
Product(dims) == ProdR_(dims, 1)                  \* unbounded

Lcg(v, i) == LET r == i % v.p
             IN  ((((((v.a * r) % v.p) * r) % v.p) + ((v.b * r) % v.p) + v.c) % v.p) - v.off

RECURSIVE SepTerm_(_, _, _)
SepTerm_(t, ix, d) == IF d > Len(ix) THEN One ELSE RMul(RParse(t[d][ix[d] + 1]), SepTerm_(t, ix, d + 1))
RECURSIVE SepSum_(_, _, _)
SepSum_(ts, ix, r) == IF r > Len(ts) THEN Zero ELSE RAdd(SepTerm_(ts[r], ix, 1), SepSum_(ts, ix, r + 1))

RECURSIVE Raw(_, _, _)
Raw(v, dims, ix) ==                                \* entry ix, as recorded
  CASE v.k = "list" -> v.v[FlatIndex(dims, ix) + 1]
    [] v.k = "lcg"  -> Lcg(v, FlatIndex(dims, ix))
    [] v.k = "sep"  -> SepSum_(v.terms, ix, 1)
    [] v.k = "box"  -> IF \E d \in 1..Len(ix) : ix[d] < v.lo[d] \/ ix[d] > v.hi[d]
                       THEN v.out ELSE Raw(v.base, dims, ix)
ValLen(v) == CASE v.k = "list" -> RInt(Len(v.v))
               [] v.k = "lcg"  -> RInt(v.n)
               [] v.k = "sep"  -> Product(v.dims)
               [] v.k = "box"  -> Product(v.dims)

\* An upper bound of |v| over the finite entries
RECURSIVE SepBound_(_, _)
SepBound_(t, d) == IF d > Len(t) THEN One ELSE RMul(RMaxAbs(t[d]), SepBound_(t, d + 1))
RECURSIVE SepBounds_(_, _)
SepBounds_(ts, r) == IF r > Len(ts) THEN Zero ELSE RAdd(SepBound_(ts[r], 1), SepBounds_(ts, r + 1))
RECURSIVE VBound(_)
VBound(v) == CASE v.k = "list" -> RMaxAbs(v.v)
               [] v.k = "lcg"  -> RInt(v.p)
               [] v.k = "sep"  -> SepBounds_(v.terms, 1)
               [] v.k = "box"  -> VBound(v.base)

-----------------------------------------------------------------------------
(* The N-dimensional interpolant: tensor product of the axis curves *)

RECURSIVE Contract(_, _, _, _, _)
RECURSIVE ContractAxis(_, _, _, _, _, _)
Contract(ws, v, dims, d, ix) ==
  IF d > Len(dims) THEN RParse(Raw(v, dims, ix))
  ELSE ContractAxis(ws, v, dims, d, ix, 1)
ContractAxis(ws, v, dims, d, ix, k) ==
  IF k > Len(ws[d]) THEN Zero
  ELSE RAdd(RMul(ws[d][k][2], Contract(ws, v, dims, d + 1, Append(ix, ws[d][k][1]))),
            ContractAxis(ws, v, dims, d, ix, k + 1))

\* The same sum, factored, for sums of products of per-axis functions
RECURSIVE AxisDot_(_, _, _)
AxisDot_(w, f, k) == IF k > Len(w) THEN Zero
                     ELSE RAdd(RMul(w[k][2], RParse(f[w[k][1] + 1])), AxisDot_(w, f, k + 1))
RECURSIVE TermDot_(_, _, _)
TermDot_(ws, t, d) == IF d > Len(ws) THEN One ELSE RMul(AxisDot_(ws[d], t[d], 1), TermDot_(ws, t, d + 1))
RECURSIVE SepDot_(_, _, _)
SepDot_(ws, ts, r) == IF r > Len(ts) THEN Zero ELSE RAdd(TermDot_(ws, ts[r], 1), SepDot_(ws, ts, r + 1))

AxisWeights(p, x) ==
  TLCEval([d \in 1..Len(x) |-> Weights(p.m, p.lin, Axis(p, d), RParse(x[d]))])

WeightedSum(ws, v, dims) ==
  IF v.k = "sep" THEN SepDot_(ws, v.terms, 1)
  ELSE IF v.k = "box" /\ v.base.k = "sep" THEN SepDot_(ws, v.base.terms, 1)
  ELSE Contract(ws, v, dims, 1, <<>>)

Value(p, x) == WeightedSum(AxisWeights(p, x), p.vals, TLCEval(Shape(p)))

-----------------------------------------------------------------------------
(* Rounding.  In binary floating point with unit roundoff 2^-e the result   *)
(* may differ from Value by Tolerance(e, p, x): a constant times the unit   *)
(* roundoff, the magnitude of the terms summed, and the amplification of    *)
(* coordinate rounding by the cell width.                                   *)

RECURSIVE AbsSum_(_, _)
AbsSum_(w, k) == IF k > Len(w) THEN One ELSE RAdd(RAbs(w[k][2]), AbsSum_(w, k + 1))
RECURSIVE AbsSums_(_, _)
AbsSums_(ws, d) == IF d > Len(ws) THEN One ELSE RMul(AbsSum_(ws[d], 1), AbsSums_(ws, d + 1))

MinWidth(ax, x) ==
  LET i == Cell(ax, x) n == ALen(ax)
      w == Width(ax, i)
      a == IF i > 0 THEN RMin(w, Width(ax, i - 1)) ELSE w
  IN  IF i < n - 2 THEN RMin(a, Width(ax, i + 1)) ELSE a
AxisCond(ax, x) == RDiv(RAdd(RAbs(x), RAdd(RAbs(First(ax)), RAbs(Last(ax)))), MinWidth(ax, x))
RECURSIVE Cond_(_, _, _)
Cond_(p, x, d) == IF d > Len(x) THEN One
                  ELSE RAdd(RAdd(One, AxisCond(Axis(p, d), RParse(x[d]))), Cond_(p, x, d + 1))

Tolerance(e, p, x) ==
  RMul(RPow2(5 - e),
       RMul(RMul(VBound(p.vals), AbsSums_(AxisWeights(p, x), 1)), Cond_(p, x, 1)))

\* Nodes an axis position may round to: both neighbours of a (nearly) tied point.
NearNodes(e, ax, x) ==
  LET i == Cell(ax, x) t == Pos(ax, i, x)
      slack == RMul(RPow2(6 - e), RAdd(One, AxisCond(ax, x)))
  IN  IF RLe(RAbs(RSub(t, Half)), slack) THEN {i, i + 1} ELSE {NearestNode(ax, x)}
=============================================================================
