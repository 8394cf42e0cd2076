----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* How the library computes what Interpolant.tla defines: the cell search, *)
(* the saturation cases of the cubic kernel, and the two evaluation        *)
(* orders.  MCFlat.tla steps through both orders and compares every        *)
(* intermediate result with the definition.                                *)
(***************************************************************************)
EXTENDS Rules

Clip(lo, hi, i) == IMax(lo, IMin(hi, i))

\* Number of cells from the start (regular), number of nodes below x (rectilinear,
\* found by bisection of a sorted array).
RegCell(ax, x) == RFloor(RDiv(RSub(x, First(ax)), Width(ax, 0)))
RECURSIVE Below(_, _, _, _)
Below(ax, x, lo, hi) ==            \* nodes lo..hi-1 are undecided
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF RLt(Coord(ax, mid), x) THEN Below(ax, x, mid + 1, hi) ELSE Below(ax, x, lo, mid)
RectCell(ax, x) == Below(ax, x, 0, ALen(ax)) - 1
FoundCell(g, ax, x) == IF g = "regular" THEN RegCell(ax, x) ELSE RectCell(ax, x)

\* Lower corner of the footprint
Origin(m, g, ax, x) ==
  IF m = "cubic" THEN Clip(0, ALen(ax) - 4, FoundCell(g, ax, x) - 1)
  ELSE Clip(0, ALen(ax) - 2, FoundCell(g, ax, x))
Foots(m) == IF m = "cubic" THEN 4 ELSE 2

Saturation(g, ax, x) ==
  LET i == FoundCell(g, ax, x) - 1 n == ALen(ax) IN
  IF g = "regular"
  THEN CASE i < -1 -> "outlow" [] i = -1 -> "inlow" [] i > n - 3 -> "outhigh" [] i = n - 3 -> "inhigh" [] OTHER -> "none"
  ELSE CASE i = -2 -> "outlow" [] i = -1 -> "inlow" [] i = n - 2 -> "outhigh" [] i = n - 3 -> "inhigh" [] OTHER -> "none"

\* Horner form of the Hermite cubic
Horner(t, y0, dy, k0, k1) ==
  LET a == RSub(k0, dy) b == RSub(dy, k1)
      c1 == RAdd(dy, a) c2 == RSub(b, RAdd(a, a)) c3 == RSub(a, b)
  IN  RAdd(y0, RMul(t, RAdd(c1, RMul(t, RAdd(c2, RMul(t, c3))))))
\* distance-weighted difference of three values at spacings h01, h12
Central(y0, y1, y2, h01, h12) ==
  LET h == RAdd(h01, h12)
  IN  RAdd(RMul(RDiv(h01, h), RDiv(RSub(y2, y1), h12)), RMul(RDiv(h12, h), RDiv(RSub(y1, y0), h01)))

\* The cubic kernel on four values v[1..4] at nodes o..o+3
CubicKernel(g, ax, lin, o, x, v) ==
  LET h01 == Width(ax, o) h12 == Width(ax, o + 1) h23 == Width(ax, o + 2)
      sat == Saturation(g, ax, x)
      \* low edge, run backwards from node o+1
      tl == RDiv(RSub(Coord(ax, o + 1), x), h01)
      dl == RSub(v[1], v[2])
      kl0 == RNeg(Central(v[1], v[2], v[3], One, RDiv(h12, h01)))
      kl1 == RSub(RMul(Two, dl), kl0)
      \* high edge
      th == RDiv(RSub(x, Coord(ax, o + 2)), h23)
      dh == RSub(v[4], v[3])
      kh0 == Central(v[2], v[3], v[4], RDiv(h12, h23), One)
      kh1 == RSub(RMul(Two, dh), kh0)
  IN  CASE sat = "none" ->
             Horner(RDiv(RSub(x, Coord(ax, o + 1)), h12), v[2], RSub(v[3], v[2]),
                    Central(v[1], v[2], v[3], RDiv(h01, h12), One), Central(v[2], v[3], v[4], One, RDiv(h23, h12)))
        [] sat = "outlow" /\ lin  -> RAdd(v[1], RMul(kl1, RSub(tl, One)))
        [] sat = "outhigh" /\ lin -> RAdd(v[4], RMul(kh1, RSub(th, One)))
        [] sat \in {"inlow", "outlow"} -> Horner(tl, v[2], dl, kl0, kl1)
        [] sat \in {"inhigh", "outhigh"} -> Horner(th, v[3], dh, kh0, kh1)

LinearKernel(ax, o, x, v) == RAdd(v[1], RMul(RDiv(RSub(x, Coord(ax, o)), Width(ax, o)), RSub(v[2], v[1])))

Kernel(p, d, o, x, v) ==
  IF p.m = "cubic" THEN CubicKernel(p.g, Axis(p, d), p.lin, o, x, v) ELSE LinearKernel(Axis(p, d), o, x, v)

NearestIndex(g, ax, x) ==
  LET o == Origin("nearest", g, ax, x) IN IF RLe(Pos(ax, o, x), Half) THEN o ELSE o + 1

\* Strides of a C-ordered array, computed from the last axis as the code does
RECURSIVE Strides(_, _)
Strides(dims, d) == IF d = Len(dims) THEN 1 ELSE dims[d + 1] * Strides(dims, d + 1)
RECURSIVE Offset_(_, _, _)
Offset_(dims, loc, d) == IF d > Len(dims) THEN 0 ELSE loc[d] * Strides(dims, d) + Offset_(dims, loc, d + 1)
LeafIndex(dims, loc) == Offset_(dims, loc, 1)
=============================================================================
