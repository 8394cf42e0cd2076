------------------------------- MODULE MCRound -------------------------------
(***************************************************************************)
(* The rounding allowance.  The code's kernels are evaluated in binary     *)
(* floating point of E bits (every operation rounded to nearest, ties to   *)
(* even; fused or not) on axes and positions that such numbers can hold,   *)
(* in one and two dimensions, and the results are compared with the exact  *)
(* interpolant: the error stays within Tolerance, with room to spare.      *)
(***************************************************************************)
EXTENDS MCData, Judge

CONSTANTS E, Deep, Room      \* Room: the error stays below Tolerance/Room
VARIABLES m, lin, g, fma, sel, pt
vars == <<m, lin, g, fma, sel, pt>>

-----------------------------------------------------------------------------
(* Floating point *)
RECURSIVE Exp_(_, _, _)
Exp_(a, lo, hi) ==       \* the k in lo..hi-1 with 2^k <= a < 2^(k+1)
  IF hi - lo = 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF RLe(RPow2(mid), a) THEN Exp_(a, mid, hi) ELSE Exp_(a, lo, mid)
Rnd(v) ==
  IF RSign(v) = 0 THEN v
  ELSE LET q == RPow2(Exp_(RAbs(v), -150, 150) - E + 1) s == RDiv(v, q) f == RFloor(s) r == RSub(s, RInt(f))
       IN  RMul(q, RInt(IF RLt(r, Half) THEN f ELSE IF RLt(Half, r) THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1))
Add(a, b) == Rnd(RAdd(a, b))
Sub(a, b) == Rnd(RSub(a, b))
Mul(a, b) == Rnd(RMul(a, b))
Div(a, b) == Rnd(RDiv(a, b))
Fma(a, b, c) == IF fma THEN Rnd(RAdd(RMul(a, b), c)) ELSE Add(Mul(a, b), c)

(* The kernels, as in the code *)
Spline(t, y0, dy, k0, k1) ==
  LET a == Sub(k0, dy) b == Add(RNeg(k1), dy) c1 == Add(dy, a) c2 == Sub(b, Add(a, a)) c3 == Sub(a, b)
  IN  Fma(t, Fma(t, Fma(t, c3, c2), c1), y0)
Diff(y0, y1, y2, h01, h12) ==
  LET s == Add(h01, h12)
  IN  Fma(Div(h01, s), Div(Sub(y2, y1), h12), Mul(Div(h12, s), Div(Sub(y1, y0), h01)))
Edge(y0, y1, k0, t, out) ==        \* quadratic from y0 (t = 0) to y1, inner slope k0
  LET dy == Sub(y1, y0) k1 == Sub(Mul(Two, dy), k0)
  IN  IF out /\ lin THEN Fma(k1, Sub(t, One), y1) ELSE Spline(t, y0, dy, k0, k1)

Axes == <<Aff(4, -1, 1), Aff(6, 100, "1/4"), List(<<0, 1, 3, 4>>), List(<<-2, -1, "1/2", 1, 5>>),
          List(<<1000, "2001/2", 1001, 1003, 1019>>), List(<<-3, "-95/32", 5, 6, 7>>)>>
        \o (IF Deep THEN <<Aff(5, -4096, "1/8"), Aff(8, 3, 96), List(<<"1/64", "1/32", 1, 64, 4096>>), List(<<-8, -7, 0, "1/128", "1/64", 9>>)>> ELSE <<>>)
Kinds == [d \in 1..Len(Axes) |-> Axes[d].k]
axes == [d \in 1..Len(sel) |-> Axes[sel[d]]]
N == Len(sel)
Datum(ix) == RInt(((IF N = 1 THEN ix[1] * ix[1] * ix[1] * 5 + ix[1] * 3 ELSE ix[1] * ix[1] * 7 + ix[2] * ix[2] * ix[2] * 5 + ix[1] * ix[2]) % 41) - 20)
Grid(ax, i) == Rnd(Coord(ax, i))
Kernel(ax, x, v(_)) ==
  LET n == ALen(ax)
      i == Cell(ax, x)
      reg == g = "regular"
      W(j) == IF reg THEN Width(ax, 0) ELSE Sub(Grid(ax, j + 1), Grid(ax, j))
      T(j) == IF reg THEN Div(Sub(x, Add(RParse(ax.s), Mul(Width(ax, 0), RInt(j)))), Width(ax, 0)) ELSE Div(Sub(x, Grid(ax, j)), W(j))
  IN  IF m = "linear" THEN Fma(T(i), Sub(v(i + 1), v(i)), v(i))
      ELSE IF i = 0
      THEN LET t == RNeg(IF reg THEN T(1) ELSE Div(Sub(x, Grid(ax, 1)), W(0)))
               k0 == IF reg THEN RNeg(Div(Sub(v(2), v(0)), Two)) ELSE RNeg(Diff(v(0), v(1), v(2), One, Div(W(1), W(0))))
           IN  Edge(v(1), v(0), k0, t, Side(ax, x) = "low")
      ELSE IF i = n - 2
      THEN LET t == IF reg THEN Sub(T(n - 3), One) ELSE T(n - 2)
               k0 == IF reg THEN Div(Sub(v(n - 1), v(n - 3)), Two) ELSE Diff(v(n - 3), v(n - 2), v(n - 1), Div(W(n - 3), W(n - 2)), One)
           IN  Edge(v(n - 2), v(n - 1), k0, t, Side(ax, x) = "high")
      ELSE LET k0 == IF reg THEN Div(Sub(v(i + 1), v(i - 1)), Two) ELSE Diff(v(i - 1), v(i), v(i + 1), Div(W(i - 1), W(i)), One)
               k1 == IF reg THEN Div(Sub(v(i + 2), v(i)), Two) ELSE Diff(v(i), v(i + 1), v(i + 2), One, Div(W(i + 1), W(i)))
           IN  Spline(T(i), v(i), Sub(v(i + 1), v(i)), k0, k1)
Rounded(x) ==
  IF N = 1 THEN LET v(j) == Datum(<<j>>) IN Kernel(axes[1], x[1], v)
  ELSE LET row(j) == LET v(q) == Datum(<<q, j>>) IN Kernel(axes[1], x[1], v) IN Kernel(axes[2], x[2], row)

P == [m |-> m, lin |-> lin, g |-> g,
      dims |-> IF g = "regular" THEN [d \in 1..N |-> ALen(axes[d])] ELSE <<>>,
      starts |-> IF g = "regular" THEN [d \in 1..N |-> axes[d].s] ELSE <<>>,
      steps |-> IF g = "regular" THEN [d \in 1..N |-> axes[d].h] ELSE <<>>,
      grids |-> IF g = "regular" THEN <<>> ELSE axes,
      vals |-> LET n1 == ALen(axes[1]) n2 == IF N = 2 THEN ALen(axes[2]) ELSE 1
               IN  List([k \in 1..(n1 * n2) |-> RShow(IF N = 1 THEN Datum(<<k - 1>>) ELSE Datum(<<(k - 1) \div n2, (k - 1) % n2>>))])]
\* positions that are floating-point numbers, away from where rounding decides the cell
Fine(ax) == {RShow(Rnd(RParse(c))) : c \in Positions(ax)} \cup
            {RShow(Rnd(RAdd(Coord(ax, i), RMul(R(1, w), Width(ax, i))))) : i \in 0..(ALen(ax) - 2), w \in {7, 1001}}
Init == /\ m \in {"linear", "cubic"} /\ lin \in (IF m = "cubic" THEN BOOLEAN ELSE {FALSE}) /\ fma \in BOOLEAN
        /\ g \in {"regular", "rectilinear"}
        /\ \E n \in 1..2 : sel \in {s \in [1..n -> 1..Len(Axes)] : (\A d \in 1..n : g = "regular" => Kinds[s[d]] = "aff")
                                                                  /\ (n = 2 => s[1] # s[2] /\ (s[1] + s[2]) % (IF Deep THEN 4 ELSE 3) = 0)}
        /\ pt = <<>>
Pts(ax) == IF N = 1 THEN Fine(ax) ELSE {RShow(Rnd(RParse(c))) : c \in Places(ax)}
Next == /\ Len(pt) < N /\ \E c \in Pts(axes[Len(pt) + 1]) : pt' = Append(pt, c)
        /\ UNCHANGED <<m, lin, g, fma, sel>>
X == [d \in 1..Len(pt) |-> RParse(pt[d])]
-----------------------------------------------------------------------------
Done == Len(pt) = N
Err == RAbs(RSub(Rounded(X), Value(P, X)))
WithinTolerance == Done => RLe(RMul(Room, Err), Tolerance(E, P, X))
\* and the tolerance is far from vacuous: it stays small against the data
Meaningful == (Done /\ AllInside(P, X) /\ RLt(Cond_(P, X, 1), RInt(100)) /\ RLt(AbsSums_(AxisWeights(P, X), 1), RInt(5))) => RLe(Tolerance(E, P, X), RMul(RPow2(18 - E), VBound(P.vals)))
Room8 == RInt(8)
Room1024 == RInt(1024)
Room64 == RInt(64)
Room256 == RInt(256)
RoundsOnce == Done => \A d \in 1..N : REq(Rnd(X[d]), X[d])
=============================================================================
