-------------------------------- MODULE OneD --------------------------------
(***************************************************************************)
(* The one-dimensional interpolators: left hold, right hold, nearest,      *)
(* linear and linear with held ends, and the grid lookup they share.       *)
(***************************************************************************)
EXTENDS Rules

\* p describes the grid: starts[1], steps[1] and the values, or grids[1] and values.
Grid1Ok(p) == IF p.g = "regular" THEN RLe(Two, ValLen(p.vals))
              ELSE ALen(p.grids[1]) >= 2 /\ REq(ValLen(p.vals), RInt(ALen(p.grids[1])))
Axis1(p) == IF p.g = "regular"
            THEN [k |-> "aff", n |-> -(RFloor(RNeg(ValLen(p.vals)))), s |-> p.starts[1], h |-> p.steps[1]]
            ELSE p.grids[1]
Y1(p, i) == RParse(Raw(p.vals, <<ALen(Axis1(p))>>, <<i>>))

\* slack: how far (in cells) rounding may move a point
IsNode1(ax, i, x, slack) == RLe(RAbs(RSub(x, Coord(ax, i))), RMul(slack, Width(ax, IMin(i, ALen(ax) - 2))))
AtNode1(ax, x, slack) == LET i == Cell(ax, x) IN IsNode1(ax, i, x, slack) \/ IsNode1(ax, i + 1, x, slack)

\* Admissible results of the hold interpolators, as a set of node numbers; at
\* a node itself left and right hold may return that node or a neighbour.
HoldNodes(kind, ax, x, slack) ==
  LET i == Cell(ax, x) n == ALen(ax) t == Pos(ax, i, x) s == Side(ax, x)
      strict == IF AtNode1(ax, x, slack)
                THEN LET j == IF RLe(t, Half) THEN i ELSE i + 1
                     IN  {k \in {j - 1, j, j + 1} : k \in 0..(n - 1)}
                ELSE {}
  IN  CASE kind = "nearest" ->
             IF s = "low" THEN {0} ELSE IF s = "high" THEN {n - 1}
             ELSE IF RLe(RAbs(RSub(t, Half)), slack) /\ slack # Zero THEN {i, i + 1}
             ELSE {IF RLe(t, Half) THEN i ELSE i + 1}
        [] s = "low"  -> {0} \cup strict
        [] s = "high" -> {n - 1} \cup strict
        [] strict # {} -> strict
        [] kind = "left"  -> {i}
        [] kind = "right" -> {i + 1}

Linear1(p, x) == LET y(i) == Y1(p, i) IN LinearCurve(Axis1(p), x, y)
HoldLast1(p, x) ==
  LET ax == Axis1(p) s == Side(ax, x)
  IN  CASE s = "low" -> Y1(p, 0) [] s = "high" -> Y1(p, ALen(ax) - 1) [] OTHER -> Linear1(p, x)

\* Grid lookup: the cells it may report and the position flag.
LookupCells(ax, x, slack) ==
  LET i == Cell(ax, x) n == ALen(ax)
  IN  {i} \cup {k \in {i - 1} : k >= 0 /\ IsNode1(ax, i, x, slack)}
          \cup {k \in {i + 1} : k <= n - 2 /\ IsNode1(ax, i + 1, x, slack)}
LookupFlags(ax, x, slack) ==
  LET n == ALen(ax) IN
  {Side(ax, x)} \cup (IF slack # Zero /\ (IsNode1(ax, 0, x, slack)) THEN {"in", "low"} ELSE {})
                \cup (IF slack # Zero /\ (IsNode1(ax, n - 1, x, slack)) THEN {"in", "high"} ELSE {})

Slack1(e, p, x) == IF e = 0 THEN Zero ELSE RMul(RPow2(5 - e), RAdd(One, AxisCond(Axis1(p), x)))
Tol1(e, p, x) ==
  LET ax == Axis1(p) t == Pos(ax, Cell(ax, x), x)
  IN  RMul(RPow2(5 - e), RMul(VBound(p.vals),
           RMul(RAdd(Two, RMul(Two, RAbs(t))), RAdd(One, AxisCond(ax, x)))))
=============================================================================
