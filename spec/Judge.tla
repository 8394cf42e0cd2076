------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* When a recorded result counts as right.  s gives the precision s.e      *)
(* (bits, 0 = exact arithmetic) and the obligations s.chk to hold it to.   *)
(***************************************************************************)
EXTENDS Rules, Relations

(* Obligations on the result y of one point x of problem p *)

Near(s, p, x, y, v) == /\ IsNum(y)
                       /\ IF s.e = 0 THEN REq(RParse(y), v)
                          ELSE RLe(RAbs(RSub(RParse(y), v)), Tolerance(s.e, p, x))
RECURSIVE NearSet_(_, _, _, _, _)
NearSet_(e, p, x, d, ix) ==     \* nodes a rounded nearest-neighbour may choose
  IF d > Len(x) THEN {ix}
  ELSE UNION {NearSet_(e, p, x, d + 1, Append(ix, k)) : k \in NearNodes(e, Axis(p, d), RParse(x[d]))}
IsValue(s, p, x, y) ==
  IF p.m = "nearest" /\ s.e # 0
  THEN \E ix \in NearSet_(s.e, p, x, 1, <<>>) : SameNum(y, Raw(p.vals, Shape(p), ix))
  ELSE Near(s, p, x, y, Value(p, x))
\* A node of the grid, as <<index, ...>> or <<>>
NodeAt(p, x) ==
  LET c == [d \in 1..Len(x) |-> LET ax == Axis(p, d) v == RParse(x[d]) k == Cell(ax, v)
                                IN  IF REq(Coord(ax, k), v) THEN k
                                    ELSE IF REq(Coord(ax, k + 1), v) THEN k + 1 ELSE -1]
  IN  IF \E d \in 1..Len(x) : c[d] = -1 THEN <<>> ELSE c

Obligation(c, s, p, x, y) ==
  CASE c = "value"   -> IsValue(s, p, x, y)
    [] c = "node"    -> LET ix == NodeAt(p, x) IN
                        ix = <<>> \/ Near(s, p, x, y, RParse(Raw(p.vals, Shape(p), ix)))
    [] c = "inside"  -> ~AllInside(p, x) \/ IsValue(s, p, x, y)
    [] c = "outside" -> AllInside(p, x) \/ IsValue(s, p, x, y)
    [] c = "range"   -> p.m \notin {"linear", "nearest"} \/ ~AllInside(p, x)
                          \/ InRange(p, x, y, IF s.e = 0 THEN Zero ELSE Tolerance(s.e, p, x))
    [] c = "const"   -> p.vals.k # "lcg" \/ p.vals.p # 1
                          \/ Near(s, p, x, y, RInt(-(p.vals.off)))
    [] OTHER -> TRUE
\* Numbers so large, or so small, that intermediate results may leave the
\* range of the type are not judged.
InFloatRange(e, p, x) ==
  LET top == IF e = 24 THEN 70 ELSE 400
      v == VBound(p.vals)
  IN  IF p.m = "nearest" THEN RLt(v, RPow2(top))
      ELSE /\ RLt(RMul(v, AbsSums_(AxisWeights(p, x), 1)), RPow2(top))
           /\ REq(v, Zero) \/ RLt(RPow2(-top), v)
Judged(s, p, x) == s.e = 0 \/ (Plain(p, x) /\ InFloatRange(s.e, p, x))
PointOk(s, p, x, y) ==
  (Finite(x) /\ Judged(s, p, x)) => \A k \in 1..Len(s.chk) : Obligation(s.chk[k], s, p, x, y)

=============================================================================
