------------------------------- MODULE MCOneD -------------------------------
(***************************************************************************)
(* The one-dimensional interpolators and the grid lookup, exhaustively on  *)
(* small grids.  The code's lookup (floor or bisection, clipped, with a    *)
(* three-way position flag) and its choice between the two looked-up       *)
(* values are modelled as they are and compared with OneD.tla; OneD.tla    *)
(* itself is compared with the N-dimensional methods.                      *)
(* With Record = TRUE each grid is printed as a session.                   *)
(***************************************************************************)
EXTENDS OneD, MCData, Json

CONSTANTS Deep, Record
VARIABLES g, k, pos
vars == <<g, k, pos>>

Cat(gg) == IF gg = "regular"
           THEN <<Aff(2, -1, 2), Aff(3, 0, "1/2"), Aff(5, -2, "1/4"), Aff(9, 100, 3)>> \o (IF Deep THEN <<Aff(17, "-1/3", "1/7"), Aff(2, 0, 1000), Aff(33, -5, "1/8")>> ELSE <<>>)
           ELSE <<List(<<0, 3>>), List(<<-1, 1, 2>>), List(<<0, "1/2", 2, 3>>), List(<<-4, -3, "-5/2", 6, 7, 107>>), Alt(8, 0, 1, "1/16")>>
                \o (IF Deep THEN <<Alt(21, -7, "1/3", 2), List(<<0, "1/1000", 1, 1000, 1001>>)>> ELSE <<>>)
ax == Cat(g)[k]
n == ALen(ax)
x == RParse(pos)
y(i) == Mixed(i)
P == [m |-> "linear", g |-> g, lin |-> FALSE,
      dims |-> IF g = "regular" THEN <<n>> ELSE <<>>, starts |-> IF g = "regular" THEN <<ax.s>> ELSE <<>>,
      steps |-> IF g = "regular" THEN <<ax.h>> ELSE <<>>, grids |-> IF g = "regular" THEN <<>> ELSE <<ax>>,
      vals |-> List([i \in 1..n |-> RShow(Mixed(i - 1))])]
Init == g \in {"regular", "rectilinear"} /\ k \in 1..Len(Cat(g)) /\ pos = ""
Next == pos = "" /\ pos' \in Positions(ax) /\ UNCHANGED <<g, k>>
Done == pos # ""

-----------------------------------------------------------------------------
(* The code *)
Clip(i) == IMax(0, IMin(i, n - 2))
RECURSIVE Below(_, _)
Below(lo, hi) == IF lo >= hi THEN lo
                 ELSE LET mid == (lo + hi) \div 2 IN IF RLt(Coord(ax, mid), x) THEN Below(mid + 1, hi) ELSE Below(lo, mid)
Index == IF g = "regular" THEN Clip(RFloor(RDiv(RSub(x, First(ax)), Width(ax, 0)))) ELSE Clip(Below(0, n) - 1)
Stop == IF g = "regular" THEN RAdd(First(ax), RMul(Width(ax, 0), RInt(n - 1))) ELSE Coord(ax, n - 1)
Flag == IF RLt(Stop, x) THEN "high" ELSE IF RLt(x, First(ax)) THEN "low" ELSE "in"
X0 == Coord(ax, Index)  X1 == Coord(ax, Index + 1)
LeftCode == IF Flag = "high" THEN Index + 1 ELSE Index
RightCode == IF Flag = "low" THEN Index ELSE Index + 1
NearCode == IF Flag = "low" THEN Index ELSE IF Flag = "high" THEN Index + 1
            ELSE IF RLe(RAbs(RSub(x, X0)), RAbs(RSub(x, X1))) THEN Index ELSE Index + 1
LinCode == RAdd(y(Index), RMul(RDiv(RSub(y(Index + 1), y(Index)), RSub(X1, X0)), RSub(x, X0)))
HoldCode == CASE Flag = "low" -> y(Index) [] Flag = "high" -> y(Index + 1) [] OTHER -> LinCode

-----------------------------------------------------------------------------
LookupRight == Done => Index \in LookupCells(ax, x, Zero) /\ LookupFlags(ax, x, Zero) = {Flag}
HoldsRight == Done => /\ LeftCode \in HoldNodes("left", ax, x, Zero)
                      /\ RightCode \in HoldNodes("right", ax, x, Zero)
                      /\ NearCode \in HoldNodes("nearest", ax, x, Zero)
LinearRight == Done => REq(LinCode, Linear1(P, x)) /\ REq(HoldCode, HoldLast1(P, x))
\* strictly between two nodes, the set of admissible nodes is exactly the neighbour
Between(i) == RLt(Coord(ax, i), x) /\ RLt(x, Coord(ax, i + 1))
HoldsMean ==
  Done =>
    /\ \A i \in 0..(n - 2) : Between(i) => /\ HoldNodes("left", ax, x, Zero) = {i} /\ HoldNodes("right", ax, x, Zero) = {i + 1}
    /\ RLt(x, First(ax)) => \A w \in {"left", "right", "nearest"} : HoldNodes(w, ax, x, Zero) = {0}
    /\ RLt(Last(ax), x) => \A w \in {"left", "right", "nearest"} : HoldNodes(w, ax, x, Zero) = {n - 1}
\* the N-dimensional methods with one axis
LikeNd == Done => /\ REq(Linear1(P, x), Value(P, <<x>>))
                  /\ LET Q == [P EXCEPT !.m = "nearest"] IN
                     HoldNodes("nearest", ax, x, Zero) = {NearestNode(ax, x)} /\ REq(Value(Q, <<x>>), y(NearestNode(ax, x)))
\* reversing the axis turns left into right
Rev == List([i \in 1..n |-> RNeg(Coord(ax, n - i))])
Mirrored == Done => \A i \in HoldNodes("left", ax, x, Zero) : (n - 1 - i) \in HoldNodes("right", Rev, RNeg(x), Zero)
Meets == Done /\ Side(ax, x) = "in" => REq(HoldLast1(P, x), Linear1(P, x))
GridAccepted == Grid1Ok(P)

-----------------------------------------------------------------------------
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE q \in S : TRUE IN <<e>> \o ToSeq(S \ {e})
Halt == FALSE /\ UNCHANGED vars
Printed == (Record /\ pos = "") =>
             PrintT("SESSION " \o ToJson([p |-> P, xs |-> ToSeq(Positions(ax))]))
=============================================================================
