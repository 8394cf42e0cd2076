------------------------------- MODULE MCAxis -------------------------------
(***************************************************************************)
(* The axis curves, exhaustively on small axes: every method, every        *)
(* position of Positions, generic and unit data.  Each state is one        *)
(* (method, axis, position); the invariants are the listed properties in   *)
(* one dimension.  The tensor product carries them to N dimensions         *)
(* (MCInterp).                                                             *)
(***************************************************************************)
EXTENDS MCData, Json

CONSTANT Deep
VARIABLES m, lin, k, pos      \* method, setting, axis number, position (as text)
vars == <<m, lin, k, pos>>

LongAxes == <<List(<<0, 1, 2, 3>>), List(<<0, 1, 3, 4>>), List(<<-2, -1, "1/2", 1, 5>>), List(<<-3, 5, 6, "13/2", 7>>),
              List(<<0, "1/64", 1, 2, 3, 67>>), Alt(6, -1, 1, 3), Aff(6, -2, "1/2")>>
MoreAxes == <<List(<<1, 2, 4, 8, 16, 32, 64>>), List(<<-7, -6, "-11/2", -5, 0, 1, 9>>), List(<<100000, 100001, 100003, 100004>>),
              List(<<0, 1000, 1001, 1002, 2002>>), List(<<"-1/3", 0, "1/7", "1/2", 1>>), Aff(9, "-1/3", "1/7"), Aff(5, 100000, 1),
              Alt(9, 0, "1/1000", 1), Alt(8, 3, 7, 2), Aff(4, 0, 1000000)>>
ShortAxes == <<List(<<0, 1>>), List(<<-1, 4>>), List(<<0, 1, 3>>), List(<<"-1/2", 0, 5>>), Aff(2, -2, "1/2"), Aff(3, 0, 2)>>
Axes == LongAxes \o (IF Deep THEN MoreAxes ELSE <<>>) \o (IF m = "cubic" THEN <<Aff(4, -2, 1), Aff(5, -2, "1/2")>> ELSE ShortAxes)
ax == Axes[k]
x == RParse(pos)

Init == /\ m \in {"linear", "nearest", "cubic"}
        /\ lin \in (IF m = "cubic" THEN BOOLEAN ELSE {FALSE})
        /\ k \in 1..Len(Axes) /\ pos = ""
Next == pos = "" /\ pos' \in Positions(ax) /\ UNCHANGED <<m, lin, k>>

-----------------------------------------------------------------------------
C(a, v, y(_)) == Curve(m, lin, a, v, y)
n == ALen(ax)
AsList(a) == List([i \in 1..ALen(a) |-> Coord(a, i - 1)])

\* the cell search finds the enclosing or the edge cell
CellRight_ ==
  LET i == Cell(ax, x) IN
  /\ i \in 0..(n - 2)
  /\ Side(ax, x) = "in" => RLe(Coord(ax, i), x) /\ RLe(x, Coord(ax, i + 1))
  /\ Side(ax, x) = "low" => i = 0
  /\ Side(ax, x) = "high" => i = n - 2
\* C08: a regular axis written out is the same axis
KindsAgree_ == REq(C(AsList(ax), x, Mixed), C(ax, x, Mixed))

\* C01
HitsNodes_ == \A i \in Nodes(ax) : REq(C(ax, Coord(ax, i), Mixed), Mixed(i))
\* C11: the curve is linear in the data, reproduces constants, stays between the neighbours
LinearInData_ == LET w(j) == Weight(m, lin, ax, x, j)
                    RECURSIVE dot(_)
                    dot(j) == IF j < 0 THEN Zero ELSE RAdd(RMul(w(j), Mixed(j)), dot(j - 1))
                IN  REq(dot(n - 1), C(ax, x, Mixed))
ConstantKept_ == LET c(i) == RInt(-5) IN REq(C(ax, x, c), RInt(-5))
Between_ == (m # "cubic" /\ Side(ax, x) = "in") =>
           LET i == Cell(ax, x) v == C(ax, x, Mixed)
           IN  RLe(RMin(Mixed(i), Mixed(i + 1)), v) /\ RLe(v, RMax(Mixed(i), Mixed(i + 1)))
\* C10: outside FootLo..FootHi the weights vanish
FootHolds_ == \A j \in Nodes(ax) : (j < FootLo(m, ax, x) \/ j > FootHi(m, ax, x)) => REq(Weight(m, lin, ax, x, j), Zero)
\* C03
NearestIsNearest_ ==
  m = "nearest" =>
    LET j == NearestNode(ax, x) d(q) == RAbs(RSub(x, Coord(ax, q))) IN
    \A q \in Nodes(ax) : RLt(d(j), d(q)) \/ (REq(d(j), d(q)) /\ j <= q)
\* C07
Square(i) == LET c == Coord(ax, i) IN RAdd(RMul(RInt(3), RMul(c, c)), RSub(c, RInt(7)))
SquareAt(v) == RAdd(RMul(RInt(3), RMul(v, v)), RSub(v, RInt(7)))
Line(i) == RSub(RMul(RInt(2), Coord(ax, i)), RInt(9))
LineAt(v) == RSub(RMul(RInt(2), v), RInt(9))
KeepsLines_ == m # "nearest" => REq(C(ax, x, Line), LineAt(x))
KeepsSquares_ == (m = "cubic" /\ (~lin \/ Side(ax, x) = "in")) => REq(C(ax, x, Square), SquareAt(x))
\* C13: reversing, shifting and scaling the axis
Mirror(a) == List([i \in 1..ALen(a) |-> RNeg(Coord(a, ALen(a) - i))])
Moved(a, sc, sh) == List([i \in 1..ALen(a) |-> RAdd(RMul(sc, Coord(a, i - 1)), sh)])
Tie == m = "nearest" /\ REq(Pos(ax, Cell(ax, x), x), Half)
MirrorSame_ == LET back(i) == Mixed(n - 1 - i) IN Tie \/ REq(C(Mirror(ax), RNeg(x), back), C(ax, x, Mixed))
MoveSame_ == \A sc \in {R(3, 2), R(1, 1000)}, sh \in {RInt(-4), RInt(100000)} :
              REq(C(Moved(ax, sc, sh), RAdd(RMul(sc, x), sh), Mixed), C(ax, x, Mixed))

\* Derivative at v of a polynomial of degree <= 4, from five equally spaced samples
Deriv(f(_), v, h) ==
  RDiv(RAdd(RSub(f(RSub(v, RMul(Two, h))), f(RAdd(v, RMul(Two, h)))),
            RMul(RInt(8), RSub(f(RAdd(v, h)), f(RSub(v, h))))), RMul(RInt(12), h))
\* C04: the cell's cubic has the values and slopes of its nodes at its ends
IsHermite_ ==
  m = "cubic" =>
    \A i \in 0..(n - 2) :
      LET f(v) == CellCubic(ax, i, v, Mixed) h == R(1, 8) IN
      /\ REq(f(Coord(ax, i)), Mixed(i)) /\ REq(f(Coord(ax, i + 1)), Mixed(i + 1))
      /\ REq(Deriv(f, Coord(ax, i), h), Slope(ax, i, Mixed))
      /\ REq(Deriv(f, Coord(ax, i + 1), h), Slope(ax, i + 1, Mixed))
\* the inner slope is exact for parabolas; the edge cells are parabolas
SlopesRight_ ==
  m = "cubic" =>
    /\ \A j \in Nodes(ax) : REq(Slope(ax, j, Square), RAdd(RMul(RInt(6), Coord(ax, j)), One))
    /\ \A i \in {0, n - 2} :
         LET f(q) == CellCubic(ax, i, RAdd(Coord(ax, i), RMul(R(q, 3), Width(ax, i))), Mixed)
         IN  REq(RSub(f(3), f(0)), RMul(RInt(3), RSub(f(2), f(1))))       \* third difference vanishes
\* C05: outside, the curve is the edge parabola or its tangent
Extrapolates_ ==
  m = "cubic" =>
    CASE Side(ax, x) = "in" -> TRUE
      [] lin -> LET q == IF Side(ax, x) = "low" THEN 0 ELSE n - 1
                IN  REq(C(ax, x, Mixed), RAdd(Mixed(q), RMul(Slope(ax, q, Mixed), RSub(x, Coord(ax, q)))))
      [] OTHER -> REq(C(ax, x, Mixed), CellCubic(ax, IF Side(ax, x) = "low" THEN 0 ELSE n - 2, x, Mixed))
\* C06: the pieces meet, for the cubic with the same slope
PiecesMeet_ ==
  m # "nearest" =>
    \A i \in 0..(n - 3) :
      LET v == Coord(ax, i + 1)
          piece(q, u) == IF m = "linear" THEN RAdd(Mixed(q), RMul(Pos(ax, q, u), RSub(Mixed(q + 1), Mixed(q))))
                         ELSE CellCubic(ax, q, u, Mixed)
          l(u) == piece(i, u) r(u) == piece(i + 1, u)
      IN  REq(l(v), r(v)) /\ (m = "cubic" => REq(Deriv(l, v, R(1, 8)), Deriv(r, v, R(1, 8))))
PiecesUsed_ ==      \* Curve is made of these pieces
  m # "nearest" =>
    LET i == Cell(ax, x)
        lo == IF m = "linear" THEN LinearCurve(ax, x, Mixed) ELSE CellCubic(ax, i, x, Mixed)
    IN  (Side(ax, x) = "in" \/ m = "linear" \/ ~lin) => REq(C(ax, x, Mixed), lo)
\* Every axis with its positions, for replay against the library (NEXT Halt)
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE q \in S : TRUE IN <<e>> \o ToSeq(S \ {e})
Halt == FALSE /\ UNCHANGED vars
Printed == PrintT("SESSION " \o ToJson([m |-> m, lin |-> lin, ax |-> ax, vals |-> [i \in 1..n |-> RShow(Mixed(i - 1))], xs |-> ToSeq(Positions(ax))]))
CellRight == pos # "" => CellRight_
KindsAgree == pos # "" => KindsAgree_
LinearInData == pos # "" => LinearInData_
ConstantKept == pos # "" => ConstantKept_
Between == pos # "" => Between_
FootHolds == pos # "" => FootHolds_
NearestIsNearest == pos # "" => NearestIsNearest_
KeepsLines == pos # "" => KeepsLines_
KeepsSquares == pos # "" => KeepsSquares_
MirrorSame == pos # "" => MirrorSame_
MoveSame == pos # "" => MoveSame_
Extrapolates == pos # "" => Extrapolates_
PiecesUsed == pos # "" => PiecesUsed_
\* these do not speak of the position
HitsNodes == pos = "" => HitsNodes_
IsHermite == pos = "" => IsHermite_
SlopesRight == pos = "" => SlopesRight_
PiecesMeet == pos = "" => PiecesMeet_
=============================================================================
