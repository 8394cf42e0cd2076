------------------------------ MODULE MCInterp ------------------------------
(***************************************************************************)
(* The N-dimensional interpolant on small problems (one to three axes,     *)
(* every method, regular and rectilinear): the listed properties, stated   *)
(* with the relations of Relations.tla, so that the model also shows that  *)
(* the relations the recorded sessions are held to follow from Value.      *)
(* A state is a problem and one point; the point runs over every           *)
(* combination of Places per axis.                                         *)
(***************************************************************************)
EXTENDS MCData, Relations, Json

CONSTANTS Deep, Methods
VARIABLES m, lin, g, sel, pt      \* sel: which axis of the catalogue per dimension; pt: the point (as text)
vars == <<m, lin, g, sel, pt>>

Cat == IF m = "cubic"
       THEN IF g = "regular" THEN <<Aff(4, -1, 1), Aff(5, 0, "1/2")>>
            ELSE <<List(<<0, 1, 3, 4>>), List(<<-2, -1, "1/2", 1, 5>>)>>
       ELSE IF g = "regular" THEN <<Aff(2, -1, 2), Aff(3, 0, "1/2"), Aff(4, 5, 3)>>
            ELSE <<List(<<0, 3>>), List(<<-1, 1, 2>>), List(<<0, "1/2", 2, 3>>)>>
Few(ax) == {RShow(RSub(First(ax), Width(ax, 0))), RShow(Coord(ax, ALen(ax) - 2)), RShow(RSub(Last(ax), RDiv(Width(ax, ALen(ax) - 2), RInt(3))))}
Dims == 1..(IF Deep THEN 3 ELSE 2)
axes == [d \in 1..Len(sel) |-> Cat[sel[d]]]
Make(as, v, gg) ==
  [m |-> m, lin |-> lin, g |-> gg, vals |-> v,
   dims |-> IF gg = "regular" THEN [d \in DOMAIN as |-> ALen(as[d])] ELSE <<>>,
   starts |-> IF gg = "regular" THEN [d \in DOMAIN as |-> Coord(as[d], 0)] ELSE <<>>,
   steps |-> IF gg = "regular" THEN [d \in DOMAIN as |-> Width(as[d], 0)] ELSE <<>>,
   grids |-> IF gg = "regular" THEN <<>> ELSE as]
Lens(as) == [d \in DOMAIN as |-> ALen(as[d])]
ListVals(f(_), as) == List([j \in 1..SizeOf(Lens(as)) |-> f(Unflat(Lens(as), j - 1))])
Generic(ix) == LET RECURSIVE s(_) s(d) == IF d > Len(ix) THEN 3 ELSE (s(d + 1) * 5 + (d + 1) * ix[d] * ix[d] + ix[d]) % 17
               IN  RInt(s(1) - 8)
Other(ix) == RSub(Generic(ix), RInt(ix[1] * 2 - 3))
P == Make(axes, ListVals(Generic, axes), g)
X == [d \in 1..Len(pt) |-> RParse(pt[d])]

Init == /\ m \in Methods /\ lin \in (IF m = "cubic" THEN BOOLEAN ELSE {FALSE})
        /\ g \in {"regular", "rectilinear"}
        /\ \E n \in Dims : sel \in [1..n -> 1..(IF n = 3 THEN 2 ELSE Len(Cat))]
        /\ pt = <<>>
\* the point is chosen coordinate by coordinate
Next == /\ Len(pt) < Len(sel)
        /\ \E c \in (IF Len(sel) < 3 THEN Places(axes[Len(pt) + 1]) ELSE Few(axes[Len(pt) + 1])) : pt' = Append(pt, c)
        /\ UNCHANGED <<m, lin, g, sel>>

N == Len(sel)
V == Value(P, X)
Done == Len(pt) = N
-----------------------------------------------------------------------------
WellFormed == ProblemOk(P)
\* C01
NodeIx == [d \in 1..N |-> CHOOSE j \in 0..ALen(axes[d]) : j = ALen(axes[d]) \/ REq(Coord(axes[d], j), X[d])]
AtNode_ == (\A d \in 1..N : NodeIx[d] < ALen(axes[d])) => REq(V, Generic(NodeIx))
\* C02..C05: the axis curves one inside the other, in every order of the axes
Tensor_ ==
  LET RECURSIVE f(_, _, _)
      f(pi, k, ix) == IF k > N THEN Generic(ix)
                      ELSE LET y(node) == f(pi, k + 1, [ix EXCEPT ![pi[k]] = node])
                           IN  Curve(m, lin, axes[pi[k]], X[pi[k]], y)
  IN  \A pi \in {q \in [1..N -> 1..N] : IsPerm(q, N)} : REq(f(pi, 1, [d \in 1..N |-> 0]), V)
\* C02: the blend of the 2^N corners of the cell with product weights
Blend_ ==
  m = "linear" =>
    LET i(d) == Cell(axes[d], X[d]) t(d) == Pos(axes[d], i(d), X[d])
        RECURSIVE w(_, _) w(c, d) == IF d > N THEN One ELSE RMul(IF c[d] = 1 THEN t(d) ELSE RSub(One, t(d)), w(c, d + 1))
        RECURSIVE sum(_)
        sum(C) == IF C = {} THEN Zero
                  ELSE LET c == CHOOSE e \in C : TRUE
                       IN  RAdd(RMul(w(c, 1), Generic([d \in 1..N |-> i(d) + c[d]])), sum(C \ {c}))
    IN  REq(V, sum([1..N -> {0, 1}]))
\* C03
PerAxis_ ==
  m = "nearest" =>
    \E ix \in [1..N -> 0..5] :
      /\ \A d \in 1..N : ix[d] < ALen(axes[d])
      /\ \A d \in 1..N : \A q \in 0..(ALen(axes[d]) - 1) :
           LET dist(j) == RAbs(RSub(X[d], Coord(axes[d], j)))
           IN  RLt(dist(ix[d]), dist(q)) \/ (REq(dist(ix[d]), dist(q)) /\ ix[d] <= q)
      /\ REq(V, Generic(ix))
\* C08: the same grid described as rectilinear
AsRect_ == g = "regular" => LET Q == Make([d \in 1..N |-> List([i \in 1..ALen(axes[d]) |-> Coord(axes[d], i - 1)])], P.vals, "rectilinear")
          IN  SameProblem(P, Q) /\ REq(Value(Q, X), V)
\* C12: axes permuted, sliced, extruded
Perms == {pi \in [1..N -> 1..N] : IsPerm(pi, N)}
AxesSwap_ ==
  \A pi \in Perms :
    LET as == [d \in 1..N |-> axes[pi[d]]]
        back(ix) == Generic([e \in 1..N |-> ix[CHOOSE d \in 1..N : pi[d] = e]])
        Q == Make(as, ListVals(back, as), g) Y == [d \in 1..N |-> X[pi[d]]]
    IN  Permuted(P, Q, pi) /\ PermutedPoint(X, Y, pi) /\ REq(Value(Q, Y), V)
Slices_ ==
  N > 1 =>
  \A a \in 1..N : \A j \in 0..(ALen(axes[a]) - 1) :
    LET as == Without(axes, a) f(ix) == Generic(With(ix, a, j))
        Q == Make(as, ListVals(f, as), g) Y == [X EXCEPT ![a] = Coord(axes[a], j)]
    IN  Sliced(P, Q, a, j) /\ SlicedPoint(P, Y, Without(Y, a), a, j) /\ REq(Value(P, Y), Value(Q, Without(Y, a)))
Extrudes_ ==
  \A a \in 1..(N + 1) :
    LET as == With(axes, a, Cat[1]) f(ix) == Generic(Without(ix, a))
        Q == Make(as, ListVals(f, as), g)
    IN  (N < 3) => Extruded(Q, P, a) /\ \A c \in {RInt(-9), R(1, 3), RInt(40)} : REq(Value(Q, With(X, a, c)), V)
\* C11
Combines_ ==
  LET al == R(3, 2) be == RInt(-2) f(ix) == RAdd(RMul(al, Generic(ix)), RMul(be, Other(ix)))
      Q == Make(axes, ListVals(Other, axes), g) S == Make(axes, ListVals(f, axes), g)
  IN  Combined(P, Q, S, al, be) /\ REq(Value(S, X), RAdd(RMul(al, V), RMul(be, Value(Q, X))))
Constant_ == LET c(ix) == RInt(7) IN REq(Value(Make(axes, ListVals(c, axes), g), X), RInt(7))
Range_ == (m # "cubic" /\ AllInside(P, X)) => InRange(P, X, V, Zero)
\* C10: values outside the footprint do not matter
Local_ ==
  LET far(ix) == \E d \in 1..N : ix[d] \notin Foot(P, X, d)
      f(ix) == IF far(ix) THEN RInt(999) ELSE Generic(ix)
      Q == Make(axes, ListVals(f, axes), g)
  IN  LocallySame(P, Q, X) /\ REq(Value(Q, X), V)
\* C13
Moves_ ==
  \A s \in {<<2, 5>>, <<-3, 1>>} :
    LET sc == [d \in 1..N |-> RInt(s[1 + (d % 2)])] sh == [d \in 1..N |-> RInt(d - 4)]
        mv(d, c) == RAdd(RMul(sc[d], c), sh[d])
        nn(d) == ALen(axes[d])
        neg(d) == RSign(sc[d]) < 0
        as == [d \in 1..N |-> LET l == [i \in 1..nn(d) |-> mv(d, Coord(axes[d], IF neg(d) THEN nn(d) - i ELSE i - 1))]
                              IN  IF g = "regular" THEN Aff(nn(d), l[1], RSub(l[2], l[1])) ELSE List(l)]
        f(ix) == Generic([d \in 1..N |-> IF neg(d) THEN nn(d) - 1 - ix[d] ELSE ix[d]])
        Q == Make(as, ListVals(f, as), g) Y == [d \in 1..N |-> mv(d, X[d])]
    IN  Affine(P, Q, sc, sh) /\ AffinePoint(X, Y, sc, sh) /\ (TieOnMirrored(P, X, sc) \/ REq(Value(Q, Y), V))
\* C07, and the closed forms of value arrays
PolyOf(d) == IF m = "cubic" /\ ~lin THEN <<d, -1, "1/2">> ELSE <<d, 2, 0>>
Reproduced_ ==
  LET poly == <<[d \in 1..N |-> PolyOf(d)], [d \in 1..N |-> <<1, d - 2, 0>>]>>
      terms == [r \in 1..2 |-> [d \in 1..N |-> [i \in 1..ALen(axes[d]) |-> PolyAt(poly[r][d], Coord(axes[d], i - 1))]]]
      sep == [k |-> "sep", dims |-> Lens(axes), terms |-> terms]
      Q == Make(axes, sep, g)
      f(ix) == SepSum_(terms, ix, 1)
      L == Make(axes, ListVals(f, axes), g)
  IN  /\ Samples(Q, poly) /\ REq(Value(Q, X), Value(L, X))
      /\ m # "nearest" => (Reproduces(Q, poly, X) => REq(Value(Q, X), PolySum_(poly, X, 1)))
      /\ (m = "cubic" \/ (m = "linear" /\ lin = FALSE)) => (Reproduces(Q, poly, X) \/ (lin /\ ~AllInside(Q, X)) \/ m = "linear" \/ lin)
\* C06: across the face through the point, on every axis on which it is a node
Smooth_ ==
  m # "nearest" =>
  \A a \in 1..N :
    (NodeIx[a] < ALen(axes[a])) =>
      LET h == R(1, 16) xs == [j \in 1..9 |-> [X EXCEPT ![a] = RAdd(X[a], RMul(RInt(j - 5), h))]]
      IN  Straddles(P, xs, a, h) /\ Continuous(m, [j \in 1..9 |-> Value(P, xs[j])], Zero)
\* Every problem with its places, for replay against the library (NEXT Halt)
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE q \in S : TRUE IN <<e>> \o ToSeq(S \ {e})
Shown(s) == [i \in DOMAIN s |-> RShow(s[i])]
Halt == FALSE /\ UNCHANGED vars
Printed ==
  PrintT("SESSION " \o ToJson([p |-> [m |-> m, lin |-> lin, g |-> g, dims |-> P.dims, starts |-> Shown(P.starts), steps |-> Shown(P.steps),
                                      grids |-> P.grids, vals |-> List(Shown(P.vals.v))],
                               xs |-> [d \in 1..N |-> ToSeq(IF N < 3 THEN Places(axes[d]) ELSE Few(axes[d]))]]))
AtNode == Done => AtNode_
Tensor == Done => Tensor_
Blend == Done => Blend_
PerAxis == Done => PerAxis_
AsRect == Done => AsRect_
AxesSwap == Done => AxesSwap_
Slices == Done => Slices_
Extrudes == Done => Extrudes_
Combines == Done => Combines_
Constant == Done => Constant_
Range == Done => Range_
Local == Done => Local_
Moves == Done => Moves_
Reproduced == Done => Reproduced_
Smooth == Done => Smooth_
=============================================================================
