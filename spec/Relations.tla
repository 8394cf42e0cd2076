----------------------------- MODULE Relations -----------------------------
(***************************************************************************)
(* Properties that relate several evaluations.  Each relation has an       *)
(* antecedent on the problems (checked here, so a trace cannot claim a     *)
(* relation that does not hold), one on the points, and a consequence on   *)
(* the recorded results.                                                   *)
(***************************************************************************)
EXTENDS Rules

IndexSet(dims) == {ix \in [1..Len(dims) -> 0..(CHOOSE m \in {dims[d] : d \in 1..Len(dims)} :
                             \A d \in 1..Len(dims) : dims[d] <= m)] : \A d \in 1..Len(dims) : ix[d] < dims[d]}
Unflat(dims, k) ==
  LET RECURSIVE st(_) 
      st(d) == IF d > Len(dims) THEN 1 ELSE dims[d] * st(d + 1)
  IN  [d \in 1..Len(dims) |-> (k \div st(d + 1)) % dims[d]]
RECURSIVE Size_(_, _)
Size_(dims, d) == IF d > Len(dims) THEN 1 ELSE dims[d] * Size_(dims, d + 1)
SizeOf(dims) == Size_(dims, 1)

Val(p, ix) == Raw(p.vals, Shape(p), ix)

\* Every value of p2 is the value of p1 at the mapped index
ValuesFrom(p2, p1, map(_)) ==
  LET s1 == TLCEval(Shape(p1)) s2 == TLCEval(Shape(p2)) IN
  \A k \in 0..(SizeOf(s2) - 1) :
     LET ix == Unflat(s2, k) IN SameNum(Raw(p2.vals, s2, ix), Raw(p1.vals, s1, map(ix)))

AxisSame(a, b) == \/ a = b
                  \/ ALen(a) = ALen(b) /\ \A i \in 0..(ALen(a) - 1) : REq(Coord(a, i), Coord(b, i))
SameMethod(p1, p2) == p1.m = p2.m /\ (p1.m = "cubic" => p1.lin = p2.lin)

\* --- same problem, possibly described as regular and as rectilinear grid
SameProblem(p1, p2) ==
  \/ p1 = p2
  \/ /\ SameMethod(p1, p2) /\ NDims(p1) = NDims(p2)
     /\ \A d \in 1..NDims(p1) : AxisSame(Axis(p1, d), Axis(p2, d))
     /\ LET id(ix) == ix IN p1.vals = p2.vals \/ ValuesFrom(p2, p1, id)
SamePoint(x1, x2) == Len(x1) = Len(x2) /\ \A d \in 1..Len(x1) : SameNum(x1[d], x2[d])

\* --- axes reordered: axis d of p2 is axis pi[d] of p1
IsPerm(pi, n) == Len(pi) = n /\ \A d \in 1..n : \E e \in 1..n : pi[e] = d
Permuted(p1, p2, pi) ==
  /\ SameMethod(p1, p2) /\ p1.g = p2.g /\ NDims(p1) = NDims(p2) /\ IsPerm(pi, NDims(p1))
  /\ \A d \in 1..Len(pi) : AxisSame(Axis(p2, d), Axis(p1, pi[d]))
  /\ IF p1.vals.k = "sep" /\ p2.vals.k = "sep"
     THEN /\ Len(p1.vals.terms) = Len(p2.vals.terms)
          /\ \A r \in 1..Len(p1.vals.terms) : \A d \in 1..Len(pi) :
                p2.vals.terms[r][d] = p1.vals.terms[r][pi[d]]
     ELSE LET inv(ix) == [e \in 1..Len(pi) |-> ix[CHOOSE d \in 1..Len(pi) : pi[d] = e]]
          IN  ValuesFrom(p2, p1, inv)
PermutedPoint(x1, x2, pi) == \A d \in 1..Len(pi) : SameNum(x2[d], x1[pi[d]])

\* --- p2 is p1 with axis a fixed at node k
Without(s, a) == [d \in 1..(Len(s) - 1) |-> IF d < a THEN s[d] ELSE s[d + 1]]
With(s, a, v) == [d \in 1..(Len(s) + 1) |-> IF d < a THEN s[d] ELSE IF d = a THEN v ELSE s[d - 1]]
Sliced(p1, p2, a, k) ==
  /\ SameMethod(p1, p2) /\ p1.g = p2.g /\ NDims(p2) = NDims(p1) - 1
  /\ \A d \in 1..NDims(p2) : AxisSame(Axis(p2, d), Axis(p1, IF d < a THEN d ELSE d + 1))
  /\ LET put(ix) == With(ix, a, k) IN ValuesFrom(p2, p1, put)
SlicedPoint(p1, x1, x2, a, k) ==
  /\ SamePoint(Without(x1, a), x2) /\ REq(RParse(x1[a]), Coord(Axis(p1, a), k))
\* --- p1 is p2 with a further axis a along which the data do not vary
Extruded(p1, p2, a) == \A k \in 0..(ALen(Axis(p1, a)) - 1) : Sliced(p1, p2, a, k)

\* --- axis d of p2 is sc[d]*x + sh[d], reversed when sc[d] < 0
AffineAxis(a1, a2, sc, sh) ==
  /\ ALen(a1) = ALen(a2)
  /\ \A i \in 0..(ALen(a1) - 1) :
       REq(Coord(a2, IF RSign(sc) < 0 THEN ALen(a1) - 1 - i ELSE i), RAdd(RMul(sc, Coord(a1, i)), sh))
Affine(p1, p2, sc, sh) ==
  /\ SameMethod(p1, p2) /\ p1.g = p2.g /\ NDims(p1) = NDims(p2)
  /\ \A d \in 1..NDims(p1) : AffineAxis(Axis(p1, d), Axis(p2, d), RParse(sc[d]), RParse(sh[d]))
  /\ LET flip(ix) == [d \in 1..Len(ix) |-> IF RSign(RParse(sc[d])) < 0
                                           THEN ALen(Axis(p1, d)) - 1 - ix[d] ELSE ix[d]]
     IN  ValuesFrom(p2, p1, flip)
AffinePoint(x1, x2, sc, sh) ==
  \A d \in 1..Len(x1) : REq(RParse(x2[d]), RAdd(RMul(RParse(sc[d]), RParse(x1[d])), RParse(sh[d])))
TieOnMirrored(p1, x1, sc) ==
  /\ p1.m = "nearest"
  /\ \E d \in 1..Len(x1) : /\ RSign(RParse(sc[d])) < 0
                           /\ LET ax == Axis(p1, d) x == RParse(x1[d])
                              IN  REq(Pos(ax, Cell(ax, x), x), Half)

\* --- same axes, values of p3 = al * values of p1 + be * values of p2
SameAxes(p1, p2) == /\ SameMethod(p1, p2) /\ NDims(p1) = NDims(p2)
                    /\ \A d \in 1..NDims(p1) : AxisSame(Axis(p1, d), Axis(p2, d))
Combined(p1, p2, p3, al, be) ==
  /\ SameAxes(p1, p2) /\ SameAxes(p1, p3)
  /\ LET s == TLCEval(Shape(p1)) IN
     \A k \in 0..(SizeOf(s) - 1) :
       LET ix == Unflat(s, k)
       IN  REq(RParse(Raw(p3.vals, s, ix)),
               RAdd(RMul(al, RParse(Raw(p1.vals, s, ix))), RMul(be, RParse(Raw(p2.vals, s, ix)))))

\* --- p2 has the values of p1 at all nodes that may influence the result at x
\* (a point on a node belongs to the cells on both sides of it)
FootMin(p, x, d) ==
  LET ax == Axis(p, d) v == RParse(x[d]) i == Cell(ax, v) l == FootLo(p.m, ax, v)
  IN  IF REq(Coord(ax, i), v) THEN IMax(0, l - 1) ELSE l
FootMax(p, x, d) ==
  LET ax == Axis(p, d) v == RParse(x[d]) i == Cell(ax, v) h == FootHi(p.m, ax, v)
  IN  IF REq(Coord(ax, i + 1), v) THEN IMin(ALen(ax) - 1, h + 1) ELSE h
Foot(p, x, d) == FootMin(p, x, d)..FootMax(p, x, d)
RECURSIVE FootAgree_(_, _, _, _, _)
FootAgree_(p1, p2, x, d, ix) ==
  IF d > Len(x) THEN SameNum(Raw(p1.vals, Shape(p1), ix), Raw(p2.vals, Shape(p2), ix))
  ELSE \A k \in Foot(p1, x, d) : FootAgree_(p1, p2, x, d + 1, Append(ix, k))
\* a box of unchanged values that contains the footprint
BoxHolds(p1, p2, x) ==
  /\ p2.vals.k = "box" /\ p2.vals.base = p1.vals
  /\ \A d \in 1..Len(x) : /\ p2.vals.lo[d] <= FootMin(p1, x, d)
                          /\ FootMax(p1, x, d) <= p2.vals.hi[d]
LocallySame(p1, p2, x) == SameAxes(p1, p2) /\ (BoxHolds(p1, p2, x) \/ FootAgree_(p1, p2, x, 1, <<>>))

\* --- values at the nodes of the cell of x
RECURSIVE CornerRange_(_, _, _, _)
CornerRange_(p, x, d, ix) ==        \* <<least, greatest>>
  IF d > Len(x) THEN LET v == RParse(Raw(p.vals, Shape(p), ix)) IN <<v, v>>
  ELSE LET i == Cell(Axis(p, d), RParse(x[d]))
           a == CornerRange_(p, x, d + 1, Append(ix, i)) b == CornerRange_(p, x, d + 1, Append(ix, i + 1))
       IN  <<RMin(a[1], b[1]), RMax(a[2], b[2])>>
InRange(p, x, y, tol) ==
  LET c == CornerRange_(p, x, 1, <<>>)
  IN  /\ IsNum(y) /\ RLe(RSub(c[1], tol), RParse(y)) /\ RLe(RParse(y), RAdd(c[2], tol))

\* --- the data sample a sum of products of per-axis polynomials
\* coefficients c = <<c0, c1, c2>> in increasing order
RECURSIVE Poly_(_, _, _)
Poly_(c, x, k) == IF k > Len(c) THEN Zero ELSE RAdd(RParse(c[k]), RMul(x, Poly_(c, x, k + 1)))
PolyAt(c, x) == Poly_(c, x, 1)
RECURSIVE PolyTerm_(_, _, _)
PolyTerm_(t, x, d) == IF d > Len(x) THEN One ELSE RMul(PolyAt(t[d], RParse(x[d])), PolyTerm_(t, x, d + 1))
RECURSIVE PolySum_(_, _, _)
PolySum_(ts, x, r) == IF r > Len(ts) THEN Zero ELSE RAdd(PolyTerm_(ts[r], x, 1), PolySum_(ts, x, r + 1))
Samples(p, poly) ==
  /\ p.vals.k = "sep" /\ Len(p.vals.terms) = Len(poly)
  /\ \A r \in 1..Len(poly) : \A d \in 1..NDims(p) : \A i \in 0..(ALen(Axis(p, d)) - 1) :
        REq(RParse(p.vals.terms[r][d][i + 1]), PolyAt(poly[r][d], Coord(Axis(p, d), i)))
Degree(c) == CHOOSE k \in 0..Len(c) : /\ \A i \in (k + 2)..Len(c) : RSign(RParse(c[i])) = 0
                                      /\ k = 0 \/ (k + 1 <= Len(c) /\ RSign(RParse(c[k + 1])) # 0)
MaxDegree(poly) == CHOOSE k \in 0..9 :
   /\ \A r \in 1..Len(poly) : \A d \in 1..Len(poly[r]) : Degree(poly[r][d]) <= k
   /\ \E r \in 1..Len(poly) : \E d \in 1..Len(poly[r]) : Degree(poly[r][d]) = k
AllInside(p, x) == \A d \in 1..Len(x) : Side(Axis(p, d), RParse(x[d])) = "in"
Reproduces(p, poly, x) ==       \* must the method reproduce the polynomial at x?
  LET k == MaxDegree(poly) IN
  \/ k <= 1 /\ p.m \in {"linear", "cubic"}
  \/ k <= 2 /\ p.m = "cubic" /\ (~p.lin \/ AllInside(p, x))

\* --- nine equally spaced points across the coordinate x[5][a]: on either side
\* the results lie on a polynomial of degree <= 3, so four of them determine
\* its value and slope at the middle.
Straddles(p, xs, a, h) ==
  LET ax == Axis(p, a) n == ALen(ax) c == RParse(xs[5][a])
      on == \E k \in 0..(n - 1) : REq(Coord(ax, k), c)
      left == RSub(c, RMul(RInt(4), h)) right == RAdd(c, RMul(RInt(4), h))
      free(u, v) == \A k \in 0..(n - 1) : ~(RLt(u, Coord(ax, k)) /\ RLt(Coord(ax, k), v))
  IN  /\ Len(xs) = 9 /\ RLt(Zero, h) /\ on /\ free(left, c) /\ free(c, right)
      /\ \A j \in 1..9 : \A d \in 1..Len(xs[j]) :
           REq(RParse(xs[j][d]), IF d = a THEN RAdd(c, RMul(RInt(j - 5), h)) ELSE RParse(xs[5][d]))
\* f1..f4 at distances h, 2h, 3h, 4h
Limit(f1, f2, f3, f4) ==
  RSub(RAdd(RMul(RInt(4), f1), RMul(RInt(4), f3)), RAdd(RMul(RInt(6), f2), f4))
SlopeH(f1, f2, f3, f4) ==      \* h * derivative away from the middle
  RAdd(RAdd(RMul(R(-13, 3), f1), RMul(R(19, 2), f2)), RAdd(RMul(RInt(-7), f3), RMul(R(11, 6), f4)))
\* tol: bound on the rounding error of one result (zero in exact arithmetic);
\* the sums of the absolute coefficients above are 15 and less than 32.
Continuous(m, y, tol) ==       \* y: nine results
  LET f(j) == RParse(y[j])
      near(a, b, c) == RLe(RAbs(RSub(a, b)), RMul(RInt(c), tol))
  IN  /\ \A j \in 1..9 : IsNum(y[j])
      /\ near(Limit(f(4), f(3), f(2), f(1)), f(5), 16)
      /\ near(Limit(f(6), f(7), f(8), f(9)), f(5), 16)
      /\ m = "cubic" => near(SlopeH(f(6), f(7), f(8), f(9)), RNeg(SlopeH(f(4), f(3), f(2), f(1))), 64)
=============================================================================
