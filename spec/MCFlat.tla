------------------------------- MODULE MCFlat -------------------------------
(***************************************************************************)
(* The two evaluation orders of the library, stepped vertex by vertex:     *)
(*  "flat": vertices in increasing order, one row of storage per axis; when *)
(*          a row is complete it is reduced into the next row;             *)
(*  "rec":  depth first from the last axis to the first, with one shared   *)
(*          index array that each level sets and restores.                 *)
(* Both must end with Value, read inside the array only, and every reduced *)
(* entry must be the interpolant of the axes reduced so far.               *)
(***************************************************************************)
EXTENDS MCData, Algorithms

CONSTANTS Deep, Methods
VARIABLES m, lin, g, alg, sel, pt,
          i,       \* flat: vertices read so far
          store,   \* flat: store[j] holds up to FP numbers (as text); rec: results at each level
          stack,   \* rec: frames <<axis, branch>>
          loc, res
prob == <<m, lin, g, alg, sel>>
vars == <<m, lin, g, alg, sel, pt, i, store, stack, loc, res>>

Cat == IF m = "cubic"
       THEN IF g = "regular" THEN <<Aff(4, -1, 1), Aff(6, 0, "1/2")>>
            ELSE <<List(<<-2, -1, "1/2", 1, 5>>), List(<<0, 1, 3, 4>>)>>
       ELSE IF g = "regular" THEN <<Aff(2, -1, 2), Aff(3, 0, "1/2")>>
            ELSE <<List(<<0, "1/2", 2, 3>>), List(<<0, 3>>)>>
axes == [d \in 1..Len(sel) |-> Cat[sel[d]]]
N == Len(sel)
dims == [d \in 1..N |-> ALen(axes[d])]
X(d) == RParse(pt[d])
FP == Foots(m)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Size == LET RECURSIVE s(_) s(d) == IF d > N THEN 1 ELSE dims[d] * s(d + 1) IN s(1)
Val(k) == RInt(((k * k * 7 + k * 3 + 5) % 31) - 15)
P == [m |-> m, lin |-> lin, g |-> g,
      dims |-> IF g = "regular" THEN dims ELSE <<>>,
      starts |-> IF g = "regular" THEN [d \in 1..N |-> First(axes[d])] ELSE <<>>,
      steps |-> IF g = "regular" THEN [d \in 1..N |-> Width(axes[d], 0)] ELSE <<>>,
      grids |-> IF g = "regular" THEN <<>> ELSE axes,
      vals |-> List([k \in 1..Size |-> Val(k - 1)])]
org == [d \in 1..N |-> Origin(m, g, axes[d], X(d))]

Sizes == IF Deep THEN 1..3 ELSE 1..2
Init == /\ m \in Methods /\ lin \in (IF m = "cubic" THEN BOOLEAN ELSE {FALSE})
        /\ g \in {"regular", "rectilinear"} /\ alg \in {"flat", "rec"}
        /\ \E n \in Sizes \cup (IF m = "linear" THEN {3} ELSE {}) : sel \in [1..n -> 1..(IF n = 3 /\ m = "cubic" THEN 1 ELSE 2)]
        /\ pt = <<>> /\ i = 0 /\ store = <<>> /\ stack = <<>> /\ loc = <<>> /\ res = ""
Spots(ax) == IF N < 3 THEN Places(ax)
             ELSE {RShow(RSub(First(ax), Width(ax, 0))), RShow(RSub(Last(ax), RDiv(Width(ax, ALen(ax) - 2), RInt(3)))),
                   RShow(RAdd(Last(ax), Width(ax, 0)))}
Choose == /\ Len(pt) < N
          /\ \E c \in Spots(axes[Len(pt) + 1]) : pt' = Append(pt, c)
          /\ IF Len(pt') < N THEN UNCHANGED <<i, store, stack, loc, res>>
             ELSE /\ store' = [d \in 1..N |-> <<>>] /\ loc' = [d \in 1..N |-> 0]
                  /\ stack' = IF alg = "rec" THEN <<<<N, 0>>>> ELSE <<>>
                  /\ UNCHANGED <<i, res>>
          /\ UNCHANGED prob
Ready == Len(pt) = N /\ res = ""

Nums(row) == [q \in 1..Len(row) |-> RParse(row[q])]
Reduce(d, row) == RShow(Kernel(P, d, org[d], X(d), Nums(row)))

-----------------------------------------------------------------------------
\* flat: digit of vertex i along axis d, first axis fastest
Digit(v, d) == (v \div Pow(FP, d - 1)) % FP
RECURSIVE Carry(_, _, _)
Carry(st, d, v) ==          \* reduce complete rows upwards; v vertices read
  IF d >= N \/ v % Pow(FP, d) # 0 THEN st
  ELSE Carry([st EXCEPT ![d + 1] = Append(IF Len(st[d + 1]) = FP THEN <<>> ELSE st[d + 1], Reduce(d, st[d]))], d + 1, v)
FlatStep ==
  /\ Ready /\ alg = "flat" /\ i < Pow(FP, N)
  /\ loc' = [d \in 1..N |-> org[d] + Digit(i, d)]
  /\ LET row == IF Len(store[1]) = FP THEN <<>> ELSE store[1]
         st == [store EXCEPT ![1] = Append(row, RShow(Val(LeafIndex(dims, loc'))))]
     IN  store' = Carry(st, 1, i + 1)
  /\ i' = i + 1 /\ UNCHANGED <<prob, pt, stack, res>>
FlatEnd ==
  /\ Ready /\ alg = "flat" /\ i = Pow(FP, N)
  /\ res' = Reduce(N, store[N]) /\ UNCHANGED <<prob, pt, i, store, stack, loc>>

\* rec: the frame on top is <<d, b>>: b branches of axis d have been evaluated
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
RecStep ==
  /\ Ready /\ alg = "rec" /\ stack # <<>>
  /\ LET d == Top[1] b == Top[2] IN
     IF b < FP
     THEN /\ loc' = [loc EXCEPT ![d] = org[d] + b]
          /\ IF d > 1 THEN /\ stack' = Append([stack EXCEPT ![Len(stack)] = <<d, b + 1>>], <<d - 1, 0>>)
                           /\ UNCHANGED <<store, res>>
             ELSE /\ stack' = [stack EXCEPT ![Len(stack)] = <<d, b + 1>>]
                  /\ store' = [store EXCEPT ![1] = Append(@, RShow(Val(LeafIndex(dims, loc'))))]
                  /\ UNCHANGED res
     ELSE /\ loc' = [loc EXCEPT ![d] = org[d]]           \* restored for the next use
          /\ LET v == Reduce(d, store[d]) IN
             IF d = N THEN res' = v /\ UNCHANGED store
             ELSE store' = [store EXCEPT ![d] = <<>>, ![d + 1] = Append(@, v)] /\ UNCHANGED res
          /\ stack' = Pop
  /\ UNCHANGED <<prob, pt, i>>

Next == Choose \/ FlatStep \/ FlatEnd \/ RecStep
Spec == Init /\ [][Next]_vars /\ WF_vars(FlatStep \/ FlatEnd \/ RecStep)

-----------------------------------------------------------------------------
\* every vertex read lies in the array, at the C-order position of its indices
Inside == Ready /\ loc # <<>> =>
            /\ \A d \in 1..N : loc[d] \in 0..(dims[d] - 1)
            /\ LeafIndex(dims, loc) = FlatIndex(dims, loc)
\* the footprint starts where the definition says, or reads a wider window at the edge
Covers == Ready => \A d \in 1..N : /\ org[d] <= FootLo(m, axes[d], X(d)) \/ REq(Coord(axes[d], Cell(axes[d], X(d))), X(d))
                                   /\ FootHi(m, axes[d], X(d)) <= org[d] + FP - 1 \/ REq(Coord(axes[d], Cell(axes[d], X(d))), X(d))
\* a number in row d+1 is the interpolant along axes 1..d at the node indices of the rest
Partial(d, ix) ==       \* ix: node indices of axes d+1..N
  LET RECURSIVE f(_, _)
      f(k, jx) == IF k = 0 THEN Val(FlatIndex(dims, jx \o ix))
                  ELSE LET y(node) == f(k - 1, <<node>> \o jx)
                       IN  Curve(m, lin, axes[k], X(k), y)
  IN  f(d, <<>>)
RowsRight ==
  Ready /\ store # <<>> =>
    \A d \in 2..N : store[d] # <<>> =>
      \* the entry added last belongs to the current indices of the higher axes
      LET w == Len(store[d]) - 1
          ix == [k \in 1..(N - d + 1) |-> IF k = 1 THEN org[d] + w ELSE loc[d + k - 1]]
          fresh == IF alg = "flat" THEN i % Pow(FP, d - 1) = 0 /\ i > 0 ELSE stack # <<>> /\ Top[1] = d
      IN  fresh => REq(RParse(store[d][w + 1]), Partial(d - 1, ix))
EndsWithValue == res # "" => REq(RParse(res), Value(P, [d \in 1..N |-> X(d)]))
RestoredIndices == (alg = "rec" /\ res # "") => loc = org
Terminates == Len(pt) = N ~> res # ""
=============================================================================
