------------------------------- MODULE MCData -------------------------------
(* Small axes and positions shared by the design models. *)
EXTENDS Rules, FiniteSets

Aff(n, s, h) == [k |-> "aff", n |-> n, s |-> s, h |-> h]
List(v) == [k |-> "list", v |-> v]
Alt(n, s, h1, h2) == [k |-> "alt", n |-> n, s |-> s, h1 |-> h1, h2 |-> h2]

\* Coordinates on and around an axis: below, at every node, at quarters of every cell, above
Positions(ax) ==
  LET n == ALen(ax)
      at(i, t) == RAdd(Coord(ax, i), RMul(t, Width(ax, i)))
      low == Width(ax, 0) high == Width(ax, n - 2)
  IN  {RShow(c) : c \in {at(i, R(k, 4)) : i \in 0..(n - 2), k \in 0..3} \cup {Last(ax)}
      \cup {RSub(First(ax), RMul(R(k, 3), low)) : k \in {1, 3, 8}}
      \cup {RAdd(Last(ax), RMul(R(k, 3), high)) : k \in {1, 3, 8}}}
\* one per kind of place
Places(ax) ==
  LET n == ALen(ax) at(i, t) == RAdd(Coord(ax, i), RMul(t, Width(ax, i))) IN
  {RShow(c) : c \in {RSub(First(ax), RMul(R(4, 3), Width(ax, 0))), First(ax), at(0, R(1, 3)), at(n - 2, R(1, 2)), Last(ax),
   RAdd(Last(ax), RMul(R(5, 4), Width(ax, n - 2)))}
  \cup (IF n > 3 THEN {Coord(ax, 1), at(1, R(3, 4)), Coord(ax, n - 2)} ELSE {})}

Nodes(ax) == 0..(ALen(ax) - 1)
\* generic data: no symmetry, no simple pattern
Mixed(i) == RInt(((7 * i * i * i + 5 * i * i + 3 * i + 2) % 23) - 11)
=============================================================================
