------------------------------ MODULE MCBounds ------------------------------
(***************************************************************************)
(* The bounds check: the code's loop over axes and points, stepped point   *)
(* by point from arbitrary previous flags, against Bounds.tla, for every   *)
(* placement of two points per axis around both edges.                     *)
(***************************************************************************)
EXTENDS Bounds, MCData, Json

CONSTANTS Deep, Record
VARIABLES g, at, sel, obs,      \* grid kind, tolerance (text), axes, points per axis (positions in Spots)
          flags, d, j           \* the code: flags written so far, axis, point
vars == <<g, at, sel, obs, flags, d, j>>

Cat == IF g = "regular" THEN <<Aff(2, -1, 2), Aff(3, 0, "1/2"), Aff(1, 4, 3)>> ELSE <<List(<<0, 3>>), List(<<-1, 1, 2>>), List(<<5>>)>>
axes == [e \in 1..Len(sel) |-> Cat[sel[e]]]
P == [m |-> "linear", g |-> g, lin |-> FALSE,
      dims |-> IF g = "regular" THEN [e \in DOMAIN sel |-> axes[e].n] ELSE <<>>,
      starts |-> IF g = "regular" THEN [e \in DOMAIN sel |-> axes[e].s] ELSE <<>>,
      steps |-> IF g = "regular" THEN [e \in DOMAIN sel |-> axes[e].h] ELSE <<>>,
      grids |-> IF g = "regular" THEN <<>> ELSE axes, vals |-> List(<<>>)]
Eps == R(1, 64)
tol == RParse(at)
\* places relative to the edges; "nan", the infinities
Spots(ax) ==
  LET lo == First(ax) hi == Last(ax) IN
  <<RShow(RSub(lo, RInt(50))), RShow(RSub(RSub(lo, tol), Eps)), RShow(RSub(lo, tol)), RShow(RAdd(RSub(lo, tol), Eps)), RShow(lo),
    RShow(RDiv(RAdd(lo, hi), Two)), RShow(hi), RShow(RSub(RAdd(hi, tol), Eps)), RShow(RAdd(hi, tol)), RShow(RAdd(RAdd(hi, tol), Eps)),
    RShow(RAdd(hi, RInt(50))), "inf", "-inf", "nan">>
NS == 14
Tols == IF Deep THEN {"0", "1/8", "2"} ELSE {"0", "1/8"}
Counts == IF Deep THEN 0..2 ELSE {0, 2}
Init == /\ g \in {"regular", "rectilinear"} /\ at \in Tols
        /\ \E n \in 1..2 : /\ sel \in [1..n -> 1..(IF n = 1 \/ Deep THEN 3 ELSE 2)]
                           /\ flags \in [1..n -> BOOLEAN] /\ obs = [e \in 1..n |-> <<>>]
        /\ d = 0 /\ j = 0
\* axis 1: any one or two points; axis 2: one of a few
Choose == /\ d = 0 /\ \E c \in Counts :
               obs' \in {f \in [1..Len(sel) -> UNION {[1..c -> 1..NS]}] : Len(sel) = 1 \/ \A w \in 1..c : f[2][w] \in {2, 6, 10}}
          /\ d' = 1 /\ j' = 1 /\ UNCHANGED <<g, at, sel, flags>>
XS(e) == [w \in 1..Len(obs[e]) |-> Spots(axes[e])[obs[e][w]]]
OutOf(ax, v) == IF IsNum(v) THEN RLe(RSub(RParse(v), First(ax)), RNeg(tol)) \/ RLe(tol, RSub(RParse(v), Last(ax)))
                ELSE v \in {"inf", "-inf"}
Step == /\ d \in 1..Len(sel)
        /\ IF j > Len(obs[d]) THEN flags' = [flags EXCEPT ![d] = FALSE] /\ d' = d + 1 /\ j' = 1
           ELSE IF OutOf(axes[d], XS(d)[j]) THEN flags' = [flags EXCEPT ![d] = TRUE] /\ d' = d + 1 /\ j' = 1
           ELSE flags' = flags /\ d' = d /\ j' = j + 1
        /\ UNCHANGED <<g, at, sel, obs>>
Next == Choose \/ Step
Finished == d = Len(sel) + 1
-----------------------------------------------------------------------------
FlagsRight == Finished => \A e \in 1..Len(sel) : FlagOk(P, e, XS(e), tol, Zero, flags[e])
\* an axis cannot both have to be flagged and have to be clear, and only points
\* at exactly the tolerance (or not a number) leave a choice
Decides == Finished => \A e \in 1..Len(sel) :
             LET must == MustFlag(P, e, XS(e), tol, Zero) clear == MustClear(P, e, XS(e), tol, Zero) IN
             /\ ~(must /\ clear)
             /\ (~must /\ ~clear) => \E w \in 1..Len(XS(e)) :
                   LET v == XS(e)[w] IN IF IsNum(v) THEN REq(Excess(First1(P, e), Last1(P, e), RParse(v)), tol) ELSE v = "nan"
\* the order of the points does not matter
Reordered == Finished => \A e \in 1..Len(sel) :
               LET r == [w \in 1..Len(XS(e)) |-> XS(e)[Len(XS(e)) + 1 - w]] IN
               /\ MustFlag(P, e, XS(e), tol, Zero) <=> MustFlag(P, e, r, tol, Zero)
               /\ MustClear(P, e, XS(e), tol, Zero) <=> MustClear(P, e, r, tol, Zero)
Accepted == Finished => BoundsOk(P, [e \in 1..Len(sel) |-> XS(e)], Len(sel)) = "yes"
Printed == (Record /\ Finished) =>
   PrintT("SESSION " \o ToJson([p |-> P, obs |-> [e \in 1..Len(sel) |-> XS(e)], atol |-> at, pre |-> g = "regular"]))
=============================================================================
