------------------------------- MODULE Bounds -------------------------------
(* The bounds check on observation coordinates. *)
EXTENDS Rules

First1(p, d) == First(Axis(p, d))
Last1(p, d)  == Last(Axis(p, d))
\* by how much x lies outside [lo, hi] (negative: inside)
Excess(lo, hi, x) == RMax(RSub(lo, x), RSub(x, hi))

\* An axis is flagged when a point lies outside by more than atol, clear when
\* all lie within; `slack` is what rounding may shift (0 in exact arithmetic).
MustFlag(p, d, xs, atol, slack) ==
  \E j \in 1..Len(xs) :
     IF IsNum(xs[j]) THEN RLt(RAdd(atol, slack), Excess(First1(p, d), Last1(p, d), RParse(xs[j])))
     ELSE xs[j] \in {"inf", "-inf"}
MustClear(p, d, xs, atol, slack) ==
  \A j \in 1..Len(xs) : /\ IsNum(xs[j])
                        /\ RLt(Excess(First1(p, d), Last1(p, d), RParse(xs[j])), RSub(atol, slack))
FlagOk(p, d, xs, atol, slack, flag) ==
  /\ MustFlag(p, d, xs, atol, slack) => flag
  /\ MustClear(p, d, xs, atol, slack) => ~flag
BoundsSlack(e, p, d, atol) ==
  IF e = 0 THEN Zero
  ELSE RMul(RPow2(4 - e), RAdd(RAbs(atol), RAdd(RAbs(First1(p, d)), RAbs(Last1(p, d)))))
=============================================================================
