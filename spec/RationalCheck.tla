---------------------------- MODULE RationalCheck ----------------------------
(* The arithmetic TLC uses (java/Rational.java) against the definitions of   *)
(* Rational.tla, of which PureRational is a copy made when this is checked.  *)
EXTENDS Rational, TLC
Pure == INSTANCE PureRational

VARIABLES a, b
Ns == -12..12
Ds == {1, 2, 3, 4, 5, 12, 30}
Init == a \in Ns \X Ds /\ b = <<>>
Next == b = <<>> /\ b' \in Ns \X Ds /\ UNCHANGED a

A == R(a[1], a[2])  B == R(b[1], b[2])
PA == Pure!R(a[1], a[2])  PB == Pure!R(b[1], b[2])
Is(r, p) == REq(r, R(p[1], p[2]))
Both == b # <<>> =>
  /\ Is(RAdd(A, B), Pure!RAdd(PA, PB)) /\ Is(RSub(A, B), Pure!RSub(PA, PB)) /\ Is(RMul(A, B), Pure!RMul(PA, PB))
  /\ b[1] # 0 => Is(RDiv(A, B), Pure!RDiv(PA, PB))
  /\ RLt(A, B) = Pure!RLt(PA, PB) /\ RLe(A, B) = Pure!RLe(PA, PB) /\ REq(A, B) = Pure!REq(PA, PB)
One_ == /\ Is(A, PA) /\ Is(RNeg(A), Pure!RNeg(PA)) /\ Is(RAbs(A), Pure!RAbs(PA))
        /\ RSign(A) = Pure!RSign(PA) /\ RFloor(A) = Pure!RFloor(PA)
        /\ Is(RInt(a[1]), Pure!RInt(a[1])) /\ Is(RPow2(a[1]), Pure!RPow2(a[1]))
\* reading and showing numbers
Text == /\ REq(RParse(RShow(A)), A) /\ REq(RParse(a[1]), RInt(a[1])) /\ REq(RParse(ToString(a[1]) \o "/" \o ToString(a[2])), A)
        /\ REq(RParse(ToString(a[1]) \o "@" \o ToString(a[2] - 4)), RMul(RInt(a[1]), RPow2(a[2] - 4)))
        /\ IsNum(RShow(A)) /\ ~IsNum("nan") /\ ~IsNum("inf") /\ ~IsNum("-inf") /\ IsNum(a[1])
        /\ b # <<>> => REq(RMaxAbs(<<RShow(A), RShow(B), "nan">>), IF RLt(RAbs(A), RAbs(B)) THEN RAbs(B) ELSE RAbs(A))
=============================================================================
