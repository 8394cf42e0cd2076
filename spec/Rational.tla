------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is a pair <<n, d>> in lowest     *)
(* terms with d > 0.  These definitions are the meaning of the operators;  *)
(* TLC integers are 32 bits wide, so when java/Rational.class lies next to *)
(* this module TLC evaluates the same operators on unbounded integers.     *)
(* RationalCheck.tla compares both on a grid of small arguments.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Gcd_(_, _)
Gcd_(a, b) == IF b = 0 THEN a ELSE Gcd_(b, a % b)
Abs_(a) == IF a < 0 THEN -a ELSE a
Norm_(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                   g == Gcd_(Abs_(n), Abs_(d))
               IN  <<(s * n) \div g, (s * d) \div g>>

R(n, d)    == Norm_(n, d)
RInt(i)    == <<i, 1>>
RAdd(a, b) == Norm_(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Norm_(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Norm_(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Norm_(a[1] * b[2], a[2] * b[1])
RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<Abs_(a[1]), a[2]>>
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
REq(a, b)  == a = b
RSign(a)   == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RFloor(a)  == a[1] \div a[2]          \* \div rounds towards minus infinity
RECURSIVE Pow2_(_)
Pow2_(k) == IF k = 0 THEN 1 ELSE 2 * Pow2_(k - 1)
RPow2(e)   == IF e >= 0 THEN <<Pow2_(e), 1>> ELSE <<1, Pow2_(-e)>>

\* Reading numbers recorded in a trace: a JSON integer, or a string "n", "n/d"
\* or "m@e" (meaning m*2^e).  Only integers can be read without the override.
RParse(v)  == IF v \in Int THEN RInt(v) ELSE v
IsNum(v)   == v \notin {"nan", "inf", "-inf"}
RShow(a)   == a
\* The largest absolute value among the recorded numbers of a sequence
RECURSIVE MaxAbs_(_, _)
MaxAbs_(s, i) == IF i > Len(s) THEN <<0, 1>>
                 ELSE LET m == MaxAbs_(s, i + 1) IN
                      IF ~IsNum(s[i]) THEN m
                      ELSE IF RLt(m, RAbs(RParse(s[i]))) THEN RAbs(RParse(s[i])) ELSE m
RMaxAbs(s) == MaxAbs_(s, 1)
=============================================================================
