----------------------------- MODULE Rational -----------------------------
(* Exact rational numbers <<numerator, denominator>>, denominator positive, in lowest terms; NaN = <<0, 0>> spreads. *)
LOCAL INSTANCE Integers
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
Int2Rat(n) == <<n, 1>>
NaN == <<0, 0>>
Plus(x, y) == IF x[2] = 0 \/ y[2] = 0 THEN NaN ELSE LET g == Gcd(x[2], y[2]) IN Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
Neg(x) == <<-x[1], x[2]>>
Minus(x, y) == Plus(x, Neg(y))
\* cancels crosswise first so that intermediate numbers stay small
Product(x, y) == IF x[2] = 0 \/ y[2] = 0 THEN NaN ELSE IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>> ELSE
                 LET g == Gcd(Abs(x[1]), y[2]) h == Gcd(Abs(y[1]), x[2]) IN <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
Over(x, y) == Product(x, Rat(y[2], y[1]))
=============================================================================
