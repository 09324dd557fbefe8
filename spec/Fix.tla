-------------------------------- MODULE Fix ---------------------------------
(* Fixed-point arithmetic within TLC's 32-bit integers.                      *)
EXTENDS Integers, Sequences

FAbs(x) == IF x < 0 THEN -x ELSE x
FMax(a, b) == IF a > b THEN a ELSE b
FMin(a, b) == IF a < b THEN a ELSE b

(* a * b / 2^k for |a|, |b| < 2^28, 14 <= k <= 28, |result| < 2^29.          *)
UMulSh(a, b, k) ==
    LET ah == a \div 16384  al == a % 16384
        bh == b \div 16384  bl == b % 16384
    IN  ah * bh * (2 ^ (28 - k)) + (ah * bl + al * bh) \div (2 ^ (k - 14)) + (al * bl) \div (2 ^ k)
MulSh(a, b, k) ==
    LET m == UMulSh(FAbs(a), FAbs(b), k) IN IF (a < 0) # (b < 0) THEN -m ELSE m

(* a * 2^k / b for 0 < |b| < 2^25, |result| < 2^30.                          *)
RECURSIVE UDivSh(_, _, _, _)
UDivSh(q, r, b, k) ==
    IF k = 0 THEN q
    ELSE LET s == FMin(k, 6)
             n == r * (2 ^ s)
         IN  UDivSh(q * (2 ^ s) + n \div b, n % b, b, k - s)
DivSh(a, b, k) ==
    LET x == FAbs(a)  y == FAbs(b)
        m == UDivSh(x \div y, x % y, y, k)
    IN  IF (a < 0) # (b < 0) THEN -m ELSE m

RECURSIVE FSqrtIt(_, _)
FSqrtIt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE FSqrtIt(n, y)
FSqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE FSqrtIt(n, IF n > 1048576 THEN 46340 ELSE 1024)

(* Length of a vector without overflow.                                      *)
Hypot(x, y) ==
    LET a == FMax(FAbs(x), FAbs(y))  b == FMin(FAbs(x), FAbs(y)) IN
    IF a = 0 THEN 0
    ELSE LET r == DivSh(b, a, 14) IN MulSh(a, FSqrt(268435456 + r * r), 14)

(* Angles and rotations, scale 2^14.                                         *)
One == 16384
HalfPi == 25736
Pi == 51472

Q(a, b) == MulSh(a, b, 14)
SinSmall(x) ==   \* |x| <= pi/2
    LET s == Q(x, x)
        t1 == One - s \div 72
        t2 == One - Q(s, t1) \div 42
        t3 == One - Q(s, t2) \div 20
        t4 == One - Q(s, t3) \div 6
    IN  Q(x, t4)
Reduce(a) ==     \* into [-pi, pi]
    LET k == (a + Pi) \div 102944
        r == a - k * 102943 - (k * 7066) \div 10000
    IN  IF r > Pi THEN r - 102944 ELSE IF r < -Pi THEN r + 102944 ELSE r
Sin(a) == LET r == Reduce(a) IN
    IF r > HalfPi THEN SinSmall(Pi - r) ELSE IF r < -HalfPi THEN SinSmall(-Pi - r) ELSE SinSmall(r)
Cos(a) == Sin(a + HalfPi)

Rot(q, v) == << Q(q[1], v[1]) - Q(q[2], v[2]), Q(q[2], v[1]) + Q(q[1], v[2]) >>
RotT(q, v) == << Q(q[1], v[1]) + Q(q[2], v[2]), Q(q[1], v[2]) - Q(q[2], v[1]) >>

Near(x, y, tol) == FAbs(x - y) <= tol
\* within an absolute tolerance plus 1/rel of the magnitude
NearRel(x, y, tol, rel) == FAbs(x - y) <= tol + FMax(FAbs(x), FAbs(y)) \div rel
=============================================================================
