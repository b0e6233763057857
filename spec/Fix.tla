-------------------------------- MODULE Fix ---------------------------------
(* Fixed-point arithmetic.  Lengths are in 1/1000, trigonometric functions of     *)
(* whole degrees in 1/10000.                                                      *)
EXTENDS Integers, Sequences
LOCAL SinTab == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588,
                  2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150,
                  5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314,
                  7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910,
                  8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816,
                  9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
LOCAL Q(d) == SinTab[d + 1]                       \* 0..90 degrees
Sin(deg) == LET d == ((deg % 360) + 360) % 360
            IN  CASE d <= 90 -> Q(d)
                  [] d > 90 /\ d <= 180 -> Q(180 - d)
                  [] d > 180 /\ d <= 270 -> -Q(d - 180)
                  [] OTHER -> -Q(360 - d)
Cos(deg) == Sin(deg + 90)
(* of 1/1000 degrees, by linear interpolation *)
SinM(m) == LET d == m \div 1000 f == m % 1000 IN Sin(d) + ((2 * (Sin(d + 1) - Sin(d)) * f + 1000) \div 2000)
CosM(m) == SinM(m + 90000)
Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Sign(a) == IF a < 0 THEN -1 ELSE 1
(* floor of the square root of n < 2^31 *)
Sqrt(n) == LET RECURSIVE f(_, _)
               f(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN f(m, hi) ELSE f(lo, m)
           IN  f(0, 46341)
(* rounded quotient *)
Div(a, b) == IF b > 0 THEN (2 * a + b) \div (2 * b) ELSE (2 * (-a) - b) \div (2 * (-b))
Rot(x, c, y, s) == Div(x * c + y * s, 10000)       \* (x cos + y sin)
Near(a, b, e) == Abs(a - b) <= e
=============================================================================
