-------------------------------- MODULE Trig --------------------------------
(* Fixed point sines (ten-thousandths) of half degrees; argument in half degrees. *)
EXTENDS Integers, Sequences
Quarter == <<0, 87, 175, 262, 349, 436, 523, 610, 698, 785, 872, 958, 1045, 1132, 1219, 1305, 1392, 1478, 1564, 1650, 1736,
  1822, 1908, 1994, 2079, 2164, 2250, 2334, 2419, 2504, 2588, 2672, 2756, 2840, 2924, 3007, 3090, 3173, 3256,
  3338, 3420, 3502, 3584, 3665, 3746, 3827, 3907, 3987, 4067, 4147, 4226, 4305, 4384, 4462, 4540, 4617, 4695,
  4772, 4848, 4924, 5000, 5075, 5150, 5225, 5299, 5373, 5446, 5519, 5592, 5664, 5736, 5807, 5878, 5948, 6018,
  6088, 6157, 6225, 6293, 6361, 6428, 6494, 6561, 6626, 6691, 6756, 6820, 6884, 6947, 7009, 7071, 7133, 7193,
  7254, 7314, 7373, 7431, 7490, 7547, 7604, 7660, 7716, 7771, 7826, 7880, 7934, 7986, 8039, 8090, 8141, 8192,
  8241, 8290, 8339, 8387, 8434, 8480, 8526, 8572, 8616, 8660, 8704, 8746, 8788, 8829, 8870, 8910, 8949, 8988,
  9026, 9063, 9100, 9135, 9171, 9205, 9239, 9272, 9304, 9336, 9367, 9397, 9426, 9455, 9483, 9511, 9537, 9563,
  9588, 9613, 9636, 9659, 9681, 9703, 9724, 9744, 9763, 9781, 9799, 9816, 9833, 9848, 9863, 9877, 9890, 9903,
  9914, 9925, 9936, 9945, 9954, 9962, 9969, 9976, 9981, 9986, 9990, 9994, 9997, 9998, 10000, 10000>>
Sin(h) == LET k == h % 720 IN
    CASE k <= 180 -> Quarter[k + 1] [] k <= 360 -> Quarter[361 - k]
      [] k <= 540 -> -Quarter[k - 359] [] OTHER -> -Quarter[721 - k]
Cos(h) == Sin(h + 180)
\* the table is what it should be: unit circle, monotone, angle addition
Near(a, b, e) == a - b <= e /\ b - a <= e
TrigOk == /\ \A h \in 0..180 : Near((Sin(h) * Sin(h) + Cos(h) * Cos(h)) \div 10000, 10000, 3)
          /\ \A h \in 0..179 : Quarter[h + 1] < Quarter[h + 2] \/ h >= 178
          /\ \A h, k \in {0, 1, 7, 30, 45, 60, 90, 121, 180} :
                Near(Sin(h + k), (Sin(h) * Cos(k) + Cos(h) * Sin(k)) \div 10000, 3)
          /\ Sin(0) = 0 /\ Sin(60) = 5000 /\ Sin(180) = 10000
ISqrtStep(n, x) == (x + n \div x) \div 2
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == ISqrtStep(n, x) IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtFrom(n, IF n < 100000000 THEN 10001 ELSE 46340)   \* floor
=============================================================================
