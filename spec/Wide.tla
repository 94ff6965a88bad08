-------------------------------- MODULE Wide --------------------------------
(* Wide integers.  TLC integers are 32-bit machine words, while the library  *)
(* computes with 40/64-bit accumulators.  A wide integer is a triple         *)
(* <<h, m, l>> denoting h*2^44 + m*2^22 + l with 0 <= m, l < 2^22 and a      *)
(* signed h.  The range (|x| < 2^75) covers every 64-bit intermediate.       *)
EXTENDS Integers, Sequences

W22 == 4194304
W0  == <<0, 0, 0>>
W1  == <<0, 0, 1>>

WNorm(h, m, l) ==
  LET m2 == m + (l \div W22)
  IN  <<h + (m2 \div W22), m2 % W22, l % W22>>

WInt(x) == LET q == x \div W22 IN <<q \div W22, q % W22, x % W22>>

WAdd(a, b) == WNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
WNeg(a)    == WNorm(-a[1], -a[2], -a[3])
WSub(a, b) == WNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])

WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
WLe(a, b) == ~WLt(b, a)
WIsNeg(a) == a[1] < 0

(* product of two 32-bit integers: schoolbook on 11-bit digits *)
WMul(a, b) ==
  LET a0 == a % 2048   a1 == (a \div 2048) % 2048   a2 == a \div W22
      b0 == b % 2048   b1 == (b \div 2048) % 2048   b2 == b \div W22
      c0 == a0*b0
      c1 == a0*b1 + a1*b0
      c2 == a0*b2 + a1*b1 + a2*b0
      c3 == a1*b2 + a2*b1
      c4 == a2*b2
      \* value = c0 + c1*2^11 + c2*2^22 + c3*2^33 + c4*2^44
  IN  WNorm(c4 + (c3 \div 2048) , c2 + (c1 \div 2048) + (c3 % 2048) * 2048,
            c0 + (c1 % 2048) * 2048)

(* wide times a small factor 0 <= k <= 512 *)
WScaleSmall(a, k) == WNorm(a[1]*k, a[2]*k, a[3]*k)

(* arithmetic shift right (floor) by n >= 0 *)
RECURSIVE WAsr(_, _)
WAsr(a, n) ==
  IF n = 0 THEN a
  ELSE IF n >= 22 THEN WAsr(<<a[1] \div W22, a[1] % W22, a[2]>>, n - 22)
  ELSE LET p == 2^n  q == 2^(22-n)
       IN  <<a[1] \div p, (a[1] % p) * q + (a[2] \div p), (a[2] % p) * q + (a[3] \div p)>>

(* shift left by n >= 0 without any saturation; caller bounds the result *)
RECURSIVE WShl(_, _)
WShl(a, n) ==
  IF n = 0 THEN a
  ELSE IF n >= 22 THEN WShl(<<(a[1] * W22) + a[2], a[3], 0>>, n - 22)
  ELSE LET p == 2^n  q == 2^(22-n)
       IN  <<(a[1] * p) + (a[2] \div q), (a[2] % q) * p + (a[3] \div q), (a[3] % q) * p>>

WPow2(n) == WShl(W1, n)

(* does the wide value fit a signed 32-bit word / its saturation to one *)
WFits32(a) == LET hm == a[1] * W22 + a[2]
              IN  a[1] \in {0, -1} /\ hm >= -512 /\ hm <= 511
MAX32 == 2147483647
MIN32 == -MAX32 - 1
WSat32(a) == IF WFits32(a) THEN (a[1] * W22 + a[2]) * W22 + a[3]
             ELSE IF a[1] < 0 THEN MIN32 ELSE MAX32
WToInt(a) == (a[1] * W22 + a[2]) * W22 + a[3]

(* low 32 bits of a, as a signed word (C narrowing conversion) *)
WLow32(a) ==
  LET hi10 == a[2] % 1024                      \* bits 22..31
      s    == IF hi10 >= 512 THEN hi10 - 1024 ELSE hi10
  IN  s * W22 + a[3]

WSumHiLo(hi, lo) == WAdd(WMul(hi, 256), WInt(lo))   \* hi*256 + lo
=============================================================================
