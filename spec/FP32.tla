-------------------------------- MODULE FP32 --------------------------------
(* Single precision arithmetic on bit patterns (signed 32-bit words): finite  *)
(* normal numbers and zero, round to nearest even.  A value is               *)
(* [s |-> sign, m |-> 24-bit mantissa, e |-> exponent]  =  s * m * 2^e       *)
EXTENDS FxMath

FZero == [s |-> 1, m |-> 0, e |-> 0]
FDec(w) ==
  LET ex == (w \div 8388608) % 256
      mn == w % 8388608
  IN  IF ex = 0 THEN FZero ELSE [s |-> IF w < 0 THEN -1 ELSE 1, m |-> mn + 8388608, e |-> ex - 150]
FEnc(f) ==
  IF f.m = 0 THEN 0
  ELSE LET b == ((f.e + 150) * 8388608) + (f.m - 8388608)
       IN  IF f.s > 0 THEN b ELSE (b + MIN32)

WLen(a) == LET bl(x) == IF x = 0 THEN 0 ELSE 31 - NormB(x, 32)
           IN  IF a[1] > 0 THEN 44 + bl(a[1]) ELSE IF a[2] > 0 THEN 22 + bl(a[2]) ELSE bl(a[3])
WRne(a, n) ==         \* shift right by n, nearest even, a >= 0
  IF n <= 0 THEN WShl(a, -n)
  ELSE LET q    == WAsr(a, n)
           rem  == WSub(a, WShl(q, n))
           half == WPow2(n-1)
       IN  IF WLe(half, rem) /\ (q[3] % 2 = 1 \/ WLt(half, rem)) THEN WAdd(q, W1) ELSE q
(* s * a * 2^e rounded, a >= 0 wide *)
FRound(s, a, e) ==
  IF a = W0 THEN FZero
  ELSE LET n == WLen(a) - 24
           q == WToInt(WRne(a, n))
       IN  IF q = 16777216 THEN [s |-> s, m |-> 8388608, e |-> e + n + 1]
           ELSE [s |-> s, m |-> q, e |-> e + n]

FInt(x) == LET w == WInt(x) IN IF x < 0 THEN FRound(-1, WNeg(w), 0) ELSE FRound(1, w, 0)
FMul(a, b) == IF a.m = 0 \/ b.m = 0 THEN [FZero EXCEPT !.s = a.s * b.s]
              ELSE FRound(a.s * b.s, WMul(a.m, b.m), a.e + b.e)
FScale(f, n) == IF f.m = 0 THEN f ELSE [f EXCEPT !.e = f.e + n]

(* 1 / n for an integer 1 <= n < 2^15 *)
FRecip(n) ==
  LET b  == 31 - NormB(n, 32)                    \* 2^(b-1) <= n < 2^b
      q1 == 2^(b + 11) \div n   r1 == 2^(b + 11) % n
      q2 == (r1 * 4096) \div n  r2 == (r1 * 4096) % n
      q  == (q1 * 4096) + q2                     \* 2^(b+23) / n
  IN  IF q = 16777216 THEN [s |-> 1, m |-> 8388608, e |-> -(b + 22)]   \* n = 2^(b-1)
      ELSE [s |-> 1, m |-> IF 2 * r2 > n THEN q + 1 ELSE q, e |-> -(b + 23)]

(* (int) (f + half) away from zero; |f| < 2^22 *)
FHalfInt(f) ==
  IF f.m = 0 \/ f.e < -41 THEN 0
  ELSE LET a == WAdd(WShl(WInt(f.m), f.e + 41), WPow2(40))     \* units 2^-41
           r == FRound(1, a, -41)
           i == IF r.e >= 0 THEN r.m * 2^r.e ELSE IF r.e <= -24 THEN 0 ELSE r.m \div 2^(-r.e)
       IN  f.s * i
=============================================================================
