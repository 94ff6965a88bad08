------------------------------- MODULE FxMath -------------------------------
(* Fixed point arithmetic of the library: saturating add/sub/shift, rounding *)
(* shifts (mode RoundUp: half up; otherwise: half to even), narrowing casts, *)
(* on words of b in {8,16,32} bits, and the 64-bit forms on Wide values.     *)
EXTENDS Integers, Sequences, Wide

CONSTANT RoundUp   \* TRUE: ROUND_MODE=UP, FALSE: ROUND_MODE=CONVERGENT

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
Ceil(a, b) == (a + b - 1) \div b

MaxB(b) == IF b = 32 THEN MAX32 ELSE 2^(b-1) - 1
MinB(b) == -MaxB(b) - 1
LimB(x, b) == IF x < 0 THEN MinB(b) ELSE MaxB(b)
SatB(x, b) == Clamp(x, MinB(b), MaxB(b))

(* saturating addition / subtraction on b-bit words *)
AddB(x, y, b) == IF y > 0 /\ x > MaxB(b) - y THEN MaxB(b)
                 ELSE IF y < 0 /\ x < MinB(b) - y THEN MinB(b) ELSE x + y
SubB(x, y, b) == IF y < 0 /\ x > MaxB(b) + y THEN MaxB(b)
                 ELSE IF y > 0 /\ x < MinB(b) + y THEN MinB(b) ELSE x - y

(* floor shift right, n >= 0 *)
Asr(x, n) == IF n >= 31 THEN (IF x < 0 THEN -1 ELSE 0) ELSE x \div 2^n

RECURSIVE AslB(_,_,_), AsrRndB(_,_,_)

(* shift left with saturation (n may be negative: plain floor shift right) *)
AslB(x, n, b) ==
  IF n < 0 THEN Asr(x, -n)
  ELSE IF n = 0 \/ x = 0 THEN x
  ELSE IF n > b - 1 THEN LimB(x, b)
  ELSE LET hi == Asr(x, b - 1 - n)
       IN  IF hi = 0 \/ hi = -1
           THEN (IF n = 31 THEN MIN32 ELSE x * 2^n)
           ELSE LimB(x, b)

(* rounding shift right on a b-bit word; the half added in UP mode saturates *)
AsrRndB(x, n, b) ==
  IF n < 0 THEN AslB(x, -n, b)
  ELSE IF n = 0 THEN x
  ELSE IF n > b - 1 THEN 0
  ELSE IF RoundUp THEN Asr(AddB(x, 2^(n-1), b), n)
  ELSE LET q    == Asr(x, n)
           half == 2^(n-1)
           rem  == IF n = 31 THEN (IF x < 0 THEN (x + MAX32) + 1 ELSE x) ELSE x - (q * 2^n)
       IN  IF rem >= half /\ (q % 2 = 1 \/ rem > half) THEN q + 1 ELSE q

(* cast of a b-bit word to a c-bit word after a rounding shift right *)
CastB(x, n, b, c) == SatB(AsrRndB(x, n, b), c)

(* number of redundant sign bits of a b-bit word *)
RECURSIVE NormCount(_, _)
NormCount(x, r) == IF x = 0 \/ x = -1 THEN r ELSE NormCount(x \div 2, r + 1)
NormB(x, b) == (b - 1) - NormCount(x, 0)

(* normalising cast: b-bit value x to c bits; yields <<value, shift>> *)
NormCast(x, b, c) == LET s == (b - c) - NormB(x, b)
                     IN  <<CastB(x, s, b, c), s>>

--------------------------------------------------------------------------------
(* 64-bit forms on wide values *)
WMax64 == <<524287, 4194303, 4194303>>
WMin64 == <<-524288, 0, 0>>
WSat64(a) == IF WLt(WMax64, a) THEN WMax64 ELSE IF WLt(a, WMin64) THEN WMin64 ELSE a

WAsl64(a, n) ==
  IF n < 0 THEN WAsr(a, -n)
  ELSE IF a = W0 \/ n = 0 THEN a
  ELSE IF n > 63 THEN (IF WIsNeg(a) THEN WMin64 ELSE WMax64)
  ELSE LET hi == WAsr(a, 63 - n)
       IN  IF hi = W0 \/ hi = <<-1, 4194303, 4194303>>
           THEN WShl(a, n) ELSE (IF WIsNeg(a) THEN WMin64 ELSE WMax64)

WAsrRnd64(a, n) ==
  IF n < 0 THEN WAsl64(a, -n)
  ELSE IF n = 0 THEN a
  ELSE IF n > 63 THEN W0
  ELSE IF RoundUp THEN WAsr(WSat64(WAdd(a, WPow2(n-1))), n)
  ELSE LET q    == WAsr(a, n)
           rem  == WSub(a, WShl(q, n))
           half == WPow2(n-1)
       IN  IF WLe(half, rem) /\ (q[3] % 2 = 1 \/ WLt(half, rem)) THEN WAdd(q, W1) ELSE q

(* saturation of a wide value to c bits, c <= 32 *)
WSatB(a, c) == SatB(WSat32(a), c)

(* 64-bit rounding shift of the product of two words, saturated to c bits.   *)
(* Small operands take an equivalent route through machine integers: in 64   *)
(* bits the added half cannot saturate.                                      *)
RndShrSmall(x, n) ==       \* 64-bit rounding shift of a 32-bit x, 1 <= n <= 30
  IF RoundUp THEN (Asr(x, n - 1) + 1) \div 2
  ELSE LET h1  == Asr(x, n - 1)
           q   == h1 \div 2
       IN  IF h1 % 2 = 1 /\ (q % 2 = 1 \/ x # h1 * 2^(n-1)) THEN q + 1 ELSE q

Small16(x) == x >= -32768 /\ x <= 32767

MulShiftSat(a, m, n, c) ==
  IF n >= 1 /\ n <= 30 /\ Small16(a) /\ Small16(m)
  THEN SatB(RndShrSmall(a * m, n), c)
  ELSE WSatB(WAsrRnd64(WMul(a, m), n), c)

(* 64-bit rounding shift (either direction) of a 32-bit x, saturated to c bits *)
ShiftSat64(x, n, c) ==
  IF n >= 1 /\ n <= 30 THEN SatB(RndShrSmall(x, n), c)
  ELSE IF n = 0 THEN SatB(x, c)
  ELSE WSatB(WAsrRnd64(WInt(x), n), c)
=============================================================================
