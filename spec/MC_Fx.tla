-------------------------------- MODULE MC_Fx --------------------------------
(* The arithmetic every kernel specification is written in, checked against    *)
(* first-principles definitions: FxMath on all words of a small width (all     *)
(* operators take the width as a parameter) and the wide arithmetic on a grid  *)
(* of values around every power of two.                                        *)
EXTENDS FxMath, FiniteSets, TLC

CONSTANTS B, C, Grid          \* word width, narrow width, exponents of the grid

VARIABLES k, x, y, n          \* k: which family of obligations this state carries
vars == <<k, x, y, n>>

Words == MinB(B)..MaxB(B)
G0 == UNION {{2^e - 1, 2^e, 2^e + 1} : e \in Grid}
GW == G0 \cup {-g : g \in G0} \cup {0, MAX32, MIN32, MAX32 - 1, MIN32 + 1}

Init == \/ k = "round" /\ x \in Words /\ n \in (-B - 1)..(B + 1) /\ y = 0
        \/ k = "pair" /\ x \in Words /\ y \in {w \in Words : w % 3 = 0 \/ w \in {MinB(B), MaxB(B), -1, 1}} /\ n = 0
        \/ k = "wide" /\ x \in GW /\ y \in GW /\ n \in {0}
        \/ k = "wsh" /\ x \in GW /\ y \in GW /\ n \in {1, 2, 7, 15, 21, 22, 23, 30, 31, 32, 40, 44, 45, 62}
Spec == Init /\ [][UNCHANGED vars]_vars

(* --- exact definitions over unbounded-enough integers ---------------------- *)
P == 2^n
Tie == n > 0 /\ (2 * x) % P = 0 /\ x % P # 0 /\ ((2 * x) \div P) % 2 = 1
Near(q) == 2 * (q * P - x) <= P /\ 2 * (x - q * P) <= P            \* |q - x/2^n| <= 1/2
R(z, s) == AsrRndB(z, s, B)

(* dropping n bits: the nearest value; a tie goes up, or to the even neighbour. *)
(* The one exception is a half that does not fit the word any more (half up).   *)
Rounding ==
  k = "round" /\ n > 0 /\ n < B =>
    IF RoundUp /\ x > MaxB(B) - 2^(n-1) THEN R(x, n) = MaxB(B) \div P
    ELSE /\ Near(R(x, n))
         /\ Tie => IF RoundUp THEN R(x, n) * P > x ELSE R(x, n) % 2 = 0
Monotone == k = "round" /\ n > 0 /\ x < MaxB(B) => R(x, n) <= R(x + 1, n)
LeftSat == k = "round" /\ n <= 0 => R(x, n) = SatB(x * 2^(-n), B) /\ AslB(x, -n, B) = SatB(x * 2^(-n), B)
Narrow == k = "round" => /\ CastB(x, n, B, C) >= MinB(C) /\ CastB(x, n, B, C) <= MaxB(C)
                         /\ n = 0 /\ x >= MinB(C) /\ x <= MaxB(C) => CastB(x, n, B, C) = x
                         /\ n = 0 /\ x > MaxB(C) => CastB(x, n, B, C) = MaxB(C)
                         /\ n = 0 /\ x < MinB(C) => CastB(x, n, B, C) = MinB(C)
Norm == k = "round" /\ x # 0 =>
          LET s == NormB(x, B) IN AslB(x, s, B) = x * 2^s /\ x * 2^s >= MinB(B) /\ x * 2^s <= MaxB(B)
                                  /\ (x # -1 => ~(x * 2^(s + 1) >= MinB(B) /\ x * 2^(s + 1) <= MaxB(B)))
Wide1 == k = "round" /\ n > 0 /\ n < B =>
          LET w == WAsrRnd64(WInt(x), n)
          IN  /\ WFits32(w) /\ Near(WToInt(w))
              /\ Tie => IF RoundUp THEN WToInt(w) * P > x ELSE WToInt(w) % 2 = 0
              /\ RndShrSmall(x, n) = WToInt(w)
              /\ ShiftSat64(x, n, C) = SatB(WToInt(w), C)
Sat == k = "pair" => AddB(x, y, B) = SatB(x + y, B) /\ SubB(x, y, B) = SatB(x - y, B)
Prod == k = "pair" => WToInt(WMul(x, y)) = x * y

(* --- wide arithmetic: ring and shift laws ----------------------------------- *)
WideRing == k = "wide" =>
  /\ WMul(x, y) = WMul(y, x)
  /\ WSub(WAdd(WInt(x), WInt(y)), WInt(y)) = WInt(x)
  /\ x < MAX32 => WMul(x + 1, y) = WAdd(WMul(x, y), WInt(y))
  /\ WNeg(WNeg(WInt(x))) = WInt(x)
  /\ WLt(WInt(x), WInt(y)) = (x < y)
  /\ WSat32(WInt(x)) = x /\ WLow32(WInt(x)) = x /\ WFits32(WInt(x))
  /\ Cardinality({i \in {1, 2, 3} : <<WLt(WMul(x, y), W0), WMul(x, y) = W0, WLt(W0, WMul(x, y))>>[i]}) = 1
  /\ (WLt(WMul(x, y), W0) <=> (x < 0 /\ y > 0) \/ (x > 0 /\ y < 0))
WideShift == k = "wsh" =>
  LET p == WMul(x, y)  q == WAsr(p, n)  rem == WSub(p, WShl(q, n))
  IN  /\ ~WIsNeg(rem) /\ WLt(rem, WPow2(n))                          \* floor division
      /\ WAsr(WAsr(p, n), 3) = WAsr(p, n + 3)
      /\ LET r == WAsrRnd64(p, n)  d == WSub(WShl(r, n), p)  h == WPow2(n - 1)
         IN  /\ WLe(d, h) /\ WLe(WNeg(d), h)                          \* nearest
             /\ d = h => RoundUp \/ r[3] % 2 = 0
             /\ d = WNeg(h) => ~RoundUp /\ r[3] % 2 = 0
      /\ n <= 30 => MulShiftSat(x, y, n, 16) = WSatB(WAsrRnd64(p, n), 16)
      /\ WAsr(WAsl64(WInt(x), Min2(n, 31)), Min2(n, 31)) = WInt(x)
=============================================================================
