----------------------------- MODULE KTransform -----------------------------
(* Activation functions: ReLU family, table driven sigmoid and tanh, softmax *)
(* and L2 normalisation.  Operators yield row-major output values.           *)
EXTENDS KEltwise

(* ------------------------------------------------------------ ReLU limits *)
(* limits a ReLU type denotes in a format with zero z, scale sc, frac fr      *)
ReluLimits(type, z, sc, fr, b) ==
  LET mx  == MaxB(b)  mn == MinB(b)
      six == (IF fr >= 0 THEN (IF fr < 28 THEN (6 * 2^fr) \div sc ELSE mx)
              ELSE IF fr > -3 THEN (6 \div 2^(-fr)) \div sc ELSE 0) + z
      one == IF fr >= 0 THEN (IF fr < 30 THEN (2^fr) \div sc ELSE mx) ELSE 0
  IN  CASE type = 1 -> <<Max2(z, mn), mx>>
        [] type = 3 -> <<Max2(z, mn), Min2(six, mx)>>
        [] type = 2 -> <<Max2(z - one, mn), Min2(one + z, mx)>>
        [] OTHER -> <<mn, mx>>

LimitsOf(type, mem, t) ==
  ReluLimits(type, Zp(mem, t, 0), Sc(mem, t, 0), Fr(mem, t, 0), Bits(t.el))

ReluVals(type, mem, ti) ==
  LET l == LimitsOf(type, mem, ti)
      X == Rd(mem, ti)
  IN  [i \in DOMAIN X |-> Min2(Max2(X[i], l[1]), l[2])]

(* ------------------------------------------------- leaky / parametric ReLU *)
FxLeaky(x, alpha, shift, b) ==
  AddB(Max2(0, x), CastB(Min2(0, x) * alpha, Min2(shift, 31), 32, b), b)

(* leaky ReLU on 16 bit normalises the slope first *)
FxLeakyVals(mem, ti, ts, to, alpha(_), norm) ==
  LET b == Bits(ti.el)
      X == Rd(mem, ti)
      sh == Fr(mem, ti, 0) + Fr(mem, ts, 0) - Fr(mem, to, 0)
      val(x, a) == IF norm /\ b = 16
                   THEN LET n == NormCast(a, 16, 16) IN FxLeaky(x, n[1], sh - n[2], b)
                   ELSE FxLeaky(x, a, sh, b)
  IN  [i \in DOMAIN X |-> val(X[i], alpha(i))]

IdentityPar(qi, qo) ==
  LET k  == NormB(qi.sc, 32) - NormB(qo.sc, 16)
      n  == NormCast(TDiv(qi.sc * 2^k, qo.sc), 32, 16)
      sh == k + qi.fr - qo.fr - n[2]
  IN  [sc |-> AslB(n[1], Max2(-sh, 0), 16), sh |-> Max2(sh, 0)]

AlphaPar(id, a, qs) ==
  LET al == NormCast((a - qs.zp) * qs.sc, 32, 16)
      sa == NormCast(id.sc * al[1], 32, 16)
  IN  [sc |-> sa[1], sh |-> id.sh + qs.fr - al[2] - sa[2]]

SaLeaky(x, zi, zo, id, al) ==
  LET p == IF x >= zi THEN id ELSE al
  IN  SatB(AddB(AsrRndB(p.sc * (x - zi), p.sh, 32), zo, 32), 8)

SaLeakyVals(mem, ti, ts, to, alpha(_)) ==
  LET X  == Rd(mem, ti)
      qi == QOf(mem, ti)  qs == QOf(mem, ts)  qo == QOf(mem, to)
      id == IdentityPar(qi, qo)
  IN  [i \in DOMAIN X |-> SaLeaky(X[i], qi.zp, qo.zp, id, AlphaPar(id, alpha(i), qs))]

(* axis -1: leaky ReLU with a scalar slope *)
PreluVals(axis, mem, ti, ts, to) ==
  LET S == Rd(mem, ts)
      alpha(i) == IF axis < 0 THEN S[1] ELSE S[AxisIdx(i, ti.sh, axis) + 1]
  IN  IF IsFx(ti.el) THEN FxLeakyVals(mem, ti, ts, to, alpha, axis < 0)
      ELSE SaLeakyVals(mem, ti, ts, to, alpha)

(* ----------------------------------------------------------- table look-up *)
(* l = [t |-> table, inf |-> input fraction, outf, ino |-> index of 0]        *)
(* x is an integer with f fractional bits                                     *)
LutInterp(l, x0, f) ==
  LET sh0 == f - l.inf
      pre == Min2(Max2(sh0 - 15, 0), 15)
      sh  == Min2(sh0, 15)
      x   == Asr(x0, pre)
      idx == Clamp(Asr(x, sh) + l.ino, 0, Len(l.t) - 2)
      fr  == x % 2^sh
      a   == l.t[idx + 1]
      d   == a - l.t[idx + 2]
  IN  a - CastB(d * fr, sh, 32, 16)

LutDirect(l, x, f) ==
  l.t[Clamp(AddB(AslB(x, l.inf - f, 32), l.ino, 32), 0, Len(l.t) - 1) + 1]

LutFx(l, x, f) == IF f - l.inf > 0 THEN LutInterp(l, x, f) ELSE LutDirect(l, x, f)

(* asymmetric input brought to 16 bit with 15 - (7 - inf) fractional bits *)
SaFrac(l) == 8 + l.inf
SaToFx(l, x, zp, q) == CastB((x - zp) * q.sc, q.fr - SaFrac(l), 32, 32)

SaOut(v, outf, zo, fo) == SatB(AsrRndB(v, outf - fo, 32) + zo, 8)

SigmOutQ(fn) == IF fn = "sigm" THEN [zp |-> -128, fr |-> 8] ELSE [zp |-> 0, fr |-> 7]

LutVals(fn, l, mem, ti) ==
  LET X == Rd(mem, ti)
      q == QOf(mem, ti)
      o == SigmOutQ(fn)
  IN  CASE ti.el = "fx16" -> [i \in DOMAIN X |-> LutFx(l, X[i], q.fr)]
        [] ti.el = "fx8"  -> [i \in DOMAIN X |-> CastB(LutFx(l, X[i], q.fr), 8, 16, 8)]
        [] ti.el = "sa8"  -> [i \in DOMAIN X |->
              SaOut(LutInterp(l, SaToFx(l, X[i], q.zp, q), SaFrac(l)), l.outf, o.zp, o.fr)]

(* ------------------------------------------------------ slices along axis *)
(* slice number of element i: all elements for axis -1, otherwise its        *)
(* coordinates with the axis removed                                         *)
SliceKey(i, sh, axis) == IF axis < 0 THEN << >> ELSE [Unflat(i, sh) EXCEPT ![axis + 1] = 0]
Slice(i, sh, axis) == LET k == SliceKey(i, sh, axis)
                      IN  {j \in 1..ProdSeq(sh) : SliceKey(j, sh, axis) = k}
SeqMax(s) == FoldLeft(LAMBDA a, x : Max2(a, x), s[1], s)
SetMax(S, f(_)) == LET m == CHOOSE x \in S : TRUE
                   IN  FoldSet(LAMBDA x, a : Max2(f(x), a), f(m), S)
SetSum(S, f(_)) == FoldSet(LAMBDA x, a : AddB(a, f(x), 32), 0, S)

(* ----------------------------------------------------------------- softmax *)
SoftSlice(l, mem, ti, X, S) ==       \* output value for each position in S
  LET q   == QOf(mem, ti)
      b   == Bits(ti.el)
      mx  == SetMax(S, LAMBDA i : X[i])
      e   == [i \in S |->
               CASE ti.el = "sa8" -> LutInterp(l, SaToFx(l, X[i], mx, q), SaFrac(l))
                 [] ti.el = "fx16" -> LutFx(l, SubB(X[i], mx, 32), q.fr)
                 [] ti.el = "fx8" -> CastB(LutFx(l, SubB(X[i], mx, 32), q.fr), 8, 16, 8)]
      sum == SetSum(S, LAMBDA i : e[i])
      ex  == NormB(sum, 32)
      mnt == CastB(sum, 16 - ex, 32, 16)
      rec == Min2(536870912 \div mnt, 32767)
      fo  == IF ti.el = "sa8" THEN 8 ELSE b - 1
      sh  == Min2(2*l.outf + 15 - ex - fo, 31)
  IN  [i \in S |-> IF ti.el = "sa8" THEN SatB(AsrRndB(rec * e[i], sh, 32) - 128, 8)
                   ELSE CastB(rec * e[i], sh, 32, b)]

BySlices(sh, axis, f(_)) ==
  LET n    == ProdSeq(sh)
      keys == {SliceKey(i, sh, axis) : i \in 1..n}
      sl   == [k \in keys |-> f({i \in 1..n : SliceKey(i, sh, axis) = k})]
  IN  [i \in 1..n |-> sl[SliceKey(i, sh, axis)][i]]

SoftmaxVals(axis, l, mem, ti) ==
  LET X == Rd(mem, ti) IN BySlices(ti.sh, axis, LAMBDA S : SoftSlice(l, mem, ti, X, S))

(* -------------------------------------------------------------- L2 norm *)
BitLen(x) == IF x = 0 THEN 0 ELSE 31 - NormB(x, 32)     \* x >= 0
WBitLen(a) == IF a[1] > 0 THEN 44 + BitLen(a[1]) ELSE IF a[2] > 0 THEN 22 + BitLen(a[2]) ELSE BitLen(a[3])

L2Slice(l, mem, ti, X, S) ==
  LET b   == Bits(ti.el)
      z   == Zp(mem, ti, 0)
      d(i) == SubB(X[i], z, 16)
      sum == FoldSet(LAMBDA i, a : WAdd(a, WInt(d(i) * d(i))), W0, S)
      n0  == 48 - (63 - WBitLen(sum))
      n   == IF n0 % 2 = 1 THEN n0 + 1 ELSE n0
      s16 == WSatB(WAsrRnd64(sum, n), 16)
      inv == LutInterp(l, s16, 8)
      sh  == (l.outf + Asr(n + 8, 1)) - (IF ti.el = "sa8" THEN 7 ELSE b - 1)
  IN  [i \in S |-> CastB(inv * d(i), sh, 32, b)]

L2Vals(axis, l, mem, ti) ==
  LET X == Rd(mem, ti) IN BySlices(ti.sh, axis, LAMBDA S : L2Slice(l, mem, ti, X, S))

TensorQ(t, zp, sc, fr) == [t EXCEPT !.q = [dim |-> -1, zp |-> zp, sc |-> sc, fr |-> fr]]
TransfQ(t) == TensorQ(t, 0, 1, Bits(t.el) - 1)      \* fixed point, no integer bits
SigmQ(fn, t) == IF IsFx(t.el) THEN TransfQ(t)
                ELSE TensorQ(t, SigmOutQ(fn).zp, 1, SigmOutQ(fn).fr)
SoftmaxQ(t) == IF IsFx(t.el) THEN TransfQ(t) ELSE TensorQ(t, -128, 1, 8)
L2Q(t) == IF IsFx(t.el) THEN TransfQ(t) ELSE TensorQ(t, 0, 1, 7)
=============================================================================
