-------------------------------- MODULE KConv --------------------------------
(* Multiply-accumulate layers: 2D, depthwise, group and transpose             *)
(* convolution, fully connected.  Every output is the exact sum of products   *)
(* over the taps that hit the input, minus zero point terms, plus the bias    *)
(* aligned to the sum, brought to the output format.                          *)
EXTENDS KTransform

CONSTANT FullAccu      \* TRUE: the full accumulator enters the output scaling

SumTo(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, Seq1(n))

(* ---- exact sums -------------------------------------------------------- *)
(* ps: sequence of <<index in A, index in W>> (1-based), shifted by da, dw   *)
DotInt(A, W, ps, da, dw) ==
  FoldLeft(LAMBDA s, p : s + (A[p[1] + da] * W[p[2] + dw]), 0, ps)
(* 16 x 16 bit: high and low parts summed apart *)
DotWide(A, W, ps, da, dw) ==
  LET s == FoldLeft(LAMBDA s, p : LET m == A[p[1] + da] * W[p[2] + dw]
                                  IN  <<s[1] + (m \div 32768), s[2] + (m % 32768)>>, <<0, 0>>, ps)
  IN  WAdd(WShl(WInt(s[1]), 15), WInt(s[2]))
SumA(A, ps, da) == FoldLeft(LAMBDA s, p : s + A[p[1] + da], 0, ps)
SumW(W, ps, dw) == FoldLeft(LAMBDA s, p : s + W[p[2] + dw], 0, ps)

(* ---- asymmetric output scaling ------------------------------------------ *)
SaScale(mem, ti, tw, to, co) ==
  LET n1  == NormCast(ti.q.sc, 32, 32)
      un  == n1[1] \div to.q.sc
      nn  == NormB(un, 32)
      rat == CastB(un, 16 - nn, 32, 16)
      idx == IF tw.q.dim < 0 THEN 0 ELSE co
      mul == rat * Sc(mem, tw, idx)
      sh  == (((ti.q.fr - n1[2]) - to.q.fr) - (16 - nn)) + Fr(mem, tw, idx)
      nm  == NormB(mul, 32)
  IN  IF FullAccu THEN [mul |-> mul, sh |-> sh]
      ELSE [mul |-> AslB(mul, nm, 32), sh |-> sh + nm]

SaBias(b) == IF FullAccu THEN b
             ELSE LET s == Max2(16 - NormB(b, 32), 0) IN AslB(Asr(b, s), s, 32)

SaRequant(acc, q, zo) ==
  LET mul == IF FullAccu THEN q.mul ELSE AsrRndB(q.mul, 16, 32)
      sh  == IF FullAccu THEN q.sh ELSE q.sh - 16
      pre == IF FullAccu THEN 0 ELSE Clamp(sh - 21, 0, 8)
      a   == IF FullAccu THEN acc ELSE SatB(AsrRndB(acc, pre, 32), 16)
  IN  SatB(AddB(MulShiftSat(a, mul, Min2(sh - pre, 63), 16), zo, 16), 8)

(* ---- one output value ---------------------------------------------------- *)
(* A, W: memories of input and weights; ps, da, dw: the taps; b: bias value   *)
(* zi: input zero point to use                                                *)
MacFx(A, W, ps, da, dw, b, ti, tw, tb, to) ==
  LET bs == (ti.q.fr + tw.q.fr) - tb.q.fr
      os == (ti.q.fr + tw.q.fr) - to.q.fr
  IN  IF tw.el = "fx16"
      THEN WSatB(WAsrRnd64(WAdd(DotWide(A, W, ps, da, dw), WAsl64(WInt(b), bs)), os), 16)
      ELSE CastB(AddB(DotInt(A, W, ps, da, dw), AslB(b, bs, 32), 32), os, 32, Bits(to.el))

SaSum(A, W, ps, da, dw, zi, zw) ==
  LET xw == DotInt(A, W, ps, da, dw)
      sx == IF zw = 0 THEN 0 ELSE SumA(A, ps, da)
      sw == IF zi = 0 THEN 0 ELSE SumW(W, ps, dw)
  IN  ((xw - (zw * sx)) - (zi * sw)) + (zi * zw * Len(ps))

MacSa(A, W, ps, da, dw, b, zi, zw, q, zo) ==
  SaRequant(AddB(SaSum(A, W, ps, da, dw, zi, zw), SaBias(b), 32), q, zo)

(* ---- geometry -------------------------------------------------------------- *)
(* p = [sw, sh, pl, pt, dw, dh, relu]; kernel positions that hit the input      *)
Hits(o, stride, pad, dil, k, n) ==
  SelectSeq([j \in 1..k |-> <<((o * stride) - pad) + ((j - 1) * dil), j - 1>>],
            LAMBDA h : h[1] >= 0 /\ h[1] < n)
(* transpose: out index o gets in index i through kernel j iff i*s + j = o+pad  *)
HitsT(o, stride, pad, k, n) ==
  SelectSeq([j \in 1..k |-> <<IF ((o + pad) - (j - 1)) % stride = 0 THEN ((o + pad) - (j - 1)) \div stride ELSE -1, j - 1>>],
            LAMBDA h : h[1] >= 0 /\ h[1] < n)

(* cross product of row hits, column hits and nc channels as offset pairs *)
Pairs(ti, tw, rh, chh, nc, wst) ==
  LET nh == Len(chh)
  IN  TLCEval([i \in 1..(Len(rh) * nh * nc) |->
        LET c == (i - 1) % nc
            w == chh[(((i - 1) \div nc) % nh) + 1]
            r == rh[((i - 1) \div (nc * nh)) + 1]
        IN  <<1 + ti.off + (r[1] * ti.st[1]) + (w[1] * ti.st[2]) + (c * ti.st[3]),
              1 + tw.off + (r[2] * wst[1]) + (w[2] * wst[2]) + (c * wst[3])>>])

(* kind: "conv", "depthwise", "group", "transpose"; weights HWCN or HW1N       *)
ConvVals(kind, p, mem, ti, tw, tb, to) ==
  LET A  == mem[ti.ar]
      W  == mem[tw.ar]
      H  == to.sh[1]  V == to.sh[2]  C == to.sh[3]
      nc == IF kind = "depthwise" THEN 1 ELSE tw.sh[3]
      fpg == IF kind = "group" THEN C \div (ti.sh[3] \div nc) ELSE 1
      rows == [r \in 1..H |-> IF kind = "transpose" THEN HitsT(r - 1, p.sh, p.pt, tw.sh[1], ti.sh[1])
                              ELSE Hits(r - 1, p.sh, p.pt, p.dh, tw.sh[1], ti.sh[1])]
      cols == [c \in 1..V |-> IF kind = "transpose" THEN HitsT(c - 1, p.sw, p.pl, tw.sh[2], ti.sh[2])
                              ELSE Hits(c - 1, p.sw, p.pl, p.dw, tw.sh[2], ti.sh[2])]
      ps == TLCEval([i \in 1..(H * V) |-> Pairs(ti, tw, rows[((i - 1) \div V) + 1], cols[((i - 1) % V) + 1], nc, tw.st)])
      da(co) == CASE kind = "depthwise" -> co * ti.st[3]
                  [] kind = "group" -> (co \div fpg) * nc * ti.st[3]
                  [] OTHER -> 0
      B  == Rd(mem, tb)
      l  == LimitsOf(p.relu, mem, to)
      sa == IsSa(ti.el)
      Q  == TLCEval([co \in 0..C-1 |-> IF sa THEN SaScale(mem, ti, tw, to, co) ELSE 0])
      zw == Zp(mem, tw, 0)
      raw(i, co) == IF sa THEN MacSa(A, W, ps[i], da(co), co * tw.st[4], B[co + 1], ti.q.zp, zw, Q[co], to.q.zp)
                    ELSE MacFx(A, W, ps[i], da(co), co * tw.st[4], B[co + 1], ti, tw, tb, to)
  IN  [i \in 1..(H * V * C) |-> Clamp(raw(((i - 1) \div C) + 1, (i - 1) % C), l[1], l[2])]

(* fully connected: the input elements in memory order, weights [in, out]      *)
FcVals(relu, ext, mem, ti, tw, tb, to) ==
  LET A  == mem[ti.ar]
      W  == mem[tw.ar]
      n  == Count(ti)
      ps == TLCEval([i \in 1..n |-> <<ti.off + i, 1 + tw.off + ((i - 1) * tw.st[1])>>])
      B  == Rd(mem, tb)
      l  == LimitsOf(relu, mem, to)
      sa == IsSa(ti.el)
      zw == Zp(mem, tw, 0)
      zi == IF ext THEN 0 ELSE Zp(mem, ti, 0)
      raw(co) == IF sa THEN MacSa(A, W, ps, 0, co * tw.st[2], B[co + 1], zi, zw, SaScale(mem, ti, tw, to, co), to.q.zp)
                 ELSE MacFx(A, W, ps, 0, co * tw.st[2], B[co + 1], ti, tw, tb, to)
  IN  [co \in 1..Len(B) |-> Clamp(raw(co - 1), l[1], l[2])]
=============================================================================
