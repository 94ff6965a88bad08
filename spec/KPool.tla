-------------------------------- MODULE KPool --------------------------------
(* Pooling over the valid part of the window, and requantisation between two  *)
(* formats as used by pooling, conversion and rescaling.                      *)
EXTENDS KRnn

CONSTANT Ave16      \* TRUE: AVEPOOL_16BIT_MUL

(* scale, shift, offset that take values of tensor ti to the format of to;    *)
(* i: index along a quantised axis                                            *)
ReqPar(mem, ti, to, i) ==
  LET si == Sc(mem, ti, i)
      so == Sc(mem, to, i)
      k  == NormB(si, 32) - NormB(so, 16)
      n  == NormCast((si * 2^k) \div so, 32, 16)
      sh == ((k + Fr(mem, ti, i)) - Fr(mem, to, i)) - n[2]
  IN  [sc |-> n[1], sh |-> sh,
       off |-> SubB(Zp(mem, to, i), CastB(n[1] * Zp(mem, ti, i), sh, 32, 16), 16)]

(* 1/n as a 15 bit fraction m / 2^(14 + c), m in 2^14 .. 2^15 - 1             *)
CeilLog2(n) == IF n = 1 THEN 0 ELSE BitLen(n - 1)
Recip(n) == LET c == CeilLog2(n) IN <<(2^(14 + c)) \div n, 14 + c>>

WinPos(ti, o, p, ch) ==             \* memory positions of the valid window
  LET rows == Hits(o[1], p.sh, p.pt, 1, p.kh, ti.sh[1])
      cols == Hits(o[2], p.sw, p.pl, 1, p.kw, ti.sh[2])
      n    == Len(cols)
  IN  [i \in 1..(Len(rows) * n) |->
        1 + ti.off + (rows[((i - 1) \div n) + 1][1] * ti.st[1]) + (cols[((i - 1) % n) + 1][1] * ti.st[2]) + (ch * ti.st[3])]

AveVal(A, ti, to, ps, rq) ==
  LET r == Recip(Len(ps))
      s == FoldLeft(LAMBDA a, q : a + A[q], 0, ps)
      b == Bits(ti.el)
  IN  IF ti.el = "sa8"
      THEN LET m  == NormCast(rq.sc * r[1], 32, IF Ave16 THEN 16 ELSE 8)
               sh == (rq.sh + r[2]) - m[2]
           IN  IF sh >= 0 /\ sh <= 22 /\ Len(ps) <= 256 /\ Abs(rq.off) <= 128
               THEN CastB(rq.off * 2^sh + (m[1] * s), sh, 32, 8)     \* exact in 32 bits
               ELSE WSatB(WAsrRnd64(WAdd(WAsl64(WInt(rq.off), sh), WMul(s, m[1])), sh), 8)
      ELSE MulShiftSat(s, r[1], (ti.q.fr - to.q.fr) + r[2], b)

PoolVals(kind, p, mem, ti, to) ==
  LET A  == mem[ti.ar]
      C  == to.sh[3]
      V  == to.sh[2]
      rq == IF kind = "ave" /\ ti.el = "sa8" THEN ReqPar(mem, ti, to, 0) ELSE 0
      W  == [i \in 1..(to.sh[1] * V) |-> WinPos(ti, <<(i - 1) \div V, (i - 1) % V>>, p, 0)]
      val(i, ch) == LET ps == [k \in DOMAIN W[i] |-> W[i][k] + (ch * ti.st[3])]
                    IN  IF kind = "max" THEN FoldLeft(LAMBDA a, q : Max2(a, A[q]), A[ps[1]], ps)
                        ELSE AveVal(A, ti, to, ps, rq)
  IN  [i \in 1..(to.sh[1] * V * C) |-> val(((i - 1) \div C) + 1, (i - 1) % C)]
=============================================================================
