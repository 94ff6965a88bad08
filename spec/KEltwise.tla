------------------------------ MODULE KEltwise ------------------------------
(* Element-wise add, sub, mul, min, max on fixed point and asymmetric types. *)
EXTENDS Tensor

EltMaxMinLimit == 23
EltMulMaxShift == 31

(* truncating division, divisor > 0 *)
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

(* --- fixed point --------------------------------------------------------- *)
FxElt(op, x, y, b, f1, f2, fo) ==
  LET maxs == IF op \in {"min", "max"} THEN b - 1 ELSE 2*b - 1
      p1   == IF op \in {"add", "sub"} THEN Min2(f1 - f2, 0) ELSE 0
      p2   == IF op \in {"add", "sub"} THEN Min2(f2 - f1, 0) ELSE 0
      post == CASE op = "mul" -> f1 + f2 - fo
                [] op \in {"min", "max"} -> f1 - fo
                [] OTHER -> Max2(f1, f2) - fo
      ps   == Min2(post, maxs)
      i1   == AsrRndB(x, p1, 32)
      i2   == AsrRndB(y, p2, 32)
  IN  CASE op = "add" -> ShiftSat64(AddB(i1, i2, 32), ps, b)
        [] op = "sub" -> ShiftSat64(SubB(i1, i2, 32), ps, b)
        [] op = "mul" -> ShiftSat64(i1 * i2, ps, b)
        [] op = "max" -> AsrRndB(Max2(i1, i2), ps, b)
        [] op = "min" -> AsrRndB(Min2(i1, i2), ps, b)

(* --- asymmetric 8 bit: scaling parameters -------------------------------- *)
LimitShift(s, upper) == Max2(s - upper, 0) + Min2(EltMulMaxShift + s, 0)

OneScale(sc, sh, sco, sho) ==          \* sc*2^-sh / (sco*2^-sho) as <<scale16, shift>>
  LET n1 == NormCast(sc, 32, 32)
      n2 == NormCast(TDiv(n1[1], sco), 32, 16)
  IN  <<n2[1], sh - sho - n1[2] - n2[2]>>

Limited(p, upper) == LET l == LimitShift(p[2], upper)
                     IN  <<AsrRndB(p[1], l, 16), p[2] - l>>

SaEltPar(op, q1, q2, qo) ==            \* q = [zp, sc, fr]
  CASE op \in {"min", "max"} ->
         LET p == Limited(OneScale(q1.sc, q1.fr, qo.sc, qo.fr), EltMaxMinLimit)
         IN  [s1 |-> p[1], s2 |-> p[1], p1 |-> 0, p2 |-> 0, post |-> p[2]]
    [] op = "mul" ->
         LET p == Limited(OneScale(q1.sc * q2.sc, q1.fr + q2.fr, qo.sc, qo.fr), EltMulMaxShift)
         IN  [s1 |-> p[1], s2 |-> 1, p1 |-> 0, p2 |-> 0, post |-> p[2]]
    [] OTHER ->
         LET a == Limited(OneScale(q1.sc, q1.fr, qo.sc, qo.fr), EltMaxMinLimit)
             c == Limited(OneScale(q2.sc, q2.fr, qo.sc, qo.fr), EltMaxMinLimit)
         IN  [s1 |-> a[1], s2 |-> c[1], p1 |-> a[2], p2 |-> c[2], post |-> 0]

SaElt(op, x, y, z1, z2, zo, p) ==
  LET d1 == SubB(x, z1, 16)
      d2 == SubB(y, z2, 16)
      m1 == d1 * p.s1
      m2 == d2 * p.s2
      fin(v) == SatB(AddB(v, zo, 16), 8)
  IN  CASE op = "mul" ->
             LET pre == Min2(Max2(p.post - 21, 0), 3)
                 a16 == CastB(d1 * d2, pre, 32, 16)
             IN  fin(CastB(a16 * p.s1, p.post - pre, 32, 16))
        [] op = "add" -> fin(SatB(AddB(AsrRndB(m1, p.p1, 32), AsrRndB(m2, p.p2, 32), 32), 16))
        [] op = "sub" -> fin(SatB(SubB(AsrRndB(m1, p.p1, 32), AsrRndB(m2, p.p2, 32), 32), 16))
        [] op = "max" -> fin(CastB(Max2(m1, m2), p.post, 32, 16))
        [] op = "min" -> fin(CastB(Min2(m1, m2), p.post, 32, 16))

(* --- whole tensors -------------------------------------------------------- *)
QOf(mem, t) == [zp |-> Zp(mem, t, 0), sc |-> Sc(mem, t, 0), fr |-> Fr(mem, t, 0)]

EltVals(op, mem, t1, t2, to) ==
  LET X  == Rd(mem, t1)
      Y  == Rd(mem, t2)
      n  == Max2(Len(X), Len(Y))
      xi(i) == IF Len(X) = 1 THEN X[1] ELSE X[i]
      yi(i) == IF Len(Y) = 1 THEN Y[1] ELSE Y[i]
      b  == Bits(t1.el)
      f1 == Fr(mem, t1, 0)  f2 == Fr(mem, t2, 0)  fo == Fr(mem, to, 0)
      q1 == QOf(mem, t1)  q2 == QOf(mem, t2)  qo == QOf(mem, to)
      p  == SaEltPar(op, q1, q2, qo)
  IN  IF IsFx(t1.el)
      THEN [i \in 1..n |-> FxElt(op, xi(i), yi(i), b, f1, f2, fo)]
      ELSE [i \in 1..n |-> SaElt(op, xi(i), yi(i), q1.zp, q2.zp, qo.zp, p)]
=============================================================================
