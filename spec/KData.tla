-------------------------------- MODULE KData --------------------------------
(* Conversion between formats, argmax, permutation, sub-tensors.              *)
EXTENDS KPool, FP32

(* ---------------------------------------------------------- conversion ----- *)
ConvDim(ti, to) == IF PerAxis(to) THEN to.q.dim ELSE IF PerAxis(ti) THEN ti.q.dim ELSE -1

CvtSmall(x, zi, zo, p, c) ==        \* 8 and 16 bit containers
  SatB(AddB(AsrRndB(SubB(x, zi, 16) * p.sc, Min2(p.sh, 31), 32), zo, 32), c)
CvtWide(x, zi, zo, p, c) ==         \* a 32 bit container on either side
  LET d  == SubB(x, zi, 32)
      n  == NormB(d, 32)
      m  == NormB(p.sc, 32)
      hi == WToInt(WAsr(WMul(AslB(d, n, 32), AslB(p.sc, m, 32)), 32))
  IN  SatB(AddB(AsrRndB(hi, ((Min2(p.sh, 63) + m) + n) - 32, 32), zo, 32), c)

ConvertVals(mem, ti, to) ==
  LET X   == Rd(mem, ti)
      d   == ConvDim(ti, to)
      idx(i) == IF d < 0 THEN 0 ELSE AxisIdx(i, ti.sh, d)
      N   == IF d < 0 THEN 1 ELSE ti.sh[d + 1]
      b   == Bits(to.el)
      fi  == ti.el = "fp32"
      fo  == to.el = "fp32"
      P   == [k \in 0..N-1 |-> IF fi \/ fo THEN 0 ELSE ReqPar(mem, ti, to, k)]
      qs  == [k \in 0..N-1 |-> FScale(FRecip(Sc(mem, to, k)), Fr(mem, to, k))]
      ds  == [k \in 0..N-1 |-> FScale(FInt(Sc(mem, ti, k)), -Fr(mem, ti, k))]
      wide == ti.el = "sa32" \/ to.el = "sa32"
      val(i) == LET k == idx(i) IN
        CASE fi /\ fo -> X[i]
          [] fi -> SatB(AddB(FHalfInt(FMul(FDec(X[i]), qs[k])), Zp(mem, to, k), 32), b)
          [] fo -> FEnc(FMul(FInt(SubB(X[i], Zp(mem, ti, k), 32)), ds[k]))
          [] wide -> CvtWide(X[i], Zp(mem, ti, k), Zp(mem, to, k), P[k], b)
          [] OTHER -> CvtSmall(X[i], Zp(mem, ti, k), Zp(mem, to, k), P[k], b)
  IN  [i \in DOMAIN X |-> val(i)]

(* -------------------------------------------------------------- argmax ----- *)
(* out[s, *]: memory positions, relative to the tensor, of the topk largest   *)
(* elements of slice s, largest first                                         *)
ArgmaxOk(axis, k, mem, ti, O) ==
  LET A  == mem[ti.ar]
      P  == Pos(ti)
      n  == Len(P)
      S  == IF axis < 0 THEN 1 ELSE ti.sh[axis + 1]
      of(s) == {P[i] : i \in {i \in 1..n : axis < 0 \/ AxisIdx(i, ti.sh, axis) = s}}
      v(p) == A[p]
      at(s, j) == O[(s * k) + j] + ti.off + 1
  IN  /\ Len(O) = S * k
      /\ \A s \in 0..S-1 :
           LET C == of(s)
               T == {at(s, j) : j \in 1..k}
           IN  /\ T \subseteq C /\ Cardinality(T) = k
               /\ \A j \in 1..k-1 : v(at(s, j)) >= v(at(s, j + 1))
               /\ \A p \in C \ T : v(p) <= v(at(s, k))
IndexQ(t) == [dim |-> -1, zp |-> 0, sc |-> 1, fr |-> 0]

(* ------------------------------------------------------------- permute ----- *)
PermVals(perm, mem, ti, to) ==
  LET X == Rd(mem, ti)
      r == Len(ti.sh)
      src(c) == [d \in 1..r |-> c[CHOOSE e \in 1..r : perm[e] + 1 = d]]
  IN  [i \in 1..Count(to) |-> X[Flat(src(Unflat(i, to.sh)), ti.sh)]]
NewDim(perm, d, r) == (CHOOSE e \in 1..r : perm[e] = d) - 1
(* parameters after the call, and the parameter arrays written *)
PermQ(perm, ti, to) ==
  IF ~PerAxis(ti) THEN ti.q
  ELSE [dim |-> NewDim(perm, ti.q.dim, Len(ti.sh)),
        zp |-> IF to.q.zp[1] = 0 THEN ti.q.zp ELSE to.q.zp,
        sc |-> IF to.q.sc[1] = 0 THEN ti.q.sc ELSE to.q.sc,
        fr |-> IF to.q.fr[1] = 0 THEN ti.q.fr ELSE to.q.fr]
Sub1(ref, n) == [ar |-> ref[1], off |-> ref[2], sh |-> <<n>>, st |-> <<1>>]
PermArrays(mem, ti, to) ==
  IF ~PerAxis(ti) THEN << >>
  ELSE LET n == ti.sh[ti.q.dim + 1]
           one(s, d) == IF d[1] = 0 \/ d = s THEN << >> ELSE <<<<Sub1(d, n), [i \in 1..n |-> Arr(mem, s, i - 1)]>>>>
       IN  one(ti.q.zp, to.q.zp) \o one(ti.q.sc, to.q.sc) \o one(ti.q.fr, to.q.fr)

(* --------------------------------------------------------- sub-tensors ----- *)
StridesOf(t) == LET RECURSIVE S(_)
                    S(d) == IF t.st[d] # 0 THEN t.st[d] ELSE IF d = Len(t.sh) THEN 1 ELSE S(d + 1) * t.sh[d + 1]
                IN  [d \in 1..Len(t.sh) |-> S(d)]
(* dimensions kept when dropping (from the first) size-1 ones down to rank r  *)
RECURSIVE KeepDims(_, _, _)
KeepDims(sz, skip, d) ==
  IF d > Len(sz) THEN << >>
  ELSE IF skip > 0 /\ sz[d] = 1 THEN KeepDims(sz, skip - 1, d + 1)
  ELSE <<d>> \o KeepDims(sz, skip, d + 1)
SubTensor(mem, ti, off, size, r, old) ==
  LET st == StridesOf(ti)
      kp == KeepDims(size, Len(ti.sh) - r, 1)
      ds == FoldLeft(LAMBDA a, d : a + (off[d] * st[d]), 0, Seq1(Len(ti.sh)))
      at == {e \in DOMAIN kp : kp[e] = ti.q.dim + 1}
      mv(ref) == <<ref[1], ref[2] + off[ti.q.dim + 1]>>
      q  == IF ~PerAxis(ti) THEN ti.q
            ELSE IF at = {}                 \* the quantised dimension is gone: per tensor
                 THEN LET i == off[ti.q.dim + 1] IN [dim |-> -1, zp |-> Zp(mem, ti, i), sc |-> Sc(mem, ti, i), fr |-> Fr(mem, ti, i)]
            ELSE [dim |-> (CHOOSE e \in at : TRUE) - 1, zp |-> mv(ti.q.zp), sc |-> mv(ti.q.sc), fr |-> mv(ti.q.fr)]
  IN  [ar |-> ti.ar, off |-> ti.off + ds, el |-> ti.el, imm |-> old.imm, q |-> q,
       cap |-> ti.cap - (ds * ElBytes(ti.el)),
       sh |-> [e \in DOMAIN kp |-> size[kp[e]]], st |-> [e \in DOMAIN kp |-> st[kp[e]]]]

(* deprecated: contiguous part starting at the coordinates                    *)
PointTo(ti, coord, first, old) ==
  LET k  == Len(coord)
      ds == DenseStrides(ti.sh)
      o  == FoldLeft(LAMBDA a, d : a + (coord[d] * ds[d]), 0, Seq1(k))
      sh == <<first>> \o SubSeq(ti.sh, k + 1, Len(ti.sh))
  IN  [old EXCEPT !.ar = ti.ar, !.off = ti.off + o, !.el = ti.el, !.q = ti.q, !.sh = sh,
                  !.cap = ProdSeq(sh) * ElBytes(ti.el)]
=============================================================================
