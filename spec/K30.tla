--------------------------------- MODULE K30 ---------------------------------
(* The compiled (3.0) kernels: the value of one output element, from the full *)
(* operands.  x.ops[i] = [sh, v] in row-major order, x.cfg parameters,        *)
(* q = coordinates (from 0) of the output element.                            *)
EXTENDS FxMath, Tensor, Tile

At(op, c) == op.v[Flat(c, op.sh)]
Sum1(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, Seq1(n))

(* ---- windows ------------------------------------------------------------ *)
(* conv: kh kw sh sw pt pl pb pr dh dw; taps that miss the input read the     *)
(* input zero point                                                           *)
Inside(i, n) == i >= 0 /\ i < n

ConvAt(x, q, dw) ==
  LET in == x.ops[1]  w == x.ops[2]  zp == x.ops[3].v[q[5] + 1]  iz == x.ops[4].v[1]
      kh == x.cfg[1]  kw == x.cfg[2]
      nci == IF dw THEN 1 ELSE in.sh[5]
      H == in.sh[2]  W == in.sh[3]  C == in.sh[5]
      ib == q[1] * H
  IN  FoldLeft(LAMBDA acc, t :
        LET ty == (t - 1) \div kw
            tx == (t - 1) % kw
            iy == ((q[2] * x.cfg[3]) - x.cfg[5]) + (ty * x.cfg[9])
            ix == ((q[3] * x.cfg[4]) - x.cfg[6]) + (tx * x.cfg[10])
            hit == Inside(iy, H) /\ Inside(ix, W)
            base == ((((ib + iy) * W) + ix) * C)
            wb == IF dw THEN (((ty * kw) + tx) * C) + q[5]
                  ELSE ((ty * kw) + tx) * nci * w.sh[5]
        IN  IF dw THEN acc + ((IF hit THEN in.v[base + q[5] + 1] ELSE iz) * (w.v[wb + 1] - zp))
            ELSE FoldLeft(LAMBDA a, c :
                   a + ((IF hit THEN in.v[base + c] ELSE iz) * (w.v[wb + ((c - 1) * w.sh[5]) + q[5] + 1] - zp)), acc, Seq1(nci)),
        0, Seq1(kh * kw))

(* transpose: the output element o meets input i through tap j iff            *)
(* i*s + j = o + p; every other tap (stride holes and padding) reads the zero *)
(* point                                                                      *)
TConvAt(x, q) ==
  LET in == x.ops[1]  w == x.ops[2]  zp == x.ops[3].v[q[5] + 1]  iz == x.ops[4].v[1]
      kh == x.cfg[1]  kw == x.cfg[2]
      H == in.sh[2]  W == in.sh[3]  C == in.sh[5]
  IN  FoldLeft(LAMBDA acc, t :
        LET ty == (t - 1) \div kw
            tx == (t - 1) % kw
            ny == (q[2] + x.cfg[5]) - ty
            nx == (q[3] + x.cfg[6]) - tx
            hit == /\ ny >= 0 /\ ny % x.cfg[3] = 0 /\ ny \div x.cfg[3] < H
                   /\ nx >= 0 /\ nx % x.cfg[4] = 0 /\ nx \div x.cfg[4] < W
            base == (((q[1] * H) + (ny \div x.cfg[3])) * W + (nx \div x.cfg[4])) * C
            wb == ((ty * kw) + tx) * C * w.sh[5]
        IN  FoldLeft(LAMBDA a, c :
              a + ((IF hit THEN in.v[base + c] ELSE iz) * (w.v[wb + ((c - 1) * w.sh[5]) + q[5] + 1] - zp)), acc, Seq1(C)),
        0, Seq1(kh * kw))

FcAt(x, q) ==
  LET in == x.ops[1]  w == x.ops[2]  z == x.ops[3].v  n == in.sh[2]
      zp == IF Len(z) = 1 THEN z[1] ELSE z[q[2] + 1]
  IN  Sum1(n, LAMBDA i : in.v[(q[1] * n) + i] * (w.v[((i - 1) * w.sh[2]) + q[2] + 1] - zp))

MatMulAt(x, q) ==
  LET l == x.ops[1]  r == x.ops[2]  z == x.ops[3].v  n == l.sh[2]
  IN  Sum1(n, LAMBDA i : (l.v[(q[1] * n) + i] - z[1]) * (r.v[((i - 1) * r.sh[2]) + q[2] + 1] - z[2]))

(* pools: kh kw sh sw pt pl pb pr; elements outside the input do not count    *)
PoolAt(x, q, max) ==
  LET in == x.ops[1]  H == in.sh[2]  W == in.sh[3]
      ys == SelectSeq([t \in 1..x.cfg[1] |-> ((q[2] * x.cfg[3]) - x.cfg[5]) + t - 1], LAMBDA i : Inside(i, H))
      xs == SelectSeq([t \in 1..x.cfg[2] |-> ((q[3] * x.cfg[4]) - x.cfg[6]) + t - 1], LAMBDA i : Inside(i, W))
      v(y, z) == At(in, <<q[1], y, z, q[4]>>)
      row(acc, y) == FoldLeft(LAMBDA a, z : IF max THEN Max2(a, v(y, z)) ELSE a + v(y, z), acc, xs)
  IN  FoldLeft(row, IF max THEN v(ys[1], xs[1]) ELSE 0, ys)

ReduceAt(x, q, max) ==
  LET in == x.ops[1]  ax == x.cfg[1] + 1
      v(i) == At(in, [q EXCEPT ![ax] = i - 1])
  IN  IF max THEN FoldLeft(LAMBDA a, i : Max2(a, v(i)), v(1), Seq1(in.sh[ax]))
      ELSE Sum1(in.sh[ax], v)

(* bilinear: stride h w, offset h w, shift; 8 bit data                        *)
ResizeAt(x, q) ==
  LET in == x.ops[1]  H == in.sh[2]  W == in.sh[3]  s == x.cfg[5]  one == 2^s
      ry == (q[2] * x.cfg[1]) + x.cfg[3]
      rx == (q[3] * x.cfg[2]) + x.cfg[4]
      y == ry \div one  x0 == rx \div one
      dy == ry % one    dx == rx % one
      cy(i) == Clamp(i, 0, H - 1)
      cx(i) == Clamp(i, 0, W - 1)
      v(i, j) == At(in, <<q[1], cy(i), cx(j), q[4]>>)
  IN  (v(y, x0) * (one - dy) * (one - dx)) + (v(y, x0 + 1) * (one - dy) * dx)
        + (v(y + 1, x0) * dy * (one - dx)) + (v(y + 1, x0 + 1) * dy * dx)

(* ---- element-wise --------------------------------------------------------- *)
(* broadcasting: an operand dimension of 1 repeats                            *)
Bc(op, q) == At(op, [d \in DOMAIN q |-> IF op.sh[d] = 1 THEN 0 ELSE q[d]])
EltAt(x, q) ==
  LET a == Bc(x.ops[1], q)  b == Bc(x.ops[2], q)  w == x.ops[1].b
  IN  CASE x.k = "add" -> AddB(a, b, w)
        [] x.k = "sub" -> SubB(a, b, w)
        [] x.k = "mul" -> a * b
        [] x.k = "max" -> Max2(a, b)
        [] x.k = "min" -> Min2(a, b)

Par(op, i) == IF Len(op.v) = 1 THEN op.v[1] ELSE op.v[i + 1]
ShClamp(n) == Clamp(n, -63, 63)

(* value = round((in - in_bias) * scale / 2^shift) + out_bias, saturated      *)
Scaled(v, m, sh, ob, bits) ==
  IF bits < 32 /\ sh >= 1 /\ sh <= 30 /\ Small16(v) /\ Small16(m)
  THEN SatB(RndShrSmall(v * m, sh) + ob, bits)
  ELSE WSatB(WAdd(WSat64(WAsrRnd64(WMul(v, m), ShClamp(sh))), WInt(ob)), bits)

RescaleAt(x, q) ==
  LET i == IF x.cfg[1] < 0 THEN 0 ELSE q[x.cfg[1] + 1]
      v == SubB(At(x.ops[1], q), Par(x.ops[3], i), x.ops[1].b)
  IN  Scaled(v, Par(x.ops[4], i), Par(x.ops[5], i), Par(x.ops[6], i), x.ops[2].b)

PreluAt(x, q) ==
  LET i == IF x.cfg[1] < 0 THEN 0 ELSE q[x.cfg[1] + 1]
      a == At(x.ops[1], q)
      b == Par(x.ops[3], i)
      v == SubB(a, b, x.ops[1].b)
      pos == a >= b
  IN  Scaled(v, Par(x.ops[IF pos THEN 4 ELSE 5], i), Par(x.ops[IF pos THEN 6 ELSE 7], i), Par(x.ops[8], i), x.ops[2].b)

ClipAt(x, q) == Max2(Min2(At(x.ops[1], q), x.ops[4].v[1]), x.ops[3].v[1])

(* output dimension d is input dimension perm[d] *)
PermuteAt(x, q) ==
  At(x.ops[1], [d \in 1..4 |-> q[CHOOSE e \in 1..4 : x.cfg[e] = d - 1]])

Value(x, q) ==
  CASE x.k = "conv" -> ConvAt(x, q, FALSE)
    [] x.k = "dw" -> ConvAt(x, q, TRUE)
    [] x.k = "tconv" -> TConvAt(x, q)
    [] x.k \in {"fc", "fc_old"} -> FcAt(x, q)
    [] x.k = "matmul" -> MatMulAt(x, q)
    [] x.k = "maxpool" -> PoolAt(x, q, TRUE)
    [] x.k = "sumpool" -> PoolAt(x, q, FALSE)
    [] x.k = "rmax" -> ReduceAt(x, q, TRUE)
    [] x.k = "rsum" -> ReduceAt(x, q, FALSE)
    [] x.k = "resize" -> ResizeAt(x, q)
    [] x.k \in {"add", "sub", "mul", "max", "min"} -> EltAt(x, q)
    [] x.k = "rescale" -> RescaleAt(x, q)
    [] x.k = "prelu" -> PreluAt(x, q)
    [] x.k = "clip" -> ClipAt(x, q)
    [] x.k = "nop" -> x.was                                  \* what was there before
    [] x.k = "permute" -> PermuteAt(x, q)
    [] x.k = "mbcast" -> Bc(x.ops[1], q)
    [] x.k = "move" -> At(x.ops[1], [d \in DOMAIN q |-> q[d] + x.cfg[1 + d]])   \* from a slice of the source

(* ---- tilings ---------------------------------------------------------------- *)
(* a tiling: one axis per iteration index, and the operand dimension each     *)
(* index walks (0: none)                                                       *)
Plain(ax) == [ax |-> ax, dim |-> [i \in DOMAIN ax |-> i]]
(* skew shortens the first tile along the first dimension *)
OutOf(op, tile, skew) == [d \in DOMAIN op.sh |-> OutAxis(op.sh[d], tile[d], IF d = 1 THEN skew ELSE 0)]
WinIn(o, in, effk, s, p) == [d \in DOMAIN o |-> InAxis(o[d], in.sh[d], effk[d], s[d], p[d])]
EffK(k, d) == ((k - 1) * d) + 1
Whole(op) == [d \in DOMAIN op.sh |-> FixedAxis(op.sh[d], 1)]

(* weights and their zero points follow the output channel only *)
WgtTil(sh, o, dims) == [ax |-> [i \in 1..5 |-> IF i = 5 THEN o[5] ELSE FixedAxis(IF dims[i] = 0 THEN 1 ELSE sh[dims[i]], o[i].count)], dim |-> dims]
ChanTil(o) == [ax |-> [i \in 1..5 |-> IF i = 5 THEN o[5] ELSE FixedAxis(1, o[i].count)], dim |-> <<0, 0, 0, 0, 1>>]

ConvTilings(x) ==
  LET o == OutOf(x.ops[5], x.tile, x.skew)  c == x.cfg  in == x.ops[1]  dw == x.k = "dw"
      i == WinIn(o, in, <<1, EffK(c[1], c[9]), EffK(c[2], c[10]), 1, IF dw THEN 1 ELSE in.sh[5]>>,
                 <<1, c[3], c[4], 1, IF dw THEN 1 ELSE 0>>, <<0, c[5], c[6], 0, 0>>)
  IN  <<Plain(i), WgtTil(x.ops[2].sh, o, IF dw THEN <<0, 1, 2, 0, 3>> ELSE <<1, 2, 3, 4, 5>>), ChanTil(o), Plain(o)>>

(* transposed: the input is tiled (a last tile shorter than the kernel        *)
(* switches tiling of that dimension off) and the output channels             *)
TInAxis(n, t, k) == LET a == OutAxis(n, t, 0) IN IF a.lsz < k THEN FixedAxis(n, 1) ELSE a
TConvTilings(x) ==
  LET c == x.cfg  in == x.ops[1]  oc == OutAxis(x.ops[5].sh[5], x.tile[6], 0)
      k == <<1, c[1], c[2], 1>>
      i4 == [d \in 1..4 |-> TInAxis(in.sh[d], x.tile[d], k[d])]
      i == [d \in 1..5 |-> IF d = 5 THEN FixedAxis(in.sh[5], oc.count) ELSE i4[d]]
      s == <<1, c[3], c[4], 1>>  p == <<0, c[5], c[6], 0>>
      o == [d \in 1..5 |-> IF d = 5 THEN oc ELSE InAxis(i4[d], x.ops[5].sh[d], k[d], s[d], p[d])]
  IN  <<Plain(i), WgtTil(x.ops[2].sh, o, <<1, 2, 3, 4, 5>>), ChanTil(o), Plain(o)>>

(* a repeated dimension is revisited *)
BcTil(op, out, o) == Plain([d \in DOMAIN o |-> IF op.sh[d] = 1 /\ out.sh[d] > 1 THEN FixedAxis(1, o[d].count) ELSE o[d]])

MoveAx(x) ==
  LET c == x.cfg  how == c[1] % 4  sh == x.ops[2].sh
      a == [d \in 1..5 |-> InAxis(OutAxis(c[21 + d], x.tile[d], 0), sh[d], c[6 + d], c[11 + d], c[16 + d])]
  IN  IF c[1] \div 8 = 1 THEN Whole(x.ops[2])
      ELSE IF how = 0 THEN OutOf(x.ops[2], x.tile, x.skew)
      ELSE IF how = 2 /\ a[1].count > 1 THEN [a EXCEPT ![1] = NoOverlap(@)] ELSE a

Tilings(x) ==
  CASE x.k \in {"conv", "dw"} -> ConvTilings(x)
    [] x.k = "tconv" -> TConvTilings(x)
    [] x.k \in {"maxpool", "sumpool"} ->
         LET o == OutOf(x.ops[2], x.tile, x.skew)  c == x.cfg
         IN  <<Plain(WinIn(o, x.ops[1], <<1, c[1], c[2], 1>>, <<1, c[3], c[4], 1>>, <<0, c[5], c[6], 0>>)), Plain(o)>>
    [] x.k \in {"rmax", "rsum"} ->
         <<Plain(OutOf(x.ops[1], x.tile, x.skew)), Plain(OutOf(x.ops[2], [x.tile EXCEPT ![x.cfg[1] + 1] = 1], x.skew))>>
    [] x.k = "permute" ->
         <<Plain(OutOf(x.ops[1], x.tile, x.skew)),
           [ax |-> OutOf(x.ops[1], x.tile, x.skew), dim |-> [i \in 1..4 |-> CHOOSE d \in 1..4 : x.cfg[d] = i - 1]]>>
    [] x.k = "mbcast" -> LET o == OutOf(x.ops[2], x.tile, x.skew) IN <<BcTil(x.ops[1], x.ops[2], o), Plain(o)>>
    [] x.k = "move" -> LET a == MoveAx(x) IN <<Plain(a), Plain(a)>>
    [] x.k = "nop" -> <<Plain(OutOf(x.ops[1], x.tile, x.skew))>>
    [] x.k \in {"clip", "rescale", "prelu"} ->
         <<Plain(OutOf(x.ops[1], x.tile, x.skew)), Plain(OutOf(x.ops[2], x.tile, x.skew))>>
    [] x.k \in {"add", "sub", "mul", "max", "min"} ->
         LET o == OutOf(x.ops[3], x.tile, x.skew) IN <<BcTil(x.ops[1], x.ops[3], o), BcTil(x.ops[2], x.ops[3], o), Plain(o)>>
    [] x.k = "matmul" ->
         LET o == OutOf(x.ops[4], x.tile, x.skew)  n == x.ops[1].sh[2]
         IN  <<Plain(<<o[1], FixedAxis(n, o[2].count)>>), Plain(<<FixedAxis(n, o[1].count), o[2]>>), Plain(o)>>
    [] x.k \in {"fc", "fc_old"} -> <<Plain(Whole(x.ops[1])), Plain(Whole(x.ops[4]))>>
    [] x.k = "resize" -> <<Plain(Whole(x.ops[1])), Plain(Whole(x.ops[2]))>>
=============================================================================
