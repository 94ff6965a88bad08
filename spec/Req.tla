-------------------------------- MODULE Req --------------------------------
(* Argument requirements.  In a build with argument checking a call either  *)
(* meets every requirement and is accepted, or violates one, is rejected and *)
(* leaves descriptors and memory as they were.  A record holds the actual    *)
(* arguments of one call (x.t: role -> tensor descriptor, x.p: integers) and *)
(* what was observed (x.o).                                                  *)
EXTENDS FxMath, SequencesExt, Json, IOUtils, TLC

CONSTANTS FullAccu, Ave16, RetCodes   \* build options without influence on the requirements
VARIABLES c, pc, ok
Cases == ndJsonDeserialize(IOEnv.CASES)

IsSa(el) == el \in {"sa8", "sa32"}
Esz(el) == CASE el \in {"fx8", "sa8"} -> 1 [] el = "fx16" -> 2 [] OTHER -> 4
Dims(t) == 1..t.rank
Prod(s) == FoldLeft(LAMBDA a, y : a * y, 1, s)
Sh(t) == SubSeq(t.sh, 1, t.rank)
CountE(t) == Prod(Sh(t))

(* a tensor that may be read or written as its descriptor says *)
Usable(t) ==
  /\ t.nul = 0 /\ t.dat = 1 /\ t.rank \in 1..4
  /\ \A i \in Dims(t) : t.sh[i] > 0 /\ t.st[i] > 0
  /\ \A i \in Dims(t) : t.st[i] >= IF i = t.rank THEN 1 ELSE t.sh[i+1] * t.st[i+1]
  /\ t.cap >= (1 + FoldLeft(LAMBDA a, i : a + ((t.sh[i] - 1) * t.st[i]), 0, [i \in Dims(t) |-> i])) * Esz(t.el)

Inner(t) == t.rank = 0 \/ t.st[t.rank] = 1
Packed(t) == \A i \in Dims(t) : t.st[i] = IF i = t.rank THEN 1 ELSE t.sh[i+1] * t.st[i+1]
SameShape(a, b) == a.rank = b.rank /\ Sh(a) = Sh(b)

(* quantisation parameters of a quantised tensor, zero points within lo..hi *)
QOk(t, lo, hi) ==
  IsSa(t.el) =>
    IF t.q.dim < 0
    THEN /\ t.q.cz = 0 /\ t.q.cs = 0 /\ t.q.cf = 0
         /\ t.q.sc[1] > 0 /\ t.q.zp[1] \in lo..hi
    ELSE /\ t.q.dim < t.rank
         /\ LET n == t.sh[t.q.dim + 1]
            IN  /\ t.q.nz = 0 /\ t.q.ns = 0 /\ t.q.nf = 0
                /\ t.q.cz >= 2 * n /\ t.q.cs >= 2 * n /\ t.q.cf >= n
                /\ \A i \in 1..n : t.q.sc[i] > 0 /\ t.q.zp[i] \in lo..hi
QByte(t) == QOk(t, -128, 127)
QZero(t) == QOk(t, 0, 0)
PerTensor(t) == t.q.dim < 0
Dom(q, i) == IF q.dim < 0 THEN 1 ELSE i
(* the scale of the bias is the product of the two others, up to rounding *)
BiasScale(in, w, b) ==
  \A i \in 1..(IF w.q.dim < 0 THEN 1 ELSE w.sh[w.q.dim + 1]) :
    LET sh == in.q.fr[1] + w.q.fr[Dom(w.q, i)] - b.q.fr[Dom(b.q, i)]
        p  == in.q.sc[1] * w.q.sc[Dom(w.q, i)]
        e  == IF sh > 0 THEN AsrRndB(p, sh, 32) ELSE AslB(p, -sh, 32)
    IN  e - b.q.sc[Dom(b.q, i)] \in -1..1

(* byte ranges of the two containers are disjoint *)
Apart(a, b) == a.ar # b.ar \/ a.o >= b.o + b.cap \/ b.o >= a.o + a.cap

ElOf(v) == CASE v = "fx8" -> <<"fx8">> [] v = "fx16" -> <<"fx16">> [] v = "sa8" -> <<"sa8">>
             [] v = "fx8w" -> <<"fx8", "fx8", "fx8">> [] v = "fx16w" -> <<"fx16", "fx16", "fx16">> [] v = "fx16_fx8_fx8" -> <<"fx16", "fx8", "fx8">>
             [] v = "sa8_sa8_sa32" -> <<"sa8", "sa8", "sa32">>
MacTypes(x, in, w, b) == <<in.el, w.el, b.el>> = ElOf(x.v)

(* format relations of input, weights, bias, output *)
MacFx(in, w, b, out) == b.q.fr[1] <= in.q.fr[1] + w.q.fr[1] /\ out.q.fr[1] <= in.q.fr[1] + w.q.fr[1]
MacSa(in, w, b, out, axis) ==
  /\ QByte(in) /\ QByte(out) /\ QZero(w) /\ QZero(b)
  /\ IF PerTensor(w) THEN PerTensor(b) ELSE w.q.dim = axis /\ b.q.dim = 0
  /\ PerTensor(in) /\ PerTensor(out)
  /\ BiasScale(in, w, b)
MacFormats(x, in, w, b, out, axis) ==
  /\ MacTypes(x, in, w, b)
  /\ IF in.el = "sa8" THEN MacSa(in, w, b, out, axis) ELSE MacFx(in, w, b, out)

WindowOk(p, ih, iw, oh, ow, kh, kw) ==
  /\ p.pl \in 0..(kw - 1) /\ p.pr \in 0..(kw - 1) /\ p.pt \in 0..(kh - 1) /\ p.pb \in 0..(kh - 1)
  /\ p.sh > 0 /\ p.sw > 0
  /\ (oh * p.sh) + kh - p.sh <= ih + p.pt + p.pb
  /\ (ow * p.sw) + kw - p.sw <= iw + p.pl + p.pr

ConvReq(x) ==
  LET in == x.t.a  w == x.t.w  b == x.t.b  out == x.t.o  p == x.p
  IN  /\ Usable(in) /\ Usable(w) /\ Usable(b) /\ Usable(out)
      /\ out.el = in.el
      /\ in.rank = 3 /\ out.rank = 3 /\ w.rank = 4 /\ b.rank = 1
      /\ (x.kh # 0) => w.sh[1] = x.kh /\ w.sh[2] = x.kw
      /\ (x.str # 0) => p.sw = x.str /\ p.sh = x.str
      /\ b.sh[1] = w.sh[4] /\ out.sh[3] = w.sh[4]
      /\ CASE x.k = "depthwise" -> w.sh[3] = 1 /\ w.sh[4] = in.sh[3]
           [] x.k = "group"     -> in.sh[3] % w.sh[3] = 0 /\ w.sh[4] % (in.sh[3] \div w.sh[3]) = 0
           [] OTHER             -> in.sh[3] = w.sh[3]
      /\ Inner(in) /\ Inner(w) /\ Inner(b) /\ Inner(out)
      /\ p.NC = 0
      /\ IF x.k = "transpose"
         THEN /\ p.dw = 1 /\ p.dh = 1
              /\ p.pl < w.sh[2] /\ p.pr < w.sh[2] /\ p.pt < w.sh[1] /\ p.pb < w.sh[1]
              /\ p.sw \in 1..w.sh[2] /\ p.sh \in 1..w.sh[1]
              /\ out.sh[1] = ((in.sh[1] - 1) * p.sh) + w.sh[1] - p.pt - p.pb
              /\ out.sh[2] = ((in.sh[2] - 1) * p.sw) + w.sh[2] - p.pl - p.pr
         ELSE /\ p.dw > 0 /\ p.dh > 0
              /\ WindowOk(p, in.sh[1], in.sh[2], out.sh[1], out.sh[2], ((w.sh[1] - 1) * p.dh) + 1, ((w.sh[2] - 1) * p.dw) + 1)
      /\ Apart(in, out)
      /\ MacFormats(x, in, w, b, out, 3)

PoolReq(x) ==
  LET in == x.t.a  out == x.t.o  p == x.p
  IN  /\ p.NC = 0 /\ Usable(in) /\ Usable(out)
      /\ (x.kh # 0) => p.kh = x.kh /\ p.kw = x.kw
      /\ <<in.el>> = ElOf(x.v) /\ out.el = in.el
      /\ in.rank = 3 /\ out.rank = 3 /\ Inner(in) /\ Inner(out)
      /\ WindowOk(p, in.sh[1], in.sh[2], out.sh[1], out.sh[2], p.kh, p.kw)
      /\ out.sh[3] = in.sh[3]
      /\ Apart(in, out)
      /\ (in.el = "sa8") => PerTensor(in) /\ PerTensor(out) /\ (x.k = "avepool" => QByte(in) /\ QByte(out))

FcReq(x) ==
  LET in == x.t.a  w == x.t.w  b == x.t.b  out == x.t.o
  IN  /\ Usable(in) /\ Usable(w) /\ Usable(b) /\ Usable(out) /\ x.p.NC = 0
      /\ out.el = in.el /\ w.rank = 2 /\ b.rank = 1 /\ out.rank = 1
      /\ CountE(in) = w.sh[1] /\ b.sh[1] = w.sh[2] /\ out.sh[1] = w.sh[2]
      /\ Packed(in) /\ Inner(w) /\ Packed(b) /\ Packed(out)
      /\ Apart(in, out)
      /\ MacFormats(x, in, w, b, out, 1)

(* a tensor of rank 0, or one with a single element *)
IsScalar(t) == t.rank = 0 \/ (t.rank <= 4 /\ CountE(t) = 1)
ScalarOk(t) == t.nul = 0 /\ (t.rank = 0 => QOk(t, -32768, 32767)) /\ (t.rank > 0 => Usable(t) /\ CountE(t) = 1)

EltReq(x) ==
  LET a == x.t.a  b == x.t.b  out == x.t.o
  IN  /\ a.nul = 0 /\ b.nul = 0
      /\ IF IsScalar(a) THEN ScalarOk(a) ELSE Usable(a)
      /\ IF IsScalar(b) THEN ScalarOk(b) ELSE Usable(b)
      /\ Usable(out)
      /\ a.rank > 0 \/ b.rank > 0
      /\ ~IsScalar(a) => Inner(a)
      /\ ~IsScalar(b) => Inner(b)
      /\ Inner(out)
      /\ <<a.el>> = ElOf(x.v) /\ b.el = a.el /\ out.el = a.el
      /\ (~IsScalar(a) /\ ~IsScalar(b)) => SameShape(a, b)
      /\ SameShape(IF IsScalar(a) THEN b ELSE a, out)
      /\ (x.k \in {"min", "max"}) => a.q.dim = b.q.dim /\ a.q.fr[1] = b.q.fr[1]
                                     /\ (a.el = "sa8" => a.q.zp[1] = b.q.zp[1] /\ a.q.sc[1] = b.q.sc[1])
      /\ (a.el = "sa8") => QByte(a) /\ QByte(b) /\ QByte(out) /\ PerTensor(a) /\ PerTensor(b) /\ PerTensor(out)

UnaryReq(x) ==
  LET in == x.t.a  out == x.t.o
  IN  /\ Usable(in) /\ Usable(out) /\ <<in.el>> = ElOf(x.v) /\ out.el = in.el
      /\ SameShape(in, out) /\ Inner(in) /\ Inner(out)
      /\ (in.el = "sa8") => QByte(in) /\ PerTensor(in)

SlopeQ(x) == LET in == x.t.a  s == x.t.s  out == x.t.o
             IN  IF in.el = "sa8"
                 THEN QByte(in) /\ QByte(out) /\ QOk(s, -16384, 16383) /\ PerTensor(in) /\ PerTensor(out) /\ PerTensor(s)
                 ELSE out.q.fr[1] = in.q.fr[1]
LeakyReq(x) == UnaryReq(x) /\ ScalarOk(x.t.s) /\ x.t.s.el = x.t.a.el /\ SlopeQ(x)
PreluReq(x) ==
  LET in == x.t.a  s == x.t.s
  IN  /\ UnaryReq(x) /\ x.p.NC = 0
      /\ x.p.axis < in.rank
      /\ IF x.p.axis < 0 THEN ScalarOk(s)
         ELSE /\ Usable(s) /\ Inner(s) /\ s.rank = in.rank
              /\ \A i \in Dims(in) : s.sh[i] = IF i = x.p.axis + 1 THEN in.sh[i] ELSE 1
      /\ s.el = in.el /\ SlopeQ(x)

RnnDenseReq(x) ==
  LET n == x.p.n  b == x.t.b  out == x.t.o
  IN  /\ x.p.NC = 0 /\ n \in 1..4
      /\ \A i \in 1..n : Usable(x.in[i]) /\ Usable(x.w[i])
      /\ Usable(b) /\ Usable(out)
      /\ \A i \in 1..n : LET a == x.in[i]  w == x.w[i]
                         IN  /\ w.rank = 2 /\ CountE(a) = w.sh[1] /\ w.sh[2] = x.w[1].sh[2]
                             /\ Packed(a) /\ Inner(w) /\ Apart(a, out)
                             /\ MacTypes(x, a, w, b)
      /\ b.rank = 1 /\ b.sh[1] = x.w[1].sh[2] /\ out.rank = 1 /\ out.sh[1] = b.sh[1]
      /\ out.el = x.in[1].el /\ Inner(b) /\ Packed(out)
      /\ IF b.el = "sa32"
         THEN /\ \A i \in 1..n : QByte(x.in[i]) /\ QZero(x.w[i]) /\ PerTensor(x.in[i]) /\ PerTensor(x.w[i])
              /\ QByte(out) /\ QZero(b) /\ PerTensor(out) /\ PerTensor(b)
              /\ BiasScale(x.in[1], x.w[1], b)
         ELSE /\ b.q.fr[1] <= x.in[1].q.fr[1] + x.w[1].q.fr[1]
              /\ \A i \in 1..n : out.q.fr[1] <= x.in[i].q.fr[1] + x.w[i].q.fr[1]

CellReq(x, G) ==
  LET in == x.t.a  pr == x.t.p  wi == x.t.wi  wo == x.t.wo  b == x.t.b  out == x.t.o
      lstm == x.k = "lstm"
      N == Prod(SubSeq(in.sh, 2, in.rank))  M == CountE(pr)
      rows == IF x.p.res = 1 THEN in.sh[1] ELSE 1
  IN  /\ x.p.NC = 0
      /\ x.lut[1] = 0 /\ x.lut[2] >= 344 * 2 /\ x.lut[3] = 0 /\ x.lut[4] >= 320 * 2
      /\ Usable(in) /\ Usable(pr) /\ Usable(wi) /\ Usable(wo) /\ Usable(b) /\ Usable(out)
      /\ in.rank = 2 /\ pr.rank = 1 /\ wi.rank = 3 /\ wo.rank = 3 /\ b.rank = 2
      /\ Sh(wi) = <<G, N, M>> /\ Sh(wo) = <<G, M, M>> /\ Sh(b) = <<G, M>>
      /\ Packed(in) /\ Inner(pr) /\ Inner(wi) /\ Inner(wo) /\ Inner(b) /\ Packed(out)
      /\ lstm => LET ce == x.t.ce IN Usable(ce) /\ ce.rank = 1 /\ ce.sh[1] = M /\ Inner(ce)
      /\ out.el = in.el
      /\ rows * M * Esz(out.el) <= out.cap
      /\ x.p.sar >= 0 /\ x.p.scap >= G * M * Esz(in.el)
      /\ Apart(in, [ar |-> x.p.sar + 1, o |-> x.p.soff, cap |-> x.p.scap])
      /\ MacTypes(x, in, wi, b) /\ wo.el = wi.el /\ pr.el = in.el
      /\ lstm => x.t.ce.el = in.el
      /\ IF in.el = "sa8"
         THEN /\ PerTensor(in) /\ PerTensor(pr) /\ PerTensor(out) /\ (lstm => PerTensor(x.t.ce) /\ QByte(x.t.ce))
              /\ IF PerTensor(wi) THEN PerTensor(wo) /\ PerTensor(b) ELSE wi.q.dim = 0 /\ wo.q.dim = 0 /\ b.q.dim = 0
              /\ QByte(in) /\ QByte(out) /\ QByte(pr) /\ QZero(wi) /\ QZero(wo) /\ QZero(b)
              /\ BiasScale(in, wi, b)
         ELSE b.q.fr[1] <= in.q.fr[1] + wi.q.fr[1]

ArgmaxReq(x) ==
  LET in == x.t.a  out == x.t.o  p == x.p
      sl == IF p.axis < 0 THEN 1 ELSE in.sh[p.axis + 1]
  IN  /\ Usable(in) /\ Usable(out) /\ p.NC = 0
      /\ out.el = "sa32" /\ Packed(out) /\ <<in.el>> = ElOf(x.v)
      /\ p.axis < in.rank /\ Inner(in)
      /\ p.k \in 1..(CountE(in) \div sl)
      /\ out.rank = 2 /\ Sh(out) = <<sl, p.k>>
      /\ (in.el = "sa8") => PerTensor(in)

(* per-axis parameters of the result: all three shared, or all three own with enough room *)
OwnParams(in, out, n) ==
  IF out.q.rz = in.q.rz /\ out.q.nz = 0
  THEN out.q.rs = in.q.rs /\ out.q.rf = in.q.rf
  ELSE /\ out.q.nz = 0 /\ out.q.ns = 0 /\ out.q.nf = 0
       /\ out.q.rs # in.q.rs /\ out.q.rf # in.q.rf
       /\ out.q.cz >= 2 * n /\ out.q.cs >= 2 * n /\ out.q.cf >= n
PermuteReq(x) ==
  LET in == x.t.a  out == x.t.o  p == x.p.perm
  IN  /\ Usable(in) /\ Usable(out) /\ <<in.el>> = ElOf(x.v) /\ out.el = in.el /\ x.p.NC = 0
      /\ \A i \in Dims(in) : p[i] \in 0..(in.rank - 1)
      /\ \A i, j \in Dims(in) : i # j => p[i] # p[j]
      /\ \A i \in Dims(in) : out.sh[i] = in.sh[p[i] + 1]
      /\ Apart(in, out)
      /\ (in.el = "sa8" /\ in.q.dim >= 0) =>
           \/ out.q.nz = 1 /\ out.q.ns = 1 /\ out.q.nf = 1      \* to be taken over from the input
           \/ OwnParams(in, out, in.sh[in.q.dim + 1])

ConvertReq(x) ==
  LET in == x.t.a  out == x.t.o
  IN  /\ Usable(in) /\ Usable(out) /\ SameShape(in, out) /\ Inner(in) /\ Inner(out)
      /\ (in.ar = out.ar /\ in.o = out.o) => Esz(in.el) = Esz(out.el) /\ \A i \in 1..(in.rank - 1) : in.st[i] = out.st[i]
      /\ (IsSa(in.el) /\ IsSa(out.el)) => in.q.dim = out.q.dim \/ in.q.dim < 0 \/ out.q.dim < 0

SubReq(x) ==
  LET in == x.t.a
  IN  /\ Usable(in) /\ x.t.o.nul = 0 /\ x.p.rank <= in.rank
      /\ \A i \in Dims(in) : x.p.off[i] < in.sh[i] /\ x.p.off[i] + x.p.size[i] <= in.sh[i]

PointReq(x) ==
  LET in == x.t.a  p == x.p
  IN  /\ Usable(in) /\ x.t.o.nul = 0
      /\ p.n \in 1..3 /\ p.n <= in.rank
      /\ \A i \in 1..p.n : p.c[i] < in.sh[i]
      /\ p.c[p.n] + p.size <= in.sh[p.n]
      /\ Packed(in)
      /\ in.rank = p.n /\ x.t.o.st[1] = 1

MovReq(x) ==
  LET in == x.t.a  out == x.t.o  p == x.p
      d == in.q.dim + 1
      e == CHOOSE k \in Dims(in) : p.perm[k] = in.q.dim
      cpy == IF p.size[d] > 0 THEN p.size[d] ELSE in.sh[d] - p.off[d] + p.pre[d] + p.post[d]
      n(k) == LET s == p.perm[k] + 1
                  z == IF p.size[s] > 0 THEN p.size[s] ELSE in.sh[s] - p.off[s] + p.pre[s] + p.post[s]
              IN  ((z + p.sub[s] - 1) \div p.sub[s]) + p.doff[k]
      dsh == [k \in Dims(in) |-> n(k)]
      RECURSIVE St(_)
      St(k) == IF p.dst[k] # 0 THEN p.dst[k] ELSE IF out.st[k] # 0 THEN out.st[k]
               ELSE IF k = in.rank THEN 1 ELSE St(k + 1) * dsh[k + 1]
      dst == [k \in Dims(in) |-> St(k)]
  IN  /\ Usable(in) /\ out.nul = 0
      /\ \A i \in Dims(in) : /\ p.size[i] + p.off[i] <= in.sh[i] + p.pre[i] + p.post[i]
                             /\ p.sub[i] > 0 /\ p.perm[i] < in.rank
      /\ (IsSa(in.el) /\ in.q.dim >= 0) =>
           IF out.q.nz = 1 \/ out.q.rz = in.q.rz
           THEN /\ IF out.q.nz = 1 THEN out.q.ns = 1 /\ out.q.nf = 1 ELSE out.q.rs = in.q.rs /\ out.q.rf = in.q.rf
                /\ p.size[d] \in {0, in.sh[d]} /\ p.off[d] = 0 /\ p.pre[d] = 0 /\ p.post[d] = 0 /\ p.sub[d] = 1 /\ p.doff[e] = 0
           ELSE OwnParams(in, out, ((cpy + p.sub[d] - 1) \div p.sub[d]) + p.doff[e])
      /\ Apart(in, out)
      /\ Usable([out EXCEPT !.rank = in.rank, !.el = in.el, !.sh = dsh, !.st = dst])

Valid(x) ==
  CASE x.fam = "conv" -> ConvReq(x)
    [] x.fam = "pool" -> PoolReq(x)
    [] x.fam = "fc" -> FcReq(x)
    [] x.fam = "elt" -> EltReq(x)
    [] x.fam \in {"relu"} -> UnaryReq(x) /\ x.p.NC = 0
    [] x.fam = "act" -> UnaryReq(x)
    [] x.fam \in {"softmax", "l2"} -> UnaryReq(x) /\ x.p.NC = 0 /\ x.p.axis < x.t.a.rank
    [] x.fam = "leaky" -> LeakyReq(x)
    [] x.fam = "prelu" -> PreluReq(x)
    [] x.fam = "rnn_dense" -> RnnDenseReq(x)
    [] x.fam = "cell" -> CellReq(x, IF x.k = "lstm" THEN 4 ELSE 3)
    [] x.fam = "argmax" -> ArgmaxReq(x)
    [] x.fam = "permute" -> PermuteReq(x)
    [] x.fam = "convert" -> ConvertReq(x)
    [] x.fam = "sub" -> SubReq(x)
    [] x.fam = "point" -> PointReq(x)
    [] x.fam = "mov" -> MovReq(x)

(* the query answers with a number: of elements, or 0 if it has no answer *)
Part(t, d) == FoldLeft(LAMBDA a, y : a * y, 1, SubSeq(t.sh, d + 1, t.rank))
CountOk(x) ==
  LET in == x.t.a  d == x.p.start
      answer == in.rank <= 4 /\ (IF in.rank = 0 THEN d = 0 ELSE d \in 0..(in.rank - 1))
  IN  /\ x.o.crash = 0 /\ x.o.guard = 0 /\ x.o.mem = 0 /\ x.o.desc = 0
      /\ x.o.ret = IF answer THEN Part(in, d) ELSE 0

CallOk(x) ==
  IF x.fam = "count" THEN CountOk(x)
  ELSE /\ x.o.crash = 0 /\ x.o.guard = 0
       /\ IF Valid(x) THEN x.o.ret = 0 ELSE x.o.ret # 0 /\ x.o.mem = 0 /\ x.o.desc = 0

Init == c \in DOMAIN Cases /\ pc = 1 /\ ok = TRUE
Next == /\ ok /\ pc = 1
        /\ c' = c /\ ok' = CallOk(Cases[c])
        /\ pc' = IF ok' THEN 2 ELSE 1
Spec == Init /\ [][Next]_<<c, pc, ok>>
Conforms == ok \/ (PrintT(<<"REJECT", c, pc>>) /\ FALSE)
=============================================================================
