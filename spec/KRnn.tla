-------------------------------- MODULE KRnn --------------------------------
(* Recurrent layers: the multi-input dense operation, and LSTM and GRU cells  *)
(* as sequences of dense operations, table functions and element-wise steps   *)
(* over a hidden (and cell) state carried from frame to frame.                *)
EXTENDS KConv

(* a value sequence seen as a dense rank 1 tensor in arena ar *)
Vec(ar, n, el, q) == [ar |-> ar, off |-> 0, el |-> el, sh |-> <<n>>, st |-> <<1>>, q |-> q, imm |-> 0, cap |-> 0]
QPT(zp, sc, fr) == TLCEval([dim |-> -1, zp |-> zp, sc |-> sc, fr |-> fr])
QT(mem, t) == QPT(Zp(mem, t, 0), Sc(mem, t, 0), Fr(mem, t, 0))

EltSeq(op, el, A, qa, B, qb, qo) ==
  TLCEval(EltVals(op, <<A, B>>, Vec(1, Len(A), el, qa), Vec(2, Len(B), el, qb), Vec(1, Max2(Len(A), Len(B)), el, qo)))
LutSeq(fn, l, el, A, q) == TLCEval(LutVals(fn, l, <<A>>, Vec(1, Len(A), el, q)))

(* ---------------------------------------------------------------- dense op *)
(* ins: records [X, q, w, wo, gate]: input values and parameters, weights     *)
(* descriptor (last two dimensions in x out), offset of the gate, scale index *)
DenseVals(mem, el, ins, b, tb, to) ==
  LET sa == IsSa(el)
      r  == TLCEval([k \in DOMAIN ins |->
              LET x == ins[k]
                  n == Len(x.X)
                  d == Len(x.w.st)
              IN  [A  |-> x.X,
                   W  |-> mem[x.w.ar],
                   ps |-> [i \in 1..n |-> <<i, ((1 + x.w.off) + x.wo) + ((i - 1) * x.w.st[d - 1])>>],
                   st |-> x.w.st[d],
                   os |-> (x.q.fr + Fr(mem, x.w, 0)) - to.q.fr,
                   Q  |-> IF sa THEN SaScale(mem, Vec(1, n, el, x.q), x.w, to, x.gate) ELSE 0,
                   zw |-> Zp(mem, x.w, 0)]])
      bs == (ins[1].q.fr + Fr(mem, ins[1].w, 0)) - tb.q.fr
      wide == ~sa /\ ins[1].w.el = "fx16"
      \* contribution of input k to output o
      fxw(o, k) == LET d == DotWide(r[k].A, r[k].W, r[k].ps, 0, o * r[k].st)
                   IN  WAsrRnd64(IF k = 1 THEN WAdd(d, WAsl64(WInt(b[o + 1]), bs)) ELSE d, Min2(r[k].os, 39))
      fx(o, k) == LET d == DotInt(r[k].A, r[k].W, r[k].ps, 0, o * r[k].st)
                  IN  AsrRndB(IF k = 1 THEN AddB(d, AslB(b[o + 1], bs, 32), 32) ELSE d, r[k].os, 32)
      asy(o, k) == LET s == SaSum(r[k].A, r[k].W, r[k].ps, 0, o * r[k].st, ins[k].q.zp, r[k].zw)
                       a == IF k = 1 THEN AddB(s, SaBias(b[o + 1]), 32) ELSE s
                   IN  MulShiftSat(a, r[k].Q.mul, Min2(r[k].Q.sh, 63), 32)
      sumw(o) == FoldLeft(LAMBDA a, k : WAdd(a, fxw(o, k)), W0, Seq1(Len(ins)))
      sum(o)  == FoldLeft(LAMBDA a, k : AddB(a, IF sa THEN asy(o, k) ELSE fx(o, k), 32), 0, Seq1(Len(ins)))
  IN  [o \in 1..Len(b) |->
        IF wide THEN WSatB(sumw(o - 1), 16)
        ELSE IF sa THEN SatB(AddB(SatB(sum(o - 1), 16), to.q.zp, 16), 8)
        ELSE SatB(sum(o - 1), 16)]

RnnDenseVals(mem, tis, tws, tb, to) ==
  DenseVals(mem, to.el, [k \in DOMAIN tis |-> [X |-> Rd(mem, tis[k]), q |-> QT(mem, tis[k]), w |-> tws[k], wo |-> 0, gate |-> 0]],
            Rd(mem, tb), tb, to)

(* ------------------------------------------------------------------ cells *)
(* a gate of a cell: g is 0-based; hidden values H with parameters hq          *)
Gate(mem, el, X, qx, twi, H, hq, two, tb, g, irq) ==
  LET n == Len(H)
      b == [o \in 1..n |-> mem[tb.ar][((1 + tb.off) + (g * tb.st[1])) + (o - 1)]]
  IN  TLCEval(DenseVals(mem, el, <<[X |-> X, q |-> qx, w |-> twi, wo |-> g * twi.st[1], gate |-> g],
                           [X |-> H, q |-> hq, w |-> two, wo |-> g * two.st[1], gate |-> g]>>,
                b, tb, Vec(1, n, el, irq)))

ActQ(fn, el) == IF IsSa(el) THEN QPT(SigmOutQ(fn).zp, 1, SigmOutQ(fn).fr) ELSE QPT(0, 1, Bits(el) - 1)
(* format of the gate sums *)
IrQ(cell, mem, ti, twi) ==
  IF IsSa(ti.el) THEN (IF cell = "lstm" THEN QPT(0, 1, 4) ELSE QPT(0, 21, 9))
  ELSE QPT(0, 1, Min2(IF cell = "lstm" THEN 10 ELSE 11, ti.q.fr + twi.q.fr))

Frame(mem, ti, t) == TLCEval([i \in 1..ti.sh[2] |-> mem[ti.ar][((1 + ti.off) + (t * ti.st[1])) + (i - 1)]])

(* one frame; s = [h, hq, c] *)
LstmStep(p, lt, ls, mem, ti, twi, two, tb, tc, to, s, t) ==
  LET el == ti.el
      qi == QT(mem, ti)   qc == QT(mem, tc)   qo == QT(mem, to)
      ir == IrQ("lstm", mem, ti, twi)
      qs == ActQ("sigm", el)   qt == ActQ("tanh", el)
      X  == Frame(mem, ti, t)
      dense(g) == Gate(mem, el, X, qi, twi, s.h, s.hq, two, tb, g, ir)
      ing == LutSeq("sigm", ls, el, dense(0), ir)
      g   == LutSeq("tanh", lt, el, dense(1), ir)
      fg  == LutSeq("sigm", ls, el, dense(2), ir)
      og  == LutSeq("sigm", ls, el, dense(3), ir)
      c1  == EltSeq("mul", el, s.c, qc, fg, qs, qc)
      g1  == EltSeq("mul", el, g, qt, ing, qs, qt)
      c2  == EltSeq("add", el, c1, qc, g1, qt, qc)
      fn  == IF p.act = 1 THEN "tanh" ELSE "sigm"
      h   == IF p.act = 0 THEN EltSeq("mul", el, c2, qc, og, qs, qo)
             ELSE EltSeq("mul", el, LutSeq(fn, IF p.act = 1 THEN lt ELSE ls, el, c2, qc), ActQ(fn, el), og, qs, qo)
  IN  [h |-> h, hq |-> qo, c |-> c2, out |-> s.out \o h]

GruStep(p, lt, ls, mem, ti, twi, two, tb, to, s, t) ==
  LET el == ti.el
      qi == QT(mem, ti)   qo == QT(mem, to)
      ir == IrQ("gru", mem, ti, twi)
      qs == ActQ("sigm", el)   qt == ActQ("tanh", el)
      one == IF IsSa(el) THEN <<127>> ELSE <<MaxB(Bits(el))>>
      X  == Frame(mem, ti, t)
      z  == LutSeq("sigm", ls, el, Gate(mem, el, X, qi, twi, s.h, s.hq, two, tb, 0, ir), ir)
      r  == LutSeq("sigm", ls, el, Gate(mem, el, X, qi, twi, s.h, s.hq, two, tb, 1, ir), ir)
      rh == EltSeq("mul", el, r, qs, s.h, s.hq, s.hq)
      zh == EltSeq("mul", el, s.h, s.hq, z, qs, s.hq)
      z1 == EltSeq("sub", el, one, qs, z, qs, qs)
      u  == LutSeq("tanh", lt, el, Gate(mem, el, X, qi, twi, rh, s.hq, two, tb, 2, ir), ir)
      h  == EltSeq("add", el, EltSeq("mul", el, u, qt, z1, qs, qo), qo, zh, s.hq, qo)
  IN  [h |-> h, hq |-> qo, c |-> << >>, out |-> s.out \o h]

RECURSIVE RunFrames(_, _, _, _)
RunFrames(step(_, _), order, k, s) == IF k > Len(order) THEN s ELSE RunFrames(step, order, k + 1, step(s, order[k]))

FrameOrder(p, n) == [k \in 1..n |-> IF p.dir = 0 THEN k - 1 ELSE n - k]

(* p = [dir (0 forward), all (0 last, 1 all), act (0 none, 1 tanh, 2 sigm)]    *)
Lstm(p, lt, ls, mem, ti, tp, twi, two, tb, tc, to) ==
  RunFrames(LAMBDA s, t : LstmStep(p, lt, ls, mem, ti, twi, two, tb, tc, to, s, t), FrameOrder(p, ti.sh[1]), 1,
            [h |-> Rd(mem, tp), hq |-> QT(mem, tp), c |-> Rd(mem, tc), out |-> << >>])
Gru(p, lt, ls, mem, ti, tp, twi, two, tb, to) ==
  RunFrames(LAMBDA s, t : GruStep(p, lt, ls, mem, ti, twi, two, tb, to, s, t), FrameOrder(p, ti.sh[1]), 1,
            [h |-> Rd(mem, tp), hq |-> QT(mem, tp), c |-> << >>, out |-> << >>])

RnnOut(p, ti, n, to) == LET k == IF p.all = 1 THEN ti.sh[1] ELSE 1
                        IN  [to EXCEPT !.sh = <<k, n>>, !.st = <<n, 1>>]
RnnVals(p, s) == IF p.all = 1 THEN s.out ELSE s.h
(* scratch: n elements at an arena position, any content *)
ScratchSet(scr, n) == {<<scr[1], scr[2] + i>> : i \in 1..n}
=============================================================================
