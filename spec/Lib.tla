--------------------------------- MODULE Lib ---------------------------------
(* The library: which observable steps (memory, descriptors, return values)  *)
(* each public call may take.  mem: arenas, ts: tensor descriptors.          *)
EXTENDS KMov, Luts

CONSTANT RetCodes

OK == 0
With(ts, i, t) == [ts EXCEPT ![i] = t]

(* a call wrote exactly vals to tensor to, and nothing else *)
Wrote(mem, mem2, to, vals) ==
  /\ WroteValues(mem2, <<<<to, vals>>>>)
  /\ WritesOnly(mem, mem2, <<<<to, vals>>>>, {})

(* ... descriptor of tensor i becomes t, all others unchanged *)
Result(mem, mem2, ts, ts2, o, i, t, vals) ==
  /\ o.ret = OK
  /\ ts2 = With(ts, i, t)
  /\ Wrote(mem, mem2, t, vals)

(* ---- tables -------------------------------------------------------------- *)
LutRec(x, n, mem) == LET l == x.luts[n]
                     IN  [t |-> SubSeq(mem[l.ar], l.off + 1, l.off + l.len), inf |-> l.inf, outf |-> l.outf, ino |-> l.ino]
(* what creating the tables left behind *)
LutOk(l, mem) ==
  LET g == LutOf(l.kind)
  IN  IF l.cap >= 2 * Len(g.t)
      THEN /\ l.ret = OK /\ l.ty = 16 /\ l.len = Len(g.t) /\ l.inf = g.inf /\ l.outf = g.outf
           /\ l.ino = g.ino /\ l.outo = g.outo
           /\ SubSeq(mem[l.ar], l.off + 1, l.off + l.len) = g.t
      ELSE RetCodes => l.ret # OK
LutsOk(x, mem) == \A n \in DOMAIN x.luts : LutOk(x.luts[n], mem)

(* ---- queries ------------------------------------------------------------- *)
Queries(mem, t, n) ==
  LET e(d) == IF Rank(t) = 0 THEN 1 ELSE ProdSeq(SubSeq(t.sh, d + 1, Rank(t)))
      scs == [i \in 1..n |-> <<Sc(mem, t, i - 1), Fr(mem, t, i - 1), Zp(mem, t, i - 1)>>]
  IN  <<ElBytes(t.el)>> \o [d \in 1..Rank(t) |-> e(d - 1)] \o FlattenSeq(scs)
SameStart(s, t) == s.el = t.el /\ Rank(s) > 0 /\ Rank(t) > 0 /\ s.ar = t.ar /\ s.off = t.off

(* ---- calls --------------------------------------------------------------- *)
Step(k, a, x, m, mem, ts, mem2, ts2, o) ==
  LET res(i, t, v) == Result(mem, mem2, ts, ts2, o, i, t, v)
      same(i, v)   == res(i, ts[i], v)                  \* output descriptor kept
      qas(i, j)    == [ts[i] EXCEPT !.q = ts[j].q]      \* i with the parameters of j
      quiet        == mem2 = mem /\ ts2 = ts            \* no memory, no descriptor changes
      moved        == LET w == MovWrites(a.cf, mem, ts[a.in], ts[a.out])
                      IN  /\ ts2 = With(ts, a.out, MovDst(a.cf, ts[a.in], ts[a.out]))
                          /\ WroteValues(mem2, w) /\ WritesOnly(mem, mem2, w, {})
      mm           == MovNext(m, k, a)
  IN
  CASE k = "eltwise" -> same(a.out, EltVals(a.op, mem, ts[a.in1], ts[a.in2], ts[a.out]))
    [] k = "relu"    -> res(a.out, qas(a.out, a.in), ReluVals(a.type, mem, ts[a.in]))
    [] k = "prelu"   -> same(a.out, PreluVals(a.axis, mem, ts[a.in], ts[a.slope], ts[a.out]))
    [] k = "sigm"    -> res(a.out, SigmQ(a.fn, ts[a.out]), LutVals(a.fn, LutRec(x, a.lut, mem), mem, ts[a.in]))
    [] k = "softmax" -> res(a.out, SoftmaxQ(ts[a.out]), SoftmaxVals(a.axis, LutRec(x, a.lut, mem), mem, ts[a.in]))
    [] k = "l2"      -> res(a.out, L2Q(ts[a.out]), L2Vals(a.axis, LutRec(x, a.lut, mem), mem, ts[a.in]))
    [] k = "conv" -> same(a.out, ConvVals(a.kind, a.p, mem, ts[a.in], ts[a.w], ts[a.b], ts[a.out]))
    [] k = "fc"   -> same(a.out, FcVals(a.relu, a.ext, mem, ts[a.in], ts[a.w], ts[a.b], ts[a.out]))
    [] k = "pool" -> IF a.kind = "max" THEN res(a.out, qas(a.out, a.in), PoolVals("max", a.p, mem, ts[a.in], ts[a.out]))
                     ELSE same(a.out, PoolVals("ave", a.p, mem, ts[a.in], ts[a.out]))
    [] k = "convert" -> same(a.out, ConvertVals(mem, ts[a.in], ts[a.out]))
    [] k = "argmax" -> LET t == [ts[a.out] EXCEPT !.q = IndexQ(ts[a.out])]
                       IN  /\ o.ret = OK /\ ts2 = With(ts, a.out, t)
                           /\ WritesOnly(mem, mem2, <<<<t, << >>>>>>, {})
                           /\ ArgmaxOk(a.axis, a.k, mem, ts[a.in], Rd(mem2, t))
    [] k = "permute" -> LET ti == ts[a.in]
                            t == [ts[a.out] EXCEPT !.q = IF IsFx(ti.el) THEN [ts[a.out].q EXCEPT !.fr = ti.q.fr]
                                                         ELSE PermQ(a.perm, ti, ts[a.out])]
                            w == <<<<t, PermVals(a.perm, mem, ti, t)>>>> \o PermArrays(mem, ti, ts[a.out])
                        IN  /\ o.ret = OK /\ ts2 = With(ts, a.out, t)
                            /\ WroteValues(mem2, w) /\ WritesOnly(mem, mem2, w, {})
    [] k = "subtensor" -> /\ o.ret = OK /\ mem2 = mem
                          /\ ts2 = With(ts, a.out, SubTensor(mem, ts[a.in], a.off, a.size, a.r, ts[a.out]))
    [] k = "pointto" -> /\ o.ret = OK /\ mem2 = mem
                        /\ ts2 = With(ts, a.out, PointTo(ts[a.in], a.coord, a.first, ts[a.out]))
    [] k = "set_strides" -> /\ o.ret = OK /\ mem2 = mem
                            /\ ts2 = With(ts, a.t, [ts[a.t] EXCEPT !.st = DenseStrides(ts[a.t].sh)])
    [] k = "query" -> /\ o.ret = OK /\ mem2 = mem /\ ts2 = ts /\ o.v = Queries(mem, ts[a.t], a.n)
    [] k = "ptr_cmp" -> /\ o.ret = OK /\ mem2 = mem /\ ts2 = ts
                        /\ o.v = <<IF SameStart(ts[a.in], ts[a.out]) THEN 1 ELSE 0>>
    [] k = "const" -> /\ o.ret = OK /\ mem2 = mem /\ ts2 = ts /\ o.v = a.v
    [] k = "mov_sync" -> o.ret = OK /\ moved
    [] k = "mov_cfg" -> o.ret = OK /\ quiet /\ o.v = CfgFlat(CfgOf(a.fn, a))
    [] k = "mov_set" -> o.ret = OK /\ quiet
    [] k = "mov_acquire" -> /\ quiet /\ (o.ret = OK <=> CanAcquire(m, a.n))
                            /\ o.v = HView(mm, a.h)
    [] k = "mov_release" -> o.ret = OK /\ quiet /\ o.v = HView(mm, a.h)
    [] k = "mov_prepare" -> o.ret = OK /\ moved /\ o.v = HView(mm, a.h)
    [] k = "mov_register" -> o.ret = OK /\ quiet
    [] k = "mov_start" -> o.ret = OK /\ quiet /\ o.v = HView(mm, a.h) \o <<Len(Callbacks(m, a.h))>> \o Callbacks(m, a.h)
    [] k = "mov_isdone" -> quiet /\ o.v = <<IF m.h[a.h].st = DONE THEN 1 ELSE 0>>
    [] k = "mov_wait" -> o.ret = OK /\ quiet /\ o.v = <<m.h[a.h].st, 0>>
    [] k = "mov_newhandle" -> quiet
    [] k = "rnn_dense" -> same(a.out, RnnDenseVals(mem, [i \in DOMAIN a.in |-> ts[a.in[i]]], [i \in DOMAIN a.w |-> ts[a.w[i]]], ts[a.b], ts[a.out]))
    [] k = "lstm" -> LET lt == LutRec(x, a.tanh, mem)
                         ls == LutRec(x, a.sigm, mem)
                         r  == Lstm(a.p, lt, ls, mem, ts[a.in], ts[a.prev], ts[a.wi], ts[a.wo], ts[a.b], ts[a.cell], ts[a.out])
                         t  == RnnOut(a.p, ts[a.in], Count(ts[a.prev]), ts[a.out])
                         w  == <<<<t, RnnVals(a.p, r)>>, <<ts[a.cell], r.c>>>>
                     IN  /\ o.ret = OK /\ ts2 = With(ts, a.out, t)
                         /\ WroteValues(mem2, w) /\ WritesOnly(mem, mem2, w, ScratchSet(a.scr, 4 * Count(ts[a.prev])))
    [] k = "gru"  -> LET lt == LutRec(x, a.tanh, mem)
                         ls == LutRec(x, a.sigm, mem)
                         r  == Gru(a.p, lt, ls, mem, ts[a.in], ts[a.prev], ts[a.wi], ts[a.wo], ts[a.b], ts[a.out])
                         t  == RnnOut(a.p, ts[a.in], Count(ts[a.prev]), ts[a.out])
                         w  == <<<<t, RnnVals(a.p, r)>>>>
                     IN  /\ o.ret = OK /\ ts2 = With(ts, a.out, t)
                         /\ WroteValues(mem2, w) /\ WritesOnly(mem, mem2, w, ScratchSet(a.scr, 3 * Count(ts[a.prev])))
    (* any values in the outputs, nothing else touched *)
    [] k = "any" -> /\ o.ret = OK
                    /\ ts2 = ts
                    /\ WritesOnly(mem, mem2, [i \in DOMAIN a.out |-> <<ts[a.out[i]], << >>>>], {})
    (* the values another tensor holds *)
    [] k = "same_as" -> same(a.out, Rd(mem, ts[a.ref]))
=============================================================================
