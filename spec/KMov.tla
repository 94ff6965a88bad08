-------------------------------- MODULE KMov --------------------------------
(* Data movement: what one transfer leaves behind, the configuration helpers, *)
(* and the asynchronous interface (handles, channel pool, callbacks).         *)
EXTENDS KData

(* ------------------------------------------------------- one transfer ------ *)
(* cf: off, size, sub, doff, dst, perm, pre, post (sequences of 4)            *)
CeilDiv(a, b) == ((a + b) - 1) \div b
MovCpy(cf, ti, d) == IF cf.size[d] > 0 THEN cf.size[d]
                     ELSE ((ti.sh[d] - cf.off[d]) + cf.pre[d]) + cf.post[d]
MovWrite(cf, ti) == [e \in 1..Rank(ti) |-> LET d == cf.perm[e] + 1 IN CeilDiv(MovCpy(cf, ti, d), cf.sub[d])]
MovShape(cf, ti) == [e \in 1..Rank(ti) |-> MovWrite(cf, ti)[e] + cf.doff[e]]
(* strides: configured, else those the destination already has, else dense    *)
MovStrides(cf, ti, to) ==
  LET n == Rank(ti)
      sh == MovShape(cf, ti)
      old(e) == IF e <= Len(to.st) THEN to.st[e] ELSE 0
      RECURSIVE S(_)
      S(e) == IF cf.dst[e] # 0 THEN cf.dst[e]
              ELSE IF old(e) # 0 THEN old(e)
              ELSE IF e = n THEN 1 ELSE S(e + 1) * sh[e + 1]
  IN  [e \in 1..n |-> S(e)]
(* source coordinate along source dimension d of write position p             *)
MovSrc(cf, d, p) == ((p * cf.sub[d]) + cf.off[d]) - cf.pre[d]
(* the destination dimension that receives the quantised source dimension     *)
MovDim(cf, ti) == (CHOOSE e \in 1..Rank(ti) : cf.perm[e] = ti.q.dim) - 1
OwnArrays(ti, to) == PerAxis(ti) /\ to.q.dim # -1 /\ to.q.sc[1] # 0 /\ to.q.sc # ti.q.sc

MovQ(cf, ti, to) ==
  IF ~PerAxis(ti) THEN ti.q
  ELSE LET s == IF OwnArrays(ti, to) THEN to.q ELSE ti.q
       IN  [dim |-> MovDim(cf, ti), zp |-> s.zp, sc |-> s.sc, fr |-> s.fr]
MovDst(cf, ti, to) ==
  [to EXCEPT !.sh = MovShape(cf, ti), !.st = MovStrides(cf, ti, to), !.el = ti.el, !.q = MovQ(cf, ti, to)]

MovVals(cf, mem, ti) ==
  LET n == Rank(ti)
      W == MovWrite(cf, ti)
      A == mem[ti.ar]
      st == StridesOf(ti)
      val(i) == LET p == Unflat(i, W)
                    s(e) == MovSrc(cf, cf.perm[e] + 1, p[e])
                IN  IF \A e \in 1..n : s(e) >= 0 /\ s(e) < ti.sh[cf.perm[e] + 1]
                    THEN A[(ti.off + FoldLeft(LAMBDA a, e : a + (s(e) * st[cf.perm[e] + 1]), 0, Seq1(n))) + 1]
                    ELSE 0
  IN  [i \in 1..ProdSeq(W) |-> val(i)]

(* everything a transfer writes: the data and the parameter arrays            *)
MovWrites(cf, mem, ti, to) ==
  LET n == Rank(ti)
      W == MovWrite(cf, ti)
      st == MovStrides(cf, ti, to)
      base == FoldLeft(LAMBDA a, e : a + (cf.doff[e] * st[e]), 0, Seq1(n))
      data == <<[ar |-> to.ar, off |-> to.off + base, sh |-> W, st |-> st], MovVals(cf, mem, ti)>>
      e == MovDim(cf, ti)
      d == ti.q.dim + 1
      arr(s, r, pad) == <<[ar |-> r[1], off |-> r[2] + cf.doff[e + 1], sh |-> <<W[e + 1]>>, st |-> <<1>>],
                          [i \in 1..W[e + 1] |-> LET p == MovSrc(cf, d, i - 1)
                                                 IN  IF p >= 0 /\ p < ti.sh[d] THEN Arr(mem, s, p) ELSE pad]>>
  IN  <<data>> \o (IF ~OwnArrays(ti, to) THEN << >>
                   ELSE <<arr(ti.q.sc, to.q.sc, 1), arr(ti.q.zp, to.q.zp, 0), arr(ti.q.fr, to.q.fr, 0)>>)

(* ----------------------------------------------- configuration helpers ----- *)
Z4 == <<0, 0, 0, 0>>
Id4 == <<0, 1, 2, 3>>
One4 == <<1, 1, 1, 1>>
CfgCopy == [off |-> Z4, size |-> Z4, sub |-> One4, doff |-> Z4, dst |-> Z4, perm |-> Id4, pre |-> Z4, post |-> Z4]
Pads(l, r, t, b, h, w) == [[pre |-> Z4, post |-> Z4] EXCEPT !.pre[w] = l, !.post[w] = r, !.pre[h] = t, !.post[h] = b]
CfgOf(fn, a) ==
  CASE fn = "copy" -> CfgCopy
    [] fn = "slice" -> [CfgCopy EXCEPT !.off = a.off, !.size = a.size, !.dst = a.dst]
    [] fn = "concat" -> [CfgCopy EXCEPT !.doff = a.doff, !.dst = a.dst]
    [] fn = "subsample" -> [CfgCopy EXCEPT !.sub = a.sub, !.dst = a.dst]
    [] fn = "permute" -> [CfgCopy EXCEPT !.perm = a.perm]
    [] fn \in {"pad_chw", "pad_hwc", "all"} ->
         LET p == a.pad
             q == IF fn = "pad_chw" THEN Pads(p[1], p[2], p[3], p[4], 2, 3) ELSE Pads(p[1], p[2], p[3], p[4], 1, 2)
         IN  IF fn = "all" THEN [off |-> a.off, size |-> a.size, sub |-> a.sub, doff |-> a.doff, dst |-> a.dst,
                                 perm |-> a.perm, pre |-> q.pre, post |-> q.post]
             ELSE [CfgCopy EXCEPT !.dst = a.dst, !.pre = q.pre, !.post = q.post]
CfgFlat(c) == c.off \o c.size \o c.sub \o c.doff \o c.dst \o c.perm \o c.pre \o c.post

(* ------------------------------------------- handles, channels, callbacks -- *)
(* m: base, size of the pool; ch: status per channel (0 unused, 1 available,  *)
(* 2 in use); h: handles [st, ch, num, cb, ck] (cb = -1: none)                *)
INVALID == 0
OPEN == 1
PREPARED == 2
DONE == 5
NoHandle == [st |-> INVALID, ch |-> 0, num |-> 0, cb |-> -1, ck |-> 0]
MovInit == [base |-> 0, size |-> 16, ch |-> [c \in 1..16 |-> 0], h |-> [i \in 1..4 |-> NoHandle]]

Blocks(m, n) == {c \in m.base..((m.base + m.size) - 1) :
                   /\ c + n <= m.base + m.size
                   /\ \A j \in 0..n-1 : m.ch[(c + j) + 1] = 1}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
CanAcquire(m, n) == Blocks(m, n) # {}
SetCh(m, from, n, v) == [m EXCEPT !.ch = [c \in 1..16 |-> IF c > from /\ c <= from + n THEN v ELSE m.ch[c]]]

DoSet(m, b, n)      == [SetCh(m, b, n, 1) EXCEPT !.base = b, !.size = n]
DoAcquire(m, n, h)  == IF ~CanAcquire(m, n) THEN m
                       ELSE LET c == Least(Blocks(m, n))
                            IN  [SetCh(m, c, n, 2) EXCEPT !.h[h] = [st |-> OPEN, ch |-> c, num |-> n, cb |-> -1, ck |-> 0]]
DoRelease(m, h)     == [SetCh(m, m.h[h].ch, m.h[h].num, 1) EXCEPT !.h[h] = NoHandle]
DoRegister(m, h, w, k) == [m EXCEPT !.h[h].cb = w, !.h[h].ck = k]
DoPrepare(m, h)     == [m EXCEPT !.h[h].st = PREPARED]
DoStart(m, h)       == [m EXCEPT !.h[h].st = DONE]
DoNew(m, h)         == [m EXCEPT !.h[h] = NoHandle]
(* callbacks a start makes: exactly the one registered for this handle        *)
Callbacks(m, h) == IF m.h[h].cb = -1 THEN << >> ELSE <<(m.h[h].cb * 1000000) + m.h[h].ck>>
HView(m, h) == <<m.h[h].ch, m.h[h].num, m.h[h].st>>

MovNext(m, k, a) ==
  CASE k = "mov_set"      -> DoSet(m, a.b, a.n)
    [] k = "mov_acquire"  -> DoAcquire(m, a.n, a.h)
    [] k = "mov_release"  -> DoRelease(m, a.h)
    [] k = "mov_register" -> DoRegister(m, a.h, a.w, a.ck)
    [] k = "mov_prepare"  -> DoPrepare(m, a.h)
    [] k = "mov_start"    -> DoStart(m, a.h)
    [] k = "mov_newhandle" -> DoNew(m, a.h)
    [] OTHER -> m

(* legal use: what the documentation allows a caller to do                    *)
Legal(m, k, a) ==
  CASE k = "mov_set"      -> \A h \in DOMAIN m.h : m.h[h].num = 0
    [] k = "mov_acquire"  -> m.h[a.h].st = INVALID
    [] k = "mov_release"  -> TRUE
    [] k = "mov_register" -> m.h[a.h].st # INVALID
    [] k = "mov_prepare"  -> m.h[a.h].st \in {OPEN, DONE}
    [] k = "mov_start"    -> m.h[a.h].st = PREPARED
    [] k = "mov_wait"     -> m.h[a.h].st = DONE
    [] k = "mov_newhandle" -> m.h[a.h].st = INVALID
    [] OTHER -> TRUE
=============================================================================
