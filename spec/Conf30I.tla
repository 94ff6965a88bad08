------------------------------ MODULE Conf30I -------------------------------
(* Conformance of recorded tile iterations and tensor views.                  *)
EXTENDS Tile, View, Json, IOUtils

CONSTANTS RoundUp, FullAccu, Ave16, RetCodes   \* build options without influence on iteration

VARIABLES c, pc, it, ok
vars == <<c, pc, it, ok>>

Cases == ndJsonDeserialize(IOEnv.CASES)

OutAx(x) == [i \in DOMAIN x.ord |->
  OutAxis(x.sh[x.ord[i] + 1], x.tile[x.ord[i] + 1], IF i = 1 THEN x.skew ELSE 0)]
InAx(x) == LET o == OutAx(x) IN [i \in DOMAIN o |->
  LET d == x.ord[i] + 1 IN InAxis(o[i], x.ish[d], x.k[d], x.s[d], x.p[d])]
(* weights: only the last iteration index moves, the others are revisited *)
WMap(x) == CASE Len(x.ish) = 5 -> <<0, 1, 2, 3, 4>>
             [] Len(x.ish) = 3 -> <<-1, 0, 1, -1, 2>>
             [] OTHER -> <<-1, -1, -1, -1, 0>>
WAx(x) == LET o == OutAx(x) m == WMap(x) IN [i \in 1..5 |->
  IF i = 5 THEN o[5] ELSE FixedAxis(IF m[i] = -1 THEN 0 ELSE x.ish[m[i] + 1], o[i].count)]

Axes(x) ==
  CASE x.kind \in {"out", "plain", "buf", "tr", "setcfg", "shrink", "sub", "cfg"} -> OutAx(x)
    [] x.kind = "subin" -> InAx(x)
    [] x.kind = "cyc" -> IF x.viain = 1 THEN InAx(x) ELSE OutAx(x)
    [] x.kind = "gran" -> LET o == OutAx(x) d == IF x.k[2] = 1 THEN 0 ELSE Len(x.sh) - 1
                          IN  CfgOp(Config(o, x.ord, x.sh), <<3, d, 2, x.k[1]>>).ax
    [] x.kind = "whole" -> [i \in DOMAIN x.sh |-> FixedAxis(x.sh[i], 1)]
    [] x.kind = "in" -> InAx(x)
    [] x.kind = "noov" -> LET a == InAx(x) IN [a EXCEPT ![1] = IF @.count > 1 THEN NoOverlap(@) ELSE @]
    [] x.kind = "drop" -> Remove1(OutAx(x), x.drop + 1)
    [] x.kind = "w" -> WAx(x)

(* iteration index -> dimension (from 1, 0: none), full shape and strides *)
Dims(x) ==
  CASE x.kind = "w" -> [i \in 1..5 |-> WMap(x)[i] + 1]
    [] x.kind = "tr" -> [i \in DOMAIN x.ord |-> CHOOSE d \in DOMAIN x.perm : x.perm[d] = x.ord[i]]
    [] x.kind \in {"drop"} -> [i \in DOMAIN x.ish |-> i]
    [] x.kind = "whole" -> [i \in DOMAIN x.sh |-> i]
    [] OTHER -> [i \in DOMAIN x.ord |-> x.ord[i] + 1]
OnInput == {"in", "noov", "w", "drop", "subin"}
(* elements of this kind of session are as wide as Width half-words of memory *)
Width(x)  == IF x.kind = "gran" THEN x.k[1] \div 2 ELSE 1
Coarse(x) == Granular([sh |-> x.sh, st |-> x.st, off |-> 0, es |-> 2], x.k[1], x.k[2] = 1)
Shape(x)  == IF x.kind = "tr" THEN [d \in DOMAIN x.perm |-> x.sh[x.perm[d] + 1]] ELSE IF x.kind = "gran" THEN Coarse(x).sh
             ELSE IF x.kind \in OnInput THEN x.ish ELSE x.sh
Stride(x) == IF x.kind = "tr" THEN [d \in DOMAIN x.perm |-> x.st[x.perm[d] + 1]] ELSE IF x.kind = "gran" THEN Coarse(x).st
             ELSE IF x.kind \in OnInput THEN x.ist ELSE x.st

Sum(f, S) == FoldLeft(LAMBDA p, z : p + z, 0, [i \in 1..Len(f) |-> f[i]])

TilePos(m, s, r) == [d \in 1..r |-> FoldLeft(LAMBDA z, i : IF m[i] = d THEN s.pos[i] ELSE z, 0, [i \in DOMAIN m |-> i])]
TileDim(a, m, s, sh) == [d \in 1..Len(sh) |->
  FoldLeft(LAMBDA z, i : IF m[i] = d THEN SizeNow(a, s, i) ELSE z, sh[d], [i \in DOMAIN m |-> i])]

Natural(x) == x.kind \in {"whole", "drop"} \/ \A i \in DOMAIN x.ord : x.ord[i] = i - 1

(* buffer positions are kept by what an iterator becomes at run time; for another than the
   natural order the repository's own tests and its constructors disagree on whether the
   configuration is kept per dimension or per place in the order: not claimed *)
OffSeen(x) == CASE x.kind = "noov" -> x.via = 1
                [] x.kind \in {"tr", "setcfg"} -> FALSE
                [] x.kind = "w" -> x.via = 1 /\ Len(x.ish) = 5
                [] OTHER -> TRUE

(* the memory under the views holds, at every position, the position modulo 2^16 *)
Mark(i) == ((i + 32768) % 65536) - 32768

StepOk(x, a, s, e) ==
  LET m == Dims(x)
      p == TilePos(m, s, Len(Shape(x)))
      d == TileDim(a, m, s, Shape(x))
      at == VDot(p, Stride(x), 1)
      wd == Width(x)
  IN  /\ e.pos = s.pos /\ e.gp = s.pos /\ e.idx = s.idx
      /\ e.isf = [i \in DOMAIN a |-> IF s.idx[i] = 0 THEN 1 ELSE 0]
      /\ e.isl = [i \in DOMAIN a |-> IF s.idx[i] = a[i].count - 1 THEN 1 ELSE 0]
      /\ e.dim = d
      /\ e.a = <<Mark(at * wd)>>
      /\ e.b = <<Mark((at + VDot([i \in DOMAIN d |-> d[i] - 1], Stride(x), 1)) * wd)>>
      /\ e.done = <<IF s.done THEN 1 ELSE 0>>
      /\ e.upd = <<IF x.kind = "gran" THEN UpdIdx(OutAx(x), s) ELSE UpdIdx(a, s)>>
      /\ e.tot = <<Tiles(a)>>
      /\ (Natural(x) /\ OffSeen(x)) => e.off = <<at * wd>>
      /\ x.kind # "w" =>
           /\ e.acc = p /\ e.oacc = <<at>>
           /\ e.dp = e.done /\ e.do = e.done

(* ---- a tile read and written element by element ---- *)
SubOk(x, a, s, e) ==
  LET m == Dims(x)
      d == TileDim(a, m, s, Shape(x))
      v == [sh |-> Reverse(d), st |-> Reverse(Stride(x)), off |-> VDot(TilePos(m, s, Len(Shape(x))), Stride(x), 1)]
      z == Elems(v)
  IN  /\ e.dim = d /\ e.vals = [j \in DOMAIN z |-> Mark(z[j])]
      /\ e.wr = SortSeq(z, <)

(* ---- a buffer for N tiles: the first event gives its size and strides ---- *)
Buffer(x) ==   \* dimensions of the memory of one tile
  LET a == Axes(x)  m == Dims(x)
  IN  [d \in DOMAIN x.sh |-> FoldLeft(LAMBDA z, i : IF m[i] = d THEN RoundTo(TileExtent(a[i]), x.al[d]) ELSE z, x.sh[d], [i \in DOMAIN m |-> i])]
ShrinkOk(x, e) ==
  LET b == Buffer(x)
  IN  /\ e.size = <<x.nt * VProd(b)>>
      /\ e.st = [d \in DOMAIN b |-> VProd(SubSeq(b, d + 1, Len(b)))]
ShrunkOk(x, a, s, e) ==   \* every tile at the start of the buffer, and inside it
  LET m == Dims(x)  b == Buffer(x)
  IN  /\ e.idx = s.idx /\ e.done = <<IF s.done THEN 1 ELSE 0>> /\ e.upd = <<UpdIdx(a, s)>> /\ e.tot = <<Tiles(a)>>
      /\ e.a = <<0>> /\ e.b[1] < VProd(b)
      /\ \A d \in DOMAIN b : e.dim[d] <= b[d]
      /\ \A i \in DOMAIN a : e.dim[m[i]] = (IF s.idx[i] = a[i].count - 1 THEN a[i].lsz ELSE IF s.idx[i] = 0 THEN a[i].fsz ELSE a[i].sz)

(* ---- a buffer of one tile: strides as of the largest tile, which starts at  *)
(* the start of the buffer wherever it is in the tensor                         *)
BufOk(x, e) ==
  LET b == [i \in DOMAIN x.sh |-> OutAx(x)[i].sz]
  IN  e.st = [i \in DOMAIN b |-> VProd(SubSeq(b, i + 1, Len(b)))]
BufStepOk(x, a, s, e) ==
  /\ e.idx = s.idx /\ e.pos = s.pos /\ e.done = <<IF s.done THEN 1 ELSE 0>> /\ e.upd = <<UpdIdx(a, s)>> /\ e.tot = <<Tiles(a)>>
  /\ e.off = <<0>> /\ e.dim = TileDim(a, Dims(x), s, Shape(x))

(* ---- a cyclic buffer: along the first index it holds N consecutive tiles,   *)
(* wherever they are, in whole steps of the writer; one tile in the others      *)
Span(a, n) == FoldLeft(LAMBDA z, i : TMax(z, PosOf(a, (i + n) - 1) + SizeOf(a, (i + n) - 1) - PosOf(a, i)), 0, [i \in 1..(a.count - n + 1) |-> i - 1])
CycNeed(a, n, al) == TMax(IF a.count = 1 THEN n * a.lsz ELSE Span(a, TMin(n, a.count)), n * al)
CycMost(a, n, al) == (n * TMax(TileExtent(a), a.inc)) + a.sz + (n * al)
CycOk(x, e) ==
  LET a == Axes(x)  d == Dims(x)[1]
      one == [Buffer(x) EXCEPT ![d] = 1]
      len == e.size[1] \div VProd(one)
      b == [one EXCEPT ![d] = len]
  IN  /\ e.size[1] = VProd(b) /\ e.st = [i \in DOMAIN b |-> VProd(SubSeq(b, i + 1, Len(b)))]
      /\ len >= CycNeed(a[1], x.nt, x.al[d]) /\ len <= CycMost(a[1], x.nt, x.al[d])

(* ---- configurations ---- *)
CfgStart(x) == LET o == IF x.viain = 1 THEN InAx(x) ELSE OutAx(x)
               IN  Config(o, x.ord, IF x.viain = 1 THEN x.ish ELSE x.sh)
CfgOk(q, e) ==
  LET G(F(_)) == [i \in DOMAIN q.ax |-> F(q.ax[i])] IN
  /\ e.ord = G(LAMBDA a : a.ord) /\ e.cnt = G(LAMBDA a : a.count)
  /\ e.finc = G(LAMBDA a : a.finc) /\ e.inc = G(LAMBDA a : a.inc) /\ e.linc = G(LAMBDA a : a.linc)
  /\ e.fsz = G(LAMBDA a : a.fsz) /\ e.sz = G(LAMBDA a : a.sz) /\ e.lsz = G(LAMBDA a : a.lsz)
  /\ e.dc = G(LAMBDA a : a.dc) /\ e.num = <<q.num>>
(* one event per configuration; shrinking is done in two ways that agree *)
CfgOps(x) == FoldLeft(LAMBDA z, op : IF op[1] = 5 THEN Append(Append(z, op), <<0>>) ELSE Append(z, op), << >>, x.ops)

ViewOk(v, e) ==
  /\ e.dim = v.sh /\ e.rank = <<Len(v.sh)>> /\ e.num = <<VProd(v.sh)>>
  /\ e.es = <<v.es>> /\ e.bytes = <<320000>>
  /\ e.vals = LET z == TLCEval(Elems(v)) IN [j \in DOMAIN z |-> Mark((z[j] * v.es) \div 2)]

Whole(x) == x.crash = 0 /\ x.fin = 1 /\
  IF x.kind = "view" THEN Len(x.ev) = Len(x.ops) + 1
  ELSE IF x.kind = "cyc" THEN Len(x.ev) = 2
  ELSE IF x.kind = "cfg" THEN Len(x.ev) = Len(CfgOps(x)) + 1
  ELSE IF x.kind \in {"sub", "subin"} THEN Len(x.ev) = x.steps
  ELSE IF x.kind \in {"shrink", "buf"} THEN Len(x.ev) = x.steps + 2
  ELSE Len(x.ev) = x.steps + 1 /\ x.ev[x.steps + 1].reset = [i \in DOMAIN Axes(x) |-> 0]

Init == /\ c \in DOMAIN Cases /\ pc = 1
        /\ it = IF Cases[c].kind = "view" THEN [sh |-> Cases[c].sh, st |-> Cases[c].st, off |-> 0, es |-> 2]
                ELSE IF Cases[c].kind = "cfg" THEN CfgStart(Cases[c]) ELSE Start(Axes(Cases[c]))
        /\ ok = Whole(Cases[c])

Next == LET x == Cases[c] IN
        /\ ok /\ c' = c /\ pc' = pc + 1
        /\ IF x.kind = "view"
           THEN /\ pc <= Len(x.ops) + 1
                /\ ok' = ViewOk(it, x.ev[pc])
                /\ it' = IF pc <= Len(x.ops) THEN TLCEval(ViewOp(it, x.ops[pc])) ELSE it
           ELSE IF x.kind = "cyc"
           THEN /\ pc = 1 /\ it' = it
                /\ ok' = (CycOk(x, x.ev[1]) /\ CfgOk(CfgOp(CfgStart(x), <<5, 1>>), x.ev[2]))
           ELSE IF x.kind = "cfg"
           THEN LET o == CfgOps(x) IN
                /\ pc <= Len(o) + 1
                /\ ok' = CfgOk(it, x.ev[pc])
                /\ it' = IF pc <= Len(o) /\ o[pc][1] # 0 THEN TLCEval(CfgOp(it, o[pc])) ELSE it
           ELSE LET a == TLCEval(Axes(x)) IN
                /\ pc <= x.steps
                /\ ok' = CASE x.kind \in {"sub", "subin"} -> SubOk(x, a, it, x.ev[pc])
                           [] x.kind = "shrink" -> (pc = 1 => ShrinkOk(x, x.ev[1])) /\ ShrunkOk(x, a, it, x.ev[pc + 1])
                           [] x.kind = "buf" -> (pc = 1 => BufOk(x, x.ev[1])) /\ BufStepOk(x, a, it, x.ev[pc + 1])
                           [] OTHER -> StepOk(x, a, it, x.ev[pc])
                /\ it' = TLCEval(StepTile(a, it))
Spec == Init /\ [][Next]_vars

Conforms == ok \/ (PrintT(<<"REJECT", c, pc>>) /\ FALSE)
=============================================================================
