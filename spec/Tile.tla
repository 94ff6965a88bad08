-------------------------------- MODULE Tile --------------------------------
(* Tile iteration.  A tiling is one axis record per iteration index; axis     *)
(* records count tiles and give position increments and sizes of the first,   *)
(* middle and last tile.  Index 1 is the fastest.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

TMin(a, b) == IF a < b THEN a ELSE b
TMax(a, b) == IF a > b THEN a ELSE b
TCeil(a, b) == (a + b - 1) \div b

(* output axis of length n in tiles of t, the first one shortened by skew *)
OutAxis(n, t, skew) ==
  LET c == TCeil(n + skew, t)
  IN  [n |-> n, count |-> c,
       fsz |-> t - skew, finc |-> t - skew, sz |-> t, inc |-> t,
       lsz |-> (((n + skew) - 1) % t) + 1, linc |-> (t * (1 - c)) + skew]

(* input axis of length n feeding output axis o through windows of effective *)
(* extent k at stride s after p leading padding elements                      *)
InAxis(o, n, k, s, p) ==
  LET finc == (o.finc * s) - p
      inc  == o.inc * s
      linc == IF o.count > 1 THEN (inc * (2 - o.count)) - finc ELSE 0
  IN  [n |-> n, count |-> o.count, finc |-> finc, inc |-> inc, linc |-> linc,
       fsz |-> TMin((((o.fsz - 1) * s) + k) - p, n),
       sz |-> ((o.sz - 1) * s) + k, lsz |-> n + linc]

(* the same axis with the overlap of neighbouring tiles taken from the later *)
NoOverlap(a) ==
  LET ov == a.sz - a.inc
  IN  [a EXCEPT !.finc = a.fsz, !.sz = a.inc, !.lsz = @ - ov, !.linc = @ - ov]

(* an axis that is not tiled but is revisited count times *)
FixedAxis(n, count) == [n |-> n, count |-> count, fsz |-> n, sz |-> n, lsz |-> n, finc |-> 0, inc |-> 0, linc |-> 0]

(* position and size of tile number i (from 0) of an axis *)
PosOf(a, i)  == IF i = 0 THEN 0 ELSE a.finc + ((i - 1) * a.inc)
SizeOf(a, i) == IF i = a.count - 1 THEN a.lsz
                ELSE IF i = 0 THEN a.fsz ELSE TMin(a.n - PosOf(a, i), a.sz)

Tiles(cfg) == FoldLeft(LAMBDA p, a : p * a.count, 1, cfg)

(* tile indices of step number k (from 0): mixed radix digits *)
RECURSIVE IdxOf(_, _, _)
IdxOf(cfg, k, i) == IF i > Len(cfg) THEN << >>
                    ELSE <<k % cfg[i].count>> \o IdxOf(cfg, k \div cfg[i].count, i + 1)

(* the iterator as a state machine: idx and pos per iteration index *)
Start(cfg) == [idx |-> [i \in DOMAIN cfg |-> 0], pos |-> [i \in DOMAIN cfg |-> 0], done |-> FALSE]
RECURSIVE Carry(_, _, _)
Carry(cfg, s, i) ==
  IF i > Len(cfg) THEN [s EXCEPT !.done = TRUE]
  ELSE IF s.idx[i] = cfg[i].count - 1
       THEN Carry(cfg, [s EXCEPT !.idx[i] = 0, !.pos[i] = 0], i + 1)
       ELSE [s EXCEPT !.idx[i] = @ + 1, !.pos[i] = @ + (IF s.idx[i] = 0 THEN cfg[i].finc ELSE cfg[i].inc)]
StepTile(cfg, s) == Carry(cfg, [s EXCEPT !.done = FALSE], 1)

(* tiles with the same update index have the same layout: per index the      *)
(* first, middle and last tile are numbered by their distinct sizes           *)
Kinds(a) == IF a.count = 1 THEN 1
            ELSE IF a.count = 2 \/ a.fsz = a.sz THEN (IF a.fsz = a.lsz THEN 1 ELSE 2)
            ELSE IF a.fsz = a.lsz \/ a.sz = a.lsz THEN 2 ELSE 3
KindNow(a, i) ==
  IF i = 0 \/ Kinds(a) = 1 THEN 0
  ELSE IF i = a.count - 1 THEN (IF a.fsz = a.lsz THEN 0 ELSE Kinds(a) - 1)
  ELSE (IF a.fsz = a.sz THEN 0 ELSE 1)
RECURSIVE UpdAt(_, _, _)
UpdAt(cfg, s, i) == IF i > Len(cfg) THEN 0
                    ELSE KindNow(cfg[i], s.idx[i]) + (Kinds(cfg[i]) * UpdAt(cfg, s, i + 1))
UpdIdx(cfg, s) == UpdAt(cfg, s, 1)

SizeNow(cfg, s, i) == SizeOf(cfg[i], s.idx[i])

(* how the sizes of the first, middle and last tile differ *)
Code(a) == IF a.count = 1 THEN 0
           ELSE IF a.count > 2 /\ a.fsz # a.sz
                THEN (IF a.fsz = a.lsz THEN 2 ELSE IF a.sz = a.lsz THEN 3 ELSE 4)
                ELSE (IF a.fsz = a.lsz THEN 0 ELSE 1)

(* ---- configurations under reconfiguration.  A configuration is a sequence *)
(* of axes that also carry the dimension they move along (-1: none) and the  *)
(* layout code; shape is that of the tensor, num the tiles the buffer holds. *)
Config(axes, ord, shape) ==
  [ax |-> [i \in DOMAIN axes |-> [n |-> axes[i].n, count |-> axes[i].count, fsz |-> axes[i].fsz, sz |-> axes[i].sz, lsz |-> axes[i].lsz,
                                  finc |-> axes[i].finc, inc |-> axes[i].inc, linc |-> axes[i].linc, ord |-> ord[i], dc |-> Code(axes[i])]],
   shape |-> shape, num |-> 0]

Recode(a) == [a EXCEPT !.dc = Code(a)]
RoundTo(x, m) == TCeil(x, m) * m
(* x elements of size old in elements of size new; increments keep their sign *)
Gran(x, old, new) == IF x < 0 THEN -TCeil((-x) * old, new) ELSE TCeil(x * old, new)
Map(c, Test(_), F(_)) == [c EXCEPT !.ax = [i \in DOMAIN c.ax |-> IF Test(i) THEN F(i) ELSE c.ax[i]]]

CfgOp(c, op) ==
  LET A == c.ax
      Moves(i) == A[i].ord >= 0 /\ A[i].count > 1
      U(i) == op[2 + A[i].ord]                       \* given per dimension
  IN
  CASE op[1] = 1 -> Map(c, Moves, LAMBDA i : [A[i] EXCEPT !.finc = @ + U(i), !.linc = @ - U(i)])
    [] op[1] = 2 -> Map(c, Moves, LAMBDA i : [A[i] EXCEPT !.fsz = RoundTo(@, U(i)), !.sz = RoundTo(@, U(i)), !.lsz = RoundTo(@, U(i))])
    [] op[1] = 3 -> Map(c, LAMBDA i : A[i].ord = op[2], LAMBDA i :
         LET G(x) == Gran(x, op[3], op[4])
         IN  [A[i] EXCEPT !.fsz = G(@), !.sz = G(@), !.lsz = G(@), !.finc = G(@), !.inc = G(@), !.linc = G(@)])
    [] op[1] = 4 -> Map(c, LAMBDA i : op[1 + i] # -1, LAMBDA i :
         LET v == op[1 + i]  l == v * (1 - A[i].count)
         IN  Recode([A[i] EXCEPT !.fsz = v, !.sz = v, !.finc = v, !.inc = v, !.linc = l, !.lsz = c.shape[i] + l]))
    [] op[1] = 5 -> Map(c, LAMBDA i : TRUE, LAMBDA i :
         IF op[2] = 1 /\ i = 1 THEN [A[i] EXCEPT !.linc = A[i].lsz] ELSE [A[i] EXCEPT !.finc = 0, !.inc = 0, !.linc = 0])
    [] op[1] = 6 -> Map(c, LAMBDA i : i = 1 /\ A[i].count > 1, LAMBDA i : Recode(NoOverlap(A[i])))
    [] op[1] = 7 -> Map(c, LAMBDA i : A[i].ord >= 0, LAMBDA i : [A[i] EXCEPT !.ord = (CHOOSE d \in DOMAIN A : op[1 + d] = A[i].ord) - 1])
    [] op[1] = 8 -> Map(c, LAMBDA i : TRUE, LAMBDA i : [A[i] EXCEPT !.count = op[1 + i]])
    [] op[1] = 9 -> Map(c, LAMBDA i : op[1 + i] # 0, LAMBDA i : [A[i] EXCEPT !.finc = 0, !.inc = 0, !.linc = 0])
    [] op[1] = 10 -> Map(c, LAMBDA i : TRUE, LAMBDA i :
         IF op[1 + i] = -1 THEN [A[i] EXCEPT !.ord = -1, !.fsz = 0, !.sz = 0, !.lsz = 0, !.dc = 0] ELSE [A[i] EXCEPT !.ord = op[1 + i]])
    [] op[1] = 11 -> [Map(c, LAMBDA i : TRUE, LAMBDA i : Recode(A[i])) EXCEPT !.num = op[2]]
    [] op[1] = 12 -> Map(c, LAMBDA i : i = op[3] + 1, LAMBDA i : [A[i] EXCEPT !.count = op[2]])

(* the increments of a pass lead back to its start *)
ClosedAxis(a) == a.count > 1 => a.finc + ((a.count - 2) * a.inc) + a.linc = 0
(* the extent a buffer for one tile needs along an axis *)
TileExtent(a) == IF a.count = 1 THEN a.lsz ELSE IF a.count = 2 THEN TMax(a.fsz, a.lsz) ELSE TMax(TMax(a.fsz, a.lsz), a.sz)
=============================================================================
