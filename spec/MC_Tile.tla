------------------------------ MODULE MC_Tile -------------------------------
(* Exhaustive check of tile iteration: an output axis in tiles, the input     *)
(* axis that feeds it through windows, the same input without overlap, and a  *)
(* slower second axis, all stepping together for two passes.                  *)
EXTENDS Tile

CONSTANTS RoundUp, FullAccu, Ave16, RetCodes, MaxN, MaxK, MaxS, MaxIn, N2

VARIABLES P, it, step, seen, seenNo
vars == <<P, it, step, seen, seenNo>>

Params == { q \in [n : 1..MaxN, t : 1..MaxN, skew : 0..(MaxN - 1), k : 1..MaxK, s : 1..MaxS, p : 0..(MaxK - 1), ni : 1..MaxIn, n2 : 1..N2, t2 : 1..N2] :
  /\ q.t <= q.n /\ q.skew < q.t /\ q.p < q.k /\ q.t2 <= q.n2
  \* the output is what windows over the input yield for some trailing padding
  /\ \E pe \in 0..(q.k - 1) : q.ni + q.p + pe >= q.k /\ q.n = (((q.ni + q.p) + pe - q.k) \div q.s) + 1
  \* what the library supports: the first step clears the padding, no tile is empty
  /\ (q.t - q.skew) * q.s >= q.p
  /\ LET a == OutAxis(q.n, q.t, q.skew)
     IN \A i \in 1..(a.count - 1) : PosOf(InAxis(a, q.ni, q.k, q.s, q.p), i) < q.ni }

Out(q)  == OutAxis(q.n, q.t, q.skew)
In(q)   == InAxis(Out(q), q.ni, q.k, q.s, q.p)
NoOv(q) == IF Out(q).count > 1 THEN NoOverlap(In(q)) ELSE In(q)
(* the walk without overlap is possible when every tile keeps an element *)
NoOvOk(q) == LET a == NoOv(q) IN
  /\ (((Out(q).fsz - 1) * q.s) + q.k) - q.p <= q.ni
  /\ \A i \in 0..(a.count - 1) : PosOf(a, i) < q.ni
Second(q) == OutAxis(q.n2, q.t2, 0)

Cfg(q) == <<Out(q), Second(q)>>
Grid(a, i) == { PosOf(a, i) + d : d \in 0..(SizeOf(a, i) - 1) }

Init == /\ P \in Params /\ step = 0 /\ seen = {} /\ seenNo = {}
        /\ it = [o |-> Start(<<Out(P), Second(P)>>), i |-> Start(<<In(P), Second(P)>>), z |-> Start(<<NoOv(P), Second(P)>>)]

Tile2(c, s) == { <<a, b>> : a \in { s.pos[1] + d : d \in 0..(SizeNow(c, s, 1) - 1) }, b \in { s.pos[2] + d : d \in 0..(SizeNow(c, s, 2) - 1) } }
TotalT(q) == Tiles(Cfg(q))

Next == /\ step < 2 * TotalT(P)
        /\ step' = step + 1 /\ P' = P
        /\ LET co == <<Out(P), Second(P)>>  ci == <<In(P), Second(P)>>  cz == <<NoOv(P), Second(P)>> IN
           /\ it' = [o |-> StepTile(co, it.o), i |-> StepTile(ci, it.i), z |-> StepTile(cz, it.z)]
           /\ seen'   = (IF step % TotalT(P) = 0 THEN {} ELSE seen) \union Tile2(co, it.o)
           /\ seenNo' = (IF step % TotalT(P) = 0 THEN {} ELSE seenNo) \union Tile2(cz, it.z)
Spec == Init /\ [][Next]_vars

(* ---- C01 ---- *)
Inside == LET c == Cfg(P) IN \A x \in 1..2 :
  /\ it.o.pos[x] >= 0 /\ SizeNow(c, it.o, x) >= 1
  /\ it.o.pos[x] + SizeNow(c, it.o, x) <= c[x].n
  /\ SizeNow(c, it.o, x) <= c[x].sz
(* never an element twice within a pass, all of them by its end *)
Exactly == LET c == Cfg(P) IN
  /\ (step % TotalT(P) # 0) => Tile2(c, it.o) \intersect seen = {}
  /\ (step > 0 /\ step % TotalT(P) = 0) => Cardinality(seen) = P.n * P.n2
Closed == LET k == step % TotalT(P)  c == Cfg(P) IN
  /\ it.o.idx = IdxOf(c, k, 1)
  /\ \A x \in 1..2 : it.o.pos[x] = PosOf(c[x], it.o.idx[x])
Done == /\ it.o.done = (step > 0 /\ step % TotalT(P) = 0)
        /\ it.o.done => it.o.idx = <<0, 0>> /\ it.o.pos = <<0, 0>>
Together == it.o.idx = it.i.idx /\ it.o.done = it.i.done /\ it.i.idx = it.z.idx
(* ---- C02 ---- *)
Field == LET c == Out(P)  a == In(P)  x == it.o.idx[1]
             outs == Grid(c, x)
             need == { i \in 0..(P.ni - 1) : \E o \in outs : \E d \in 0..(P.k - 1) : i = ((o * P.s) - P.p) + d }
             tile == { it.i.pos[1] + d : d \in 0..(SizeNow(<<a>>, [it.i EXCEPT !.idx = <<x>>], 1) - 1) }
             Lo == CHOOSE m \in need : \A z \in need : m <= z
             Hi == CHOOSE m \in need : \A z \in need : m >= z
         IN  /\ tile \subseteq 0..(P.ni - 1)
             /\ need # {} => /\ Lo..Hi \subseteq tile
                             /\ (it.i.pos[1] = Lo \/ Lo < it.i.pos[1] + P.k)
                             /\ x < c.count - 1 => tile = it.i.pos[1]..Hi
                             /\ tile # {} => it.i.pos[1] = TMax(((it.o.pos[1] * P.s) - P.p), 0)
(* without overlap nothing is transferred twice and nothing is lost *)
NoOvPartition == NoOvOk(P) =>
  /\ (step % TotalT(P) # 0) => Tile2(<<NoOv(P), Second(P)>>, it.z) \intersect seenNo = {}
  /\ (step > 0 /\ step % TotalT(P) = 0) => Cardinality(seenNo) = P.ni * P.n2
(* equal update index: equal tile layout, unless the tile is cut by the end *)
UpdLayout == \A j \in 0..(Out(P).count - 1) :
  LET c == Cfg(P)  s2 == [it.o EXCEPT !.idx = <<j, it.o.idx[2]>>]
  IN  UpdIdx(c, s2) = UpdIdx(c, it.o) => SizeNow(c, s2, 1) = SizeNow(c, it.o, 1)
=============================================================================
