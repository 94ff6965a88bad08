------------------------------- MODULE MC_Cfg -------------------------------
(* Exhaustive check of reconfiguration: one tiled axis under every short      *)
(* sequence of operations.                                                    *)
EXTENDS Tile

CONSTANTS RoundUp, FullAccu, Ave16, RetCodes, MaxN, MaxOps

VARIABLES c, n, open, fresh
vars == <<c, n, open, fresh>>

(* an output axis, and input axes of windows over it *)
Axes1 == { OutAxis(q[1], q[2], q[3]) : q \in { z \in (1..MaxN) \X (1..MaxN) \X (0..(MaxN - 1)) : z[2] <= z[1] /\ z[3] < z[2] } }
Axes2 == { InAxis(o, q[1], q[2], q[3], q[4]) : o \in Axes1, q \in { z \in (1..(2 * MaxN)) \X (1..3) \X (1..2) \X (0..2) : z[4] < z[2] } }
Valid(a) == /\ a.finc >= 0 /\ a.lsz >= 1 /\ \A i \in 1..(a.count - 1) : PosOf(a, i) < a.n
            /\ a.fsz >= 1

Ops(a) == { <<1, p>> : p \in 0..2 } \union { <<2, m>> : m \in 1..3 }
  \union { <<3, 0, q[1], q[2]>> : q \in { z \in {<<2, 1>>, <<1, 2>>, <<1, 3>>} : \A x \in {a.finc, a.inc, a.linc} : (x * z[1]) % z[2] = 0 } }
  \union { <<4, v>> : v \in { z \in 1..MaxN : z * (a.count - 1) < c.shape[1] } }
  \union { <<5, k>> : k \in {0, 1} } \union { <<7, 0>>, <<9, 0>>, <<9, 1>>, <<11, 0>>, <<11, 1>>, <<10, 0>> }
  \union (IF n = 0 /\ a.fsz <= a.n /\ \A i \in 1..(a.count - 1) : PosOf(NoOverlap(a), i) < a.n THEN { <<6>> } ELSE {})

Init == /\ \E a \in { z \in Axes1 \union Axes2 : Valid(z) } : c = Config(<<a>>, <<0>>, <<a.n>>)
        /\ n = 0 /\ open = FALSE /\ fresh = TRUE
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E op \in Ops(c.ax[1]) :
             /\ c' = CfgOp(c, op)
             /\ open' = (open \/ op[1] = 5)                        \* a shrunk buffer is not walked
             /\ fresh' = ((fresh /\ op[1] \notin {2, 3}) \/ op[1] \in {4, 11} \/ (op[1] = 6 /\ c.ax[1].count > 1))
Spec == Init /\ [][Next]_vars

A == c.ax[1]
(* what one operation does it does completely: a pass leads back to its start *)
Closes == open \/ ClosedAxis(A)
(* tiles counted as alike have equal sizes *)
Layout == fresh => A.dc = Code(A)
Sound == (A.dc = 0 /\ A.count > 1 => A.fsz = A.lsz)
         /\ (A.dc \in {0, 1} /\ A.count > 2 => A.fsz = A.sz)
         /\ (A.dc = 3 => A.sz = A.lsz) /\ (A.dc = 2 => A.fsz = A.lsz)
Kept == A.count >= 1 /\ A.n = c.shape[1]
(* one tile of any kind fits in what the shrunk buffer provides *)
Fits == LET e == TileExtent(A) IN A.lsz <= e /\ (A.count > 1 => A.fsz <= e) /\ (A.count > 2 => A.sz <= e)
        /\ (e = A.lsz \/ e = A.fsz \/ e = A.sz)
=============================================================================
