------------------------------- MODULE Conf30 -------------------------------
(* Conformance of recorded runs of compiled kernels.  The specification's     *)
(* state is the set of tile iterators, one per reported operand, stepping in  *)
(* lock step; every recorded tile must be the one the iterators are at and    *)
(* must hold the value of the definition for each of its elements.            *)
EXTENDS K30, Json, IOUtils

CONSTANTS FullAccu, Ave16, RetCodes   \* build options without influence on compiled kernels

VARIABLES c, pc, it, ok
vars == <<c, pc, it, ok>>

Cases == ndJsonDeserialize(IOEnv.CASES)

(* operand dimension d of reported operand n follows iteration index *)
SpanOk(sp, t, s) ==
  /\ {t.dim[i] : i \in DOMAIN t.dim} \ {0} = DOMAIN sp.p
  /\ \A i \in DOMAIN t.ax : t.dim[i] = 0 \/ (sp.p[t.dim[i]] = s.pos[i] /\ sp.s[t.dim[i]] = SizeNow(t.ax, s, i))

ValuesOk(x, e) ==
  LET sp == Last(e.q)
      n == FoldLeft(LAMBDA p, z : p * z, 1, sp.s)
  IN  /\ Len(e.v) = n
      /\ \A j \in 1..n :
           LET u == Unflat(j, sp.s)
           IN  e.v[j] = Value(x, [d \in DOMAIN sp.s |-> sp.p[d] + u[d]])

EventOk(x, t, s, e) ==
  /\ e.st = 0 /\ e.f = 0
  /\ Len(e.q) = Len(t)
  /\ \A n \in DOMAIN t : SpanOk(e.q[n], t[n], s[n])
  /\ ValuesOk(x, e)

Total(x) == x.passes * Tiles(Last(Tilings(x)).ax)

(* a reported buffer size is the extent of the operand in memory, in elements *)
Extent(op) == FoldLeft(LAMBDA a, d : a + ((op.sh[d] - 1) * op.st[d]), 1, Seq1(Len(op.sh)))
BufsOk(x) == \A i \in DOMAIN x.bufs : x.bufs[i][2] = Extent(x.ops[x.bufs[i][1]])

Init == /\ c \in DOMAIN Cases /\ pc = 1
        /\ it = [n \in DOMAIN Tilings(Cases[c]) |-> Start(Tilings(Cases[c])[n].ax)]
        /\ ok = (Cases[c].notes = << >> /\ Cases[c].crash = 0 /\ Cases[c].done = 1 /\ Len(Cases[c].ev) = Total(Cases[c])
               /\ BufsOk(Cases[c]))

Next == LET x == Cases[c]  t == TLCEval(Tilings(x)) IN
        /\ ok /\ pc <= Total(x)
        /\ c' = c /\ pc' = pc + 1
        /\ ok' = EventOk(x, t, it, x.ev[pc])
        /\ it' = [n \in DOMAIN t |-> StepTile(t[n].ax, it[n])]
Spec == Init /\ [][Next]_vars

Conforms == ok \/ (PrintT(<<"REJECT", c, pc>>) /\ FALSE)
(* all operands of a kernel finish a pass together *)
LockStep == \A m, n \in DOMAIN it : it[m].done = it[n].done
=============================================================================
