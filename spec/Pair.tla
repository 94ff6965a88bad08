-------------------------------- MODULE Pair --------------------------------
(* Two-run properties.  A record holds two runs of one call on operands that  *)
(* hold the same elements, in memory that otherwise differs in every byte the *)
(* call may not look at: contents around and between the elements, previous   *)
(* contents of outputs and scratch, place in memory, descriptor fields beyond *)
(* the rank.  Frame: each run wrote nothing but its outputs.  Equal: both     *)
(* left the same outputs, descriptors and status.                             *)
EXTENDS Lib, Json, IOUtils, TLC

VARIABLES c, pc, ok
vars == <<c, pc, ok>>
Cases == ndJsonDeserialize(IOEnv.CASES)

(* what a call may write: tensors (in place at their descriptor after the call) *)
Outs(k, a, mem, ts) ==
  CASE k = "lstm" -> <<RnnOut(a.p, ts[a.in], Count(ts[a.prev]), ts[a.out]), ts[a.cell]>>
    [] k = "gru"  -> <<RnnOut(a.p, ts[a.in], Count(ts[a.prev]), ts[a.out])>>
    [] k = "permute" -> LET w == PermArrays(mem, ts[a.in], ts[a.out])
                        IN  <<ts[a.out]>> \o [i \in DOMAIN w |-> w[i][1]]
    [] k = "mov_sync" -> LET w == MovWrites(a.cf, mem, ts[a.in], ts[a.out])
                         IN  [i \in DOMAIN w |-> w[i][1]]
    [] OTHER -> <<ts[a.out]>>
Scratch(k, a, ts) ==
  CASE k = "lstm" -> ScratchSet(a.scr, 4 * Count(ts[a.prev]))
    [] k = "gru"  -> ScratchSet(a.scr, 3 * Count(ts[a.prev]))
    [] OTHER -> {}

OnlyOutputs(x, r) ==
  LET o == Outs(x.k, x.a, r.pre, x.ts)
  IN  /\ r.crash = 0 /\ r.guard = << >> /\ r.ret = OK
      /\ WritesOnly(r.pre, r.post, [i \in DOMAIN o |-> <<o[i], << >>>>], Scratch(x.k, x.a, x.ts))
      /\ \A i \in DOMAIN x.ts : i # x.a.out => r.ts2[i] = x.ts[i]

Equal(x) ==
  LET o == Outs(x.k, x.a, x.ra.pre, x.ts)
  IN  /\ x.ra.ts2 = x.rb.ts2
      /\ \A i \in DOMAIN o : LET p == Pos(o[i])
                             IN  \A j \in DOMAIN p : x.ra.post[o[i].ar][p[j]] = x.rb.post[o[i].ar][p[j]]

(* in place: run a writes separate memory, run b the memory of an operand; x.tb *)
(* are the descriptors of run b                                               *)
InPlaceOk(x, s) ==
  LET y == [k |-> x.k, a |-> x.a, ts |-> x.tb]
      o == x.a.out
  IN  CASE s = 1 -> OnlyOutputs(x, x.ra)
        [] s = 2 -> OnlyOutputs(y, x.rb)
        [] s = 3 -> /\ x.rb.ts2[o] = [x.tb[o] EXCEPT !.q = x.ra.ts2[o].q]
                    /\ x.ra.ts2[o] = [x.ts[o] EXCEPT !.q = x.ra.ts2[o].q]
                    /\ Rd(x.ra.post, x.ts[o]) = Rd(x.rb.post, x.tb[o])

(* compiled kernels: the driver gives each run other banks, fill and places   *)
Frame30(r) == /\ r.crash = 0 /\ r.done = 1 /\ r.notes = << >>
              /\ \A i \in DOMAIN r.ev : r.ev[i].f = 0 /\ r.ev[i].st = 0
Equal30(x) == x.ra.ev = x.rb.ev

PairOk(x, s) ==
  IF x.k = "k30" THEN (CASE s = 1 -> Frame30(x.ra) [] s = 2 -> Frame30(x.rb) [] s = 3 -> Equal30(x))
  ELSE IF x.two = 1 THEN InPlaceOk(x, s)
  ELSE CASE s = 1 -> OnlyOutputs(x, x.ra) [] s = 2 -> OnlyOutputs(x, x.rb) [] s = 3 -> Equal(x)

Init == c \in DOMAIN Cases /\ pc = 1 /\ ok = TRUE
Next == /\ ok /\ pc <= 3
        /\ c' = c
        /\ ok' = PairOk(Cases[c], pc)
        /\ pc' = IF ok' THEN pc + 1 ELSE pc
Spec == Init /\ [][Next]_vars

Conforms == ok \/ (PrintT(<<"REJECT", c, pc>>) /\ FALSE)
=============================================================================
