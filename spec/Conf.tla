-------------------------------- MODULE Conf --------------------------------
(* Conformance of recorded executions with the specification: every recorded *)
(* session is a behaviour  call; call; ...  over the specified state (memory *)
(* and tensor descriptors); each observed step must be a step Lib allows.    *)
EXTENDS Lib, Json, IOUtils, TLC

VARIABLES c, pc, ok
vars == <<c, pc, ok>>

Cases == ndJsonDeserialize(IOEnv.CASES)

(* memory and descriptors before call k of case x: the initial ones updated  *)
(* by the changes observed up to call k-1 (all validated by earlier steps)   *)
RECURSIVE MemAt(_, _), TsAt(_, _)
MemAt(x, k) == IF k = 1 THEN x.ar
               ELSE LET p == MemAt(x, k - 1)
                        d == x.calls[k-1].o.da
                    IN  [a \in DOMAIN p |-> IF \E j \in DOMAIN d : d[j].a = a
                                            THEN d[CHOOSE j \in DOMAIN d : d[j].a = a].v ELSE p[a]]
TsAt(x, k)  == IF k = 1 THEN x.ts
               ELSE LET p == TsAt(x, k - 1)
                        d == x.calls[k-1].o.dt
                    IN  [a \in DOMAIN p |-> IF \E j \in DOMAIN d : d[j].a = a
                                            THEN d[CHOOSE j \in DOMAIN d : d[j].a = a].t ELSE p[a]]

(* the data movement state is not observable as a whole: follow the model     *)
RECURSIVE MovAt(_, _)
MovAt(x, k) == IF k = 1 THEN MovInit ELSE MovNext(MovAt(x, k - 1), x.calls[k-1].k, x.calls[k-1].a)

StepOk(x, k) ==
  LET cl == x.calls[k]
  IN  /\ cl.o.guard = << >>
      /\ cl.o.crash = 0
      /\ (k = 1) => LutsOk(x, x.ar)
      /\ Legal(MovAt(x, k), cl.k, cl.a) /\ Step(cl.k, cl.a, x, MovAt(x, k), MemAt(x, k), TsAt(x, k), MemAt(x, k + 1), TsAt(x, k + 1), cl.o)

Init == c \in DOMAIN Cases /\ pc = 1 /\ ok = TRUE
Next == /\ ok /\ pc <= Len(Cases[c].calls)
        /\ c' = c
        /\ ok' = StepOk(Cases[c], pc)
        /\ pc' = IF ok' THEN pc + 1 ELSE pc
Spec == Init /\ [][Next]_vars

Conforms == ok \/ (PrintT(<<"REJECT", c, pc>>) /\ FALSE)
=============================================================================
