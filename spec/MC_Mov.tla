------------------------------- MODULE MC_Mov -------------------------------
(* The asynchronous data movement interface on its own: every interleaving of *)
(* the operations of a few users sharing the channel pool.  Checked for the   *)
(* ownership invariants below; every edge of the state graph is printed as a  *)
(* history (shortest path + edge) and replayed on the real code.              *)
EXTENDS KMov, TLC

CONSTANTS NH, Nums, Pools, MaxLen

VARIABLES m, hist, done     \* done: callbacks received per handle since acquired; starts
vars == <<m, hist, done>>

H == 1..NH
op(k, h, n, w) == <<k, h, n, w>>

Go(k, a, e) == /\ Legal(m, k, a)
               /\ m' = MovNext(m, k, a)
               /\ hist' = Append(hist, e)
               /\ done' = CASE k = "mov_start" -> [done EXCEPT ![a.h] = [n |-> @.n + 1, c |-> @.c + Len(Callbacks(m, a.h))]]
                            [] k \in {"mov_acquire", "mov_release", "mov_newhandle"} -> [done EXCEPT ![a.h] = [n |-> 0, c |-> 0]]
                            [] OTHER -> done

Init == m = MovInit /\ hist = << >> /\ done = [h \in H |-> [n |-> 0, c |-> 0]]
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E p \in Pools : Go("mov_set", [b |-> p[1], n |-> p[2]], op(0, p[1], p[2], 0))
     \/ \E h \in H, n \in Nums : Go("mov_acquire", [h |-> h, n |-> n], op(1, h, n, 0))
     \/ \E h \in H : Go("mov_release", [h |-> h], op(2, h, 0, 0))
     \/ \E h \in H, w \in {0, 1} : Go("mov_register", [h |-> h, w |-> w, ck |-> h], op(3, h, h, w))
     \/ \E h \in H : done[h].n < 2 /\ Go("mov_prepare", [h |-> h], op(4, h, 0, 0))
     \/ \E h \in H : Go("mov_start", [h |-> h], op(5, h, 0, 0))
     \/ \E h \in H : Go("mov_isdone", [h |-> h], op(6, h, 0, 0))
     \/ \E h \in H : Go("mov_wait", [h |-> h], op(7, h, 0, 0))
     \/ Go("mov_sync", << >>, op(8, 0, 0, 0))
Spec == Init /\ [][Next]_vars

Owned(h) == {c \in 0..15 : m.h[h].ch <= c /\ c < m.h[h].ch + m.h[h].num}
TypeOk == \A h \in H : m.h[h].st \in {INVALID, OPEN, PREPARED, DONE}
Disjoint == \A g \in H, h \in H : g # h => Owned(g) \cap Owned(h) = {}
InPool == \A h \in H : Owned(h) \subseteq m.base..((m.base + m.size) - 1)
NoLeak == \A c \in 0..15 : (m.ch[c + 1] = 2) <=> (\E h \in H : c \in Owned(h))
OncePerStart == \A h \in H : done[h].c <= done[h].n
PoolsDef == {<<0, 3>>, <<13, 3>>}
PoolsBig == {<<0, 4>>, <<2, 3>>, <<11, 5>>}
View == <<m, done>>
Edge == PrintT("EDGE " \o ToString(hist'))
=============================================================================
