-------------------------------- MODULE View --------------------------------
(* Tensor views: shape, memory strides and offset over a memory that holds    *)
(* its own indices.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VProd(s) == FoldLeft(LAMBDA p, z : p * z, 1, s)
RECURSIVE VDot(_, _, _)
VDot(p, s, i) == IF i > Len(p) THEN 0 ELSE (p[i] * s[i]) + VDot(p, s, i + 1)
(* coordinates of flat number j (from 0), last dimension fastest *)
RECURSIVE VUnflat(_, _, _)
VUnflat(j, s, i) == IF i = 0 THEN << >> ELSE VUnflat(j \div s[i], s, i - 1) \o <<j % s[i]>>

Elem(v, p) == v.off + VDot(p, v.st, 1)
Elems(v) == [j \in 1..VProd(v.sh) |-> Elem(v, VUnflat(j - 1, v.sh, Len(v.sh)))]

Take(s, i, n) == SubSeq(s, i, i + n - 1)
Remove1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert1(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Ceil(x, m) == (x + m - 1) \div m
Rows(sh) == [i \in DOMAIN sh |-> VProd(SubSeq(sh, i + 1, Len(sh)))]      \* contiguous, last dimension fastest
Cols(sh) == [i \in DOMAIN sh |-> VProd(SubSeq(sh, 1, i - 1))]           \* contiguous, first dimension fastest

(* the same memory in elements of another size: where rows begin at whole     *)
(* elements every element keeps its place, otherwise (contiguous tensors) the *)
(* rows are padded to whole elements                                          *)
Granular(v, new, first) ==
  LET d  == IF first THEN 1 ELSE Len(v.sh)
      sh == [v.sh EXCEPT ![d] = Ceil(@ * v.es, new)]
      in(x) == (x * v.es) % new = 0
      to(x) == (x * v.es) \div new
  IN  IF (\A i \in DOMAIN v.st : i # d => in(v.st[i])) /\ in(v.off)
      THEN [sh |-> sh, st |-> [i \in DOMAIN sh |-> IF i = d THEN 1 ELSE to(v.st[i])], off |-> to(v.off), es |-> new]
      ELSE [sh |-> sh, st |-> IF first THEN Cols(sh) ELSE Rows(sh), off |-> 0, es |-> new]

(* one view operation, as encoded in a session *)
ViewOp(v, op) ==
  LET r == Len(v.sh) IN
  CASE op[1] = 1 -> [v EXCEPT !.off = Elem(v, Take(op, 2, r)), !.sh = Take(op, 2 + r, r)]
    [] op[1] = 2 -> [v EXCEPT !.off = @ + op[2], !.sh = Take(op, 3, r)]
    [] op[1] = 3 -> [v EXCEPT !.sh = Take(op, 2, r)]
    [] op[1] = 4 -> [v EXCEPT !.sh = [i \in 1..r |-> v.sh[op[1 + i] + 1]], !.st = [i \in 1..r |-> v.st[op[1 + i] + 1]]]
    [] op[1] = 5 ->   \* split axis in chunks: the chunk number goes left or right of the rest
         LET a == op[2] + 1  n == v.sh[a] \div op[3]
             w == [v EXCEPT !.sh[a] = n]
         IN  IF op[4] = 1 THEN [w EXCEPT !.sh = Insert1(w.sh, a, op[3]), !.st = Insert1(w.st, a, n * v.st[a])]
             ELSE [w EXCEPT !.sh = Insert1(w.sh, a + 1, op[3]), !.st = Insert1(w.st, a + 1, n * v.st[a])]
    [] op[1] = 6 ->   \* combine two axes that are contiguous
         LET a == op[2] + 1
         IN  [v EXCEPT !.sh = Remove1([v.sh EXCEPT ![a] = v.sh[a] * v.sh[a + 1]], a + 1),
                       !.st = IF op[3] = 1 THEN Remove1(v.st, a + 1) ELSE Remove1(v.st, a)]
    [] op[1] = 7 -> Granular(v, op[2], op[3] = 1)
    [] op[1] \in {8, 10} -> v
    [] op[1] = 9 -> [v EXCEPT !.sh = Take(op, 2, r)]
=============================================================================
