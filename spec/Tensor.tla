------------------------------- MODULE Tensor -------------------------------
(* Tensors are descriptors over a memory made of arenas (sequences of        *)
(* elements).  t.ar = arena (0: none), t.off = element offset, t.sh shape,   *)
(* t.st strides in elements, t.el element type, t.q quantisation parameters, *)
(* t.imm immediate value of a rank 0 tensor.                                 *)
EXTENDS FxMath, SequencesExt, FiniteSets, TLC

Seq1(n) == [i \in 1..n |-> i]

Rank(t) == Len(t.sh)
ProdSeq(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Count(t) == ProdSeq(t.sh)

IsFx(el) == el \in {"fx8", "fx16"}
IsSa(el) == el \in {"sa8", "sa32"}
Bits(el) == CASE el \in {"fx8", "sa8"} -> 8 [] el = "fx16" -> 16
              [] el \in {"sa32", "fp32"} -> 32
ElBytes(el) == Bits(el) \div 8

(* row-major coordinates (0-based) of flat index i (1-based) in shape sh *)
RECURSIVE UnflatR(_, _, _)
UnflatR(i, sh, r) == IF r = 0 THEN << >>
                     ELSE Append(UnflatR(i \div sh[r], sh, r - 1), i % sh[r])
Unflat(i, sh) == UnflatR(i - 1, sh, Len(sh))

(* row-major flat index (1-based) of coordinates c in shape sh *)
Flat(c, sh) == 1 + FoldLeft(LAMBDA a, d : (a * sh[d]) + c[d], 0, Seq1(Len(sh)))

(* element offset of flat index i (1-based), without building the coordinates *)
RECURSIVE OffR(_, _, _, _)
OffR(i, sh, st, r) == IF r = 0 THEN 0
                      ELSE IF r = 1 THEN i * st[1]
                      ELSE ((i % sh[r]) * st[r]) + OffR(i \div sh[r], sh, st, r - 1)

(* arena positions (1-based) of the elements of t in row-major order *)
Pos(t) == IF Rank(t) = 0 THEN << >>
          ELSE TLCEval([i \in 1..Count(t) |-> t.off + OffR(i - 1, t.sh, t.st, Rank(t)) + 1])

(* element values of t in row-major order *)
Rd(mem, t) == IF Rank(t) = 0 THEN <<t.imm>>
              ELSE LET a == mem[t.ar]
                   IN  TLCEval([i \in 1..Count(t) |-> a[t.off + OffR(i - 1, t.sh, t.st, Rank(t)) + 1]])

(* quantisation parameters; idx is 0-based along the quantised axis *)
PerAxis(t) == IsSa(t.el) /\ t.q.dim >= 0
Arr(mem, ref, idx) == mem[ref[1]][ref[2] + idx + 1]
Zp(mem, t, idx) == IF ~IsSa(t.el) THEN 0 ELSE IF t.q.dim < 0 THEN t.q.zp ELSE Arr(mem, t.q.zp, idx)
Sc(mem, t, idx) == IF ~IsSa(t.el) THEN 1 ELSE IF t.q.dim < 0 THEN t.q.sc ELSE Arr(mem, t.q.sc, idx)
Fr(mem, t, idx) == IF t.el = "fp32" THEN 0 ELSE IF ~IsSa(t.el) THEN t.q.fr ELSE IF t.q.dim < 0 THEN t.q.fr ELSE Arr(mem, t.q.fr, idx)

(* index along axis d (0-based) of flat index i *)
AxisIdx(i, sh, d) ==
  LET inner == FoldLeft(LAMBDA a, k : a * sh[k], 1, SubSeq(Seq1(Len(sh)), d + 2, Len(sh)))
  IN  ((i - 1) \div inner) % sh[d + 1]

(* row-major strides of a shape *)
DenseStrides(sh) ==
  [d \in 1..Len(sh) |-> FoldLeft(LAMBDA a, k : a * sh[k], 1, SubSeq(Seq1(Len(sh)), d + 1, Len(sh)))]

(* post memory: exactly the elements of the written tensors changed, to the  *)
(* given values.  w: sequence of <<tensor, values>>; free: arena -> set of   *)
(* positions whose content is unconstrained (scratch).                       *)
Positions(t) == {Pos(t)[i] : i \in DOMAIN Pos(t)}

WritesOnly(pre, post, w, free) ==
  \A a \in DOMAIN pre :
    LET touched == (UNION {IF w[k][1].ar = a THEN Positions(w[k][1]) ELSE {} : k \in DOMAIN w})
                     \cup {p[2] : p \in {q \in free : q[1] = a}}
    IN  /\ Len(post[a]) = Len(pre[a])
        /\ \A i \in DOMAIN pre[a] : post[a][i] = pre[a][i] \/ i \in touched

WroteValues(post, w) ==
  \A k \in DOMAIN w : LET p == Pos(w[k][1])  v == w[k][2]  a == post[w[k][1].ar]
                      IN  Len(v) = Len(p) /\ \A i \in DOMAIN p : a[p[i]] = v[i]
=============================================================================
