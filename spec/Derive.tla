------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The short cuts by which Struct judges derived queries, against their    *)
(* definitions as sums over the enumerated structures: posterior of a      *)
(* part, covariance of two parts, k-best list, entropy, cross-entropy, KL, *)
(* count, additive offsets.  One state per family, length and potential    *)
(* table.                                                                  *)
(***************************************************************************)
EXTENDS Struct
CONSTANTS Deep, Fault
VARIABLE c
D(f, C, K, L, r) == [fam |-> f, C |-> C, K |-> K, L |-> L, NT |-> 0, T |-> 0, root |-> r]
Big == IF Deep THEN 1 ELSE 0
Shapes ==
  { <<D("chain", 2, 0, 0, "multi"), n>> : n \in 2..(3 + Big) }
  \cup { <<D("semi", C, 3, 0, "multi"), n>> : C \in 1..2, n \in 2..(3 + Big) }
  \cup { <<D(f, 0, 0, 0, r), n>> : f \in {"dep", "np"}, r \in {"multi", "single"}, n \in 1..(3 + Big) }
  \cup { <<D("depl", 0, 0, 2, r), n>> : r \in {"multi", "single"}, n \in 1..2 }
  \cup { <<D("span", C, 0, 0, "multi"), n>> : C \in 1..2, n \in 1..(2 + Big) }
  \cup { <<D("span", 1, 0, 0, "multi"), 4>> }
Init == c \in { <<s[1], s[2], k>> : s \in Shapes, k \in 1..(3 + 2 * Big) }
Next == FALSE /\ UNCHANGED c

\* Small potentials with some of weight zero; table 1 has none.
E(k, h) == IF k > 1 /\ h % 7 = k THEN -100 ELSE (h * h + k * h + 3 * k) % 3
Tab(d, n, k) ==
  CASE d.fam = "chain" -> [m \in 1..(n - 1) |-> [i \in 1..d.C |-> [j \in 1..d.C |-> E(k, 5 * m + 3 * i + 2 * j)]]]
    [] d.fam = "semi" -> [m \in 1..(n - 1) |-> [x \in 1..d.K |-> [i \in 1..d.C |-> [j \in 1..d.C |-> E(k, 5 * m + 11 * x + 3 * i + 2 * j)]]]]
    [] d.fam \in {"dep", "np"} -> [h \in 1..n |-> [x \in 1..n |-> E(k, 5 * h + 3 * x)]]
    [] d.fam = "depl" -> [h \in 1..n |-> [x \in 1..n |-> [l \in 1..d.L |-> E(k, 5 * h + 3 * x + 2 * l)]]]
    [] d.fam = "span" -> [i \in 1..n |-> [j \in 1..n |-> [a \in 1..d.C |-> E(k, 5 * i + 3 * j + 2 * a)]]]
Obj(t) == [d |-> c[1], B |-> 1, lens |-> <<c[2]>>, pot |-> <<Tab(c[1], c[2], t)>>]

d0 == c[1]
n0 == c[2]
o == Obj(c[3])
u == Obj(c[3] + 1)
w == TLCEval(W(o, 1))
V == o.pot[1]
X == Structs(d0, n0)
M == EventMult(d0, n0)
Wgt(S) == Fold(SR("std"), d0, w, S)
Exps(T, S) == Score(d0, T, S)
\* Σ over structures of f, optionally restricted
Sum(f(_), Y) == M * TotalOf(f, Y)
z == Sum(Wgt, X)
idx == { p \in AllIdx(d0, V) : Inner(d0, n0, p) }

Posterior ==
  /\ Inside(SR("std"), d0, n0, w) = z
  /\ \A p \in idx : Uses(o, 1, w, z, p) = Sum(Wgt, { S \in X : p \in S })
  /\ \A p \in AllIdx(d0, V) \ idx : \A S \in X : p \notin S
\* exp(score - log partition) is a distribution: a structure's weight is 2 to the sum of its
\* parts' exponents, nothing when a part has weight zero, and the weights add up to the partition
Normal ==
  /\ \A S \in X : Wgt(S) = (IF \E p \in S : At(d0, V, p) < -50 THEN 0 ELSE Pow2(TotalOf(LAMBDA p : At(d0, V, p), S)))
  /\ Inside(SR("std"), d0, n0, w) = z
\* log p of a structure has gradient indicator minus posterior: the posteriors of any
\* family add up as the structures do
Pairs ==
  \A p, r \in idx :
    Joint(o, 1, w, z, p, r) =
      (IF Fault = "pairs" /\ p = r THEN 0 ELSE Sum(Wgt, { S \in X : p \in S /\ r \in S }))
Best ==
  LET rank == SortSeq(SetToSeq({ <<Exps(V, S), S>> : S \in { S \in X : Wgt(S) > 0 } }), LAMBDA a, b : a[1] > b[1])
      lives == SelectSeq([i \in DOMAIN rank |-> rank[i][1]], LAMBDA e : e > -50) IN
  d0.fam = "np" \/
  \A k \in 1..4 :
    LET kb == SelectSeq(KBest(o, 1, k), LAMBDA e : e > -50)
        m == Min2(k, M * Len(lives)) IN
    /\ Len(kb) = m
    /\ \A i \in 1..m : kb[i] = lives[1 + ((i - 1) \div M)]
    /\ (k = 1 /\ m > 0) => kb[1] = MaxOf(o, 1)
Expect ==      \* Σ w e, the quantity the entropy is recovered from
  LET v == TLCEval(Inside(SR("dual"), d0, n0, DualPot(d0, V)))
      e2(S) == IF Wgt(S) = 0 THEN 0 ELSE Wgt(S) * Exps(V, S) IN
  d0.fam = "np" \/
  /\ v[1] = (IF Fault = "dual" THEN v[2] ELSE z)
  /\ v[2] = Sum(e2, X)
\* Σ w e over the structures with a part, e the own score or another distribution's
Slopes ==
  LET Q == u.pot[1]
      f(e, g) == IF g < -50 THEN 0 ELSE g
      ok(T, V2) == LET all == TLCEval(Inside(SR("dual"), d0, n0, V2))
                       e2(S) == IF Wgt(S) = 0 THEN 0
                                ELSE Wgt(S) * TotalOf(LAMBDA p : IF At(d0, T, p) < -50 THEN 0 ELSE At(d0, T, p), S) IN
        \A p \in idx : LET Y == { S \in X : (p \in S) # (Fault = "slope") } IN
          ScoreUses(o, 1, V2, all, p) = <<Sum(Wgt, Y), Sum(e2, Y)>> IN
  d0.fam = "np" \/
  /\ ok(V, DualPot(d0, V))
  /\ ok(Q, TLCEval(Pair2(d0, V, Q, LAMBDA e, g : IF e < -50 THEN <<0, 0>> ELSE <<Wt(e), f(e, g) * Wt(e)>>)))
Cross ==
  LET Q == u.pot[1]
      wq == TLCEval(W(u, 1))
      g(e, f) == IF e < -50 THEN <<0, Wt(f), 0>> ELSE <<Wt(e), Wt(f), (IF f < -50 THEN 0 ELSE f) * Wt(e)>>
      v == TLCEval(Inside(SR("ce"), d0, n0, TLCEval(Pair2(d0, V, Q, g))))
      f2(S) == IF Wgt(S) = 0 THEN 0
               ELSE Wgt(S) * TotalOf(LAMBDA p : IF At(d0, Q, p) < -50 THEN 0 ELSE At(d0, Q, p), S) IN
  d0.fam = "np" \/
  /\ v[1] = z
  /\ v[2] = Sum(LAMBDA S : Fold(SR("std"), d0, wq, S), X)
  /\ v[3] = Sum(f2, X)
Count ==
  Inside(SR("std"), d0, n0, TLCEval(MapV(d0, LAMBDA e : IF e < -50 THEN 0 ELSE 1, V)))
    = M * Cardinality({ S \in X : \A p \in S : At(d0, V, p) > -50 })
\* An offset added to every part that owns a position moves every structure by the same
\* amount: each structure has exactly one part owning each position.
Owner(p, i) ==
  CASE d0.fam = "chain" -> p[1] = i
    [] d0.fam = "semi" -> p[1] <= i /\ i < p[1] + p[2] - 1
    [] d0.fam \in {"dep", "np", "depl"} -> p[2] = i
    [] d0.fam = "span" -> p[1] = i /\ p[2] = i
Places == 1..(IF d0.fam \in {"chain", "semi"} THEN n0 - 1 ELSE n0)
Offsets == \A S \in X, i \in Places :
  Cardinality({ p \in S : IF Fault = "offset" /\ d0.fam = "semi" THEN p[1] = i ELSE Owner(p, i) }) = 1
=============================================================================
