------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Semiring operations on whole tensors.  A tensor is [s |-> shape, v |->  *)
(* flat row-major sequence of semiring elements]; shapes broadcast from    *)
(* the right, a dimension of 1 stretching to any size.                     *)
(***************************************************************************)
EXTENDS Struct

RECURSIVE SizeOf(_)
SizeOf(s) == IF s = << >> THEN 1 ELSE Head(s) * SizeOf(Tail(s))
RECURSIVE IdxR(_, _)
IdxR(s, i) == IF s = << >> THEN << >>
              ELSE LET m == SizeOf(Tail(s)) IN <<i \div m>> \o IdxR(Tail(s), i % m)
Idx(s, i) == TLCEval(IdxR(s, i - 1))              \* 1-based position to 0-based index
RECURSIVE OffR(_, _)
OffR(s, ix) == IF s = << >> THEN 0 ELSE Head(ix) * SizeOf(Tail(s)) + OffR(Tail(s), Tail(ix))
Off(s, ix) == OffR(s, ix) + 1
\* Element of t seen at index ix of a broadcast shape of at least its rank.
Bc(s, ix) == LET k == Len(ix) - Len(s) IN [i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE ix[i + k]]
Get(t, ix) == t.v[Off(t.s, Bc(t.s, ix))]
BcShape(s, t) ==
  LET n == Max2(Len(s), Len(t))
      at(u, i) == IF i <= n - Len(u) THEN 1 ELSE u[i - (n - Len(u))]
  IN [i \in 1..n |-> Max2(at(s, i), at(t, i))]
Front2(s) == SubSeq(s, 1, Len(s) - 2)
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Build(s, f(_)) == [s |-> s, v |-> TLCEval([i \in 1..SizeOf(s) |-> f(Idx(s, i))])]

Elementwise(op(_, _), a, b) == Build(BcShape(a.s, b.s), LAMBDA ix : op(Get(a, ix), Get(b, ix)))
Insert(ix, ax, j) == SubSeq(ix, 1, ax - 1) \o <<j>> \o SubSeq(ix, ax, Len(ix))
Drop(s, ax) == SubSeq(s, 1, ax - 1) \o SubSeq(s, ax + 1, Len(s))
SumAxis(sr, a, ax) ==
  Build(Drop(a.s, ax), LAMBDA ix : SumR(sr, [j \in 1..a.s[ax] |-> Get(a, Insert(ix, ax, j - 1))], 1, a.s[ax]))
ProdAxis(sr, a, ax) ==
  Build(Drop(a.s, ax), LAMBDA ix : ProdR(sr, [j \in 1..a.s[ax] |-> Get(a, Insert(ix, ax, j - 1))], 1, a.s[ax]))
MatMul(sr, a, b) ==
  LET ra == Len(a.s)  rb == Len(b.s)  K == a.s[ra] IN
  Build(BcShape(Front2(a.s), Front2(b.s)) \o <<a.s[ra - 1], b.s[rb]>>, LAMBDA ix :
    LET n == Len(ix)  h == SubSeq(ix, 1, n - 2) IN
    SumR(sr, [k \in 1..K |-> Times(sr, Get(a, h \o <<ix[n - 1], k - 1>>), Get(b, h \o <<k - 1, ix[n]>>))], 1, K))
Dot(sr, a, b) ==
  LET K == a.s[Len(a.s)] IN
  Build(BcShape(Front1(a.s), Front1(b.s)), LAMBDA ix :
    SumR(sr, [k \in 1..K |-> Times(sr, Get(a, ix \o <<k - 1>>), Get(b, ix \o <<k - 1>>))], 1, K))

\* Library semirings and the exact semiring each must agree with.
Exact(q) == CASE q.sr \in {"std", "log"} -> SR("std")
              [] q.sr = "max" -> SR("max")
              [] q.sr = "kmax" -> KMax(q.k)
              [] q.sr = "ent" -> SR("dual")
              [] q.sr \in {"ce", "kl"} -> SR("ce")
\* A reported element r against the exact element v.
Agrees(q, v, r) ==
  CASE q.sr \in {"std", "log"} -> In(v, r[1], r[2])
    [] q.sr = "max" -> v = r[1]
    [] q.sr = "kmax" -> v = r
    [] q.sr = "ent" -> In(v[1], r[1], r[2]) /\ (v[1] = 0 \/ In(v[2], r[3], r[4]))
    [] q.sr \in {"ce", "kl"} -> In(v[1], r[1], r[2]) /\ In(v[2], r[3], r[4]) /\ (v[1] = 0 \/ In(v[3], r[5], r[6]))

Expected(q) ==
  LET sr == Exact(q) IN
  CASE q.fn = "sum"  -> SumAxis(sr, q.a, q.ax)
    [] q.fn = "prod" -> ProdAxis(sr, q.a, q.ax)
    [] q.fn = "mul"  -> Elementwise(LAMBDA x, y : Times(sr, x, y), q.a, q.b)
    [] q.fn = "plus" -> Elementwise(LAMBDA x, y : Plus(sr, x, y), q.a, q.b)
    [] q.fn = "times" -> Elementwise(LAMBDA x, y : Times(sr, x, y), Elementwise(LAMBDA x, y : Times(sr, x, y), q.a, q.b), q.c)
    [] q.fn = "dot"  -> Dot(sr, q.a, q.b)
    [] q.fn = "matmul" -> MatMul(sr, q.a, q.b)

BadTensor(q) ==
  LET e == Expected(q) IN
  IF e.s # q.r.s THEN {"shape"}
  ELSE Chk(\A i \in 1..SizeOf(e.s) : Agrees(q, e.v[i], q.r.v[i]), q.fn)

(***************************************************************************)
(* Gradients of sum(g * matmul(a, b)) with integer output weights g.       *)
(* std: exact integers.  log: each output spreads its g over the k's in    *)
(* proportion to the products.  max: all of g to the best k (only judged   *)
(* where it is unique).  Fixed point with 6 digits.                        *)
(***************************************************************************)
Contribution(q, sr, K, pair, k) ==      \* gradient of one output with respect to log of term k
  LET t == [j \in 1..K |-> Times(sr, pair[j][1], pair[j][2])] IN
  CASE q.sr = "log" -> LET z == SumR(sr, t, 1, K) IN IF z = 0 THEN 0 ELSE FixDiv(t[k], z, 6)
    [] q.sr = "max" -> IF \A j \in 1..K : j = k \/ t[k] > t[j] THEN 1000000
                       ELSE IF \E j \in 1..K : t[j] > t[k] THEN 0 ELSE -1
Tied(q, sr, K, pair) ==
  q.sr = "max" /\ LET t == [j \in 1..K |-> Times(sr, pair[j][1], pair[j][2])] IN
     \E i, j \in 1..K : i # j /\ t[i] = t[j] /\ \A m \in 1..K : t[m] <= t[i]

\* Gradient at index x of operand a ("left") or b.
GradAt(q, left, x) ==
  LET sr == Exact(q)
      a == q.a  b == q.b  K == a.s[Len(a.s)]
      os == BcShape(Front2(a.s), Front2(b.s)) \o <<a.s[Len(a.s) - 1], b.s[Len(b.s)]>>
      me == IF left THEN a ELSE b
      hits(o) == \* the k through which output index o sees element x, or 0
        LET n == Len(o)  h == SubSeq(o, 1, n - 2)
            kk == (IF left THEN x[Len(x)] ELSE x[Len(x) - 1]) + 1
            ix == IF left THEN h \o <<o[n - 1], kk - 1>> ELSE h \o <<kk - 1, o[n]>>
        IN IF Bc(me.s, ix) = x THEN kk ELSE 0
      term(i) ==
        LET o == Idx(os, i)  k == hits(o)  n == Len(o)  h == SubSeq(o, 1, n - 2) IN
        IF k = 0 THEN 0
        ELSE LET pair == TLCEval([j \in 1..K |-> <<Get(a, h \o <<o[n - 1], j - 1>>), Get(b, h \o <<j - 1, o[n]>>)>>]) IN
             IF q.sr = "std" THEN q.g[i] * (IF left THEN pair[k][2] ELSE pair[k][1]) * 1000
             ELSE q.g[i] * Contribution(q, sr, K, pair, k)
  IN SumInt([i \in 1..SizeOf(os) |-> term(i)])
NoTies(q) ==
  LET sr == Exact(q)  a == q.a  b == q.b  K == a.s[Len(a.s)]
      os == BcShape(Front2(a.s), Front2(b.s)) \o <<a.s[Len(a.s) - 1], b.s[Len(b.s)]>>
  IN \A i \in 1..SizeOf(os) :
       LET o == Idx(os, i)  n == Len(o)  h == SubSeq(o, 1, n - 2) IN
       ~Tied(q, sr, K, [j \in 1..K |-> <<Get(a, h \o <<o[n - 1], j - 1>>), Get(b, h \o <<j - 1, o[n]>>)>>])
BadMatGrad(q) ==
  IF q.ga.s # q.a.s \/ q.gb.s # q.b.s THEN {"shape"}
  ELSE IF ~NoTies(q) THEN {}
  ELSE Chk(\A i \in 1..SizeOf(q.a.s) : Near(q.ga.v[i], GradAt(q, TRUE, Idx(q.a.s, i)), q.tol), "left gradient")
       \cup Chk(\A i \in 1..SizeOf(q.b.s) : Near(q.gb.v[i], GradAt(q, FALSE, Idx(q.b.s, i)), q.tol), "right gradient")

(***************************************************************************)
(* A structure algorithm run with a semiring of the user's own.            *)
(***************************************************************************)
BadUserSum(o, q) ==
  LET sr == SR(q.sr) IN
  ForB(o, LAMBDA b :
    LET v == IF q.sr = "dual"
             THEN Inside(sr, o.d, o.lens[b], TLCEval(MapV(o.d, LAMBDA e : <<e, e>>, o.pot[b])))
             ELSE Inside(sr, o.d, o.lens[b], o.pot[b])
    IN Chk(q.x[b] = (IF q.sr = "dual" THEN TLCEval(v)[2] ELSE v), "user semiring"))

(***************************************************************************)
(* Euclidean projection onto the simplex (sparsemax).  Scores are v/q.den, *)
(* weights and thresholds 6-digit.  w is the projection iff w >= 0, sum    *)
(* w = 1 and for some t: w = v - t where w > 0 and v <= t where w = 0.     *)
(***************************************************************************)
BadSimplexRow(v, w, den, tol) ==
  LET n == Len(v)
      x == [i \in 1..n |-> v[i] * (1000000 \div den)]
      top == CHOOSE i \in 1..n : \A j \in 1..n : w[i] >= w[j]
      t == x[top] - w[top]
  IN Chk(\A i \in 1..n : w[i] >= 0, "non-negative")
     \cup Chk(Near(SumInt(w), 1000000, tol * (n + 1)), "sums to one")
     \cup Chk(\A i \in 1..n : IF w[i] > tol THEN Near(w[i], x[i] - t, 3 * tol) ELSE x[i] <= t + 3 * tol, "threshold")
\* Score i is in the support iff those above it exceed it by less than 1 in all;
\* where they exceed it by exactly 1 the projection has no derivative.
Above(v, i) == SumInt([j \in DOMAIN v |-> IF v[j] > v[i] THEN v[j] - v[i] ELSE 0])
InSupport(v, den) == { i \in DOMAIN v : Above(v, i) < den }
Smooth(v, den) == \A i \in DOMAIN v : Above(v, i) # den
\* Derivative along u, times the size of the support.
Slope(v, den, u) ==
  LET S == InSupport(v, den)
      su == SumInt([i \in DOMAIN v |-> IF i \in S THEN u[i] ELSE 0])
  IN [i \in DOMAIN v |-> IF i \in S THEN Cardinality(S) * u[i] - su ELSE 0]
BadSlope(q) ==
  UNION { LET k == Cardinality(InSupport(q.v[i], q.den))
              s == Slope(q.v[i], q.den, q.u[i]) IN
          IF ~Smooth(q.v[i], q.den) THEN {}
          ELSE Chk(\A j \in DOMAIN s : Near(k * q.s[i][j], 1000000 * s[j], k * q.tol), "slope of the projection")
          : i \in DOMAIN q.v }
BadSimplex(q) == UNION { BadSimplexRow(q.v[i], q.w[i], q.den, q.tol) : i \in DOMAIN q.v }

(***************************************************************************)
(* Sparse marginals: a point of the convex hull of the valid structures.   *)
(* Necessary conditions, exact for chains and segmentations (flow), plus   *)
(* support: every used part lies in a structure made of used parts only.   *)
(***************************************************************************)
SumOver(S, f(_)) == TotalOf(f, S)
BadSparse(o, q) ==
  ForB(o, LAMBDA b :
    LET d == o.d  len == o.lens[b]  m == q.m[b]  tol == q.tol
        all == AllIdx(d, o.pot[b])
        in == { p \in all : Inner(d, len, p) }
        x(p) == At(d, m, p)
        one == 1000000
        flow(n, a) == \* into label a at n = out of it
          IF d.fam = "chain"
          THEN Near(SumInt([j \in 1..d.C |-> m[n - 1][a][j]]), SumInt([i \in 1..d.C |-> m[n][i][a]]), tol)
          ELSE Near(SumOver({ s \in 1..(n - 1) : n - s < d.K }, LAMBDA s : SumInt([j \in 1..d.C |-> m[s][n - s + 1][a][j]])),
                    SumOver({ t \in (n + 1)..len : t - n < d.K }, LAMBDA t : SumInt([i \in 1..d.C |-> m[n][t - n + 1][i][a]])), tol)
        supp == { p \in in : x(p) > tol }
        \* p lies in a structure all of whose parts have positive mass (trees of equal size: -1 each, 0 for p)
        V == TLCEval(MapV(d, LAMBDA y : IF y > tol THEN -1 ELSE -1000, m))
        parts == IF d.fam = "span" THEN 2 * len - 1 ELSE len
        supported(p) == Inside(SR("max"), d, len, Without(d, V, p)) = 1 - parts
    IN Chk(\A p \in all \ in : x(p) = 0, "outside")
       \cup Chk(\A p \in in : x(p) >= -tol /\ x(p) <= one + tol, "range")
       \cup (CASE d.fam \in {"chain", "semi"} ->
                  Chk(len = 1 \/ Near(SumOver({ p \in in : p[1] = 1 }, x), one, tol), "flow")
                  \cup Chk(\A n \in 2..(len - 1), a \in 1..d.C : flow(n, a), "flow")
               [] d.fam \in {"dep", "depl"} ->
                  Chk(\A c \in 1..len : Near(SumOver({ p \in in : p[2] = c }, x), one, tol), "heads")
                  \cup LET r == SumOver({ p \in in : p[1] = p[2] }, x) IN
                       Chk(IF Multi(d) THEN r >= one - tol ELSE Near(r, one, tol), "root")
                  \cup Chk(\A p \in supp : supported(p), "support")
               [] d.fam = "span" ->
                  Chk(Near(SumOver({ p \in in : p[1] = 1 /\ p[2] = len }, x), one, tol), "root")
                  \cup Chk(\A i \in 1..len : Near(SumOver({ p \in in : p[1] = i /\ p[2] = i }, x), one, tol), "words")
                  \cup Chk(Near(SumOver(in, x), (2 * len - 1) * one, tol * len), "size")
                  \cup Chk(\A p \in supp : supported(p), "support"))
       \cup (IF "star" \notin DOMAIN q THEN {} ELSE
             LET S == AsSet(q.star[b]) IN
             Chk(\A p \in in : Near(x(p), IF p \in S THEN one ELSE 0, tol), "dominating")))
=============================================================================
