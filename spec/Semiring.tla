------------------------------ MODULE Semiring ------------------------------
(***************************************************************************)
(* Exact semirings over integers, in which every dynamic program of the    *)
(* library is specified.  A semiring is a record [n |-> name, k |-> int].  *)
(*                                                                         *)
(*   std    plus-times on integers          counts and total weights       *)
(*   mod    plus-times modulo prime P       fingerprints of polynomials    *)
(*   max    (max, +)                        best score                     *)
(*   min    (min, +)      bool (or, and)    btl (max, min)                 *)
(*   kmax   k best scores, sorted           k-best lists                   *)
(*   dual   <<Z, A>> first-order pairs      expectations, entropy          *)
(*   ce     <<Zp, Zq, A>>                   cross-entropy, KL              *)
(*   free   bags of part sets               the generating polynomial      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

P == 46337                        \* prime, P*P < 2^31
NEG == -100000000                 \* minus infinity of the score semirings
POS == 100000000

SR(name) == [n |-> name, k |-> 0]
KMax(k)  == [n |-> "kmax", k |-> k]

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Desc(a, b) == a > b
Take(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)

\* Bags of part sets, as sequences (order irrelevant, repetitions count).
BagTimes(a, b) ==
  LET m == Len(b) IN
  [i \in 1..(Len(a) * m) |-> a[((i - 1) \div m) + 1] \cup b[((i - 1) % m) + 1]]

Zero(sr) ==
  CASE sr.n = "max"  -> NEG
    [] sr.n = "min"  -> POS
    [] sr.n = "btl"  -> NEG
    [] sr.n = "bool" -> 0
    [] sr.n = "kmax" -> << >>
    [] sr.n = "dual" -> <<0, 0>>
    [] sr.n = "ce"   -> <<0, 0, 0>>
    [] sr.n = "free" -> << >>
    [] OTHER -> 0

One(sr) ==
  CASE sr.n = "max"  -> 0
    [] sr.n = "min"  -> 0
    [] sr.n = "btl"  -> POS
    [] sr.n = "bool" -> 1
    [] sr.n = "kmax" -> <<0>>
    [] sr.n = "dual" -> <<1, 0>>
    [] sr.n = "ce"   -> <<1, 1, 0>>
    [] sr.n = "free" -> <<{}>>
    [] OTHER -> 1

Plus(sr, a, b) ==
  CASE sr.n = "std"  -> a + b
    [] sr.n = "mod"  -> (a + b) % P
    [] sr.n = "max"  -> Max2(a, b)
    [] sr.n = "min"  -> Min2(a, b)
    [] sr.n = "btl"  -> Max2(a, b)
    [] sr.n = "bool" -> Max2(a, b)
    [] sr.n = "kmax" -> Take(SortSeq(a \o b, Desc), sr.k)
    [] sr.n = "dual" -> LET x == TLCEval(a)  y == TLCEval(b) IN <<x[1] + y[1], x[2] + y[2]>>
    [] sr.n = "ce"   -> LET x == TLCEval(a)  y == TLCEval(b) IN <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
    [] sr.n = "free" -> a \o b

Times(sr, a, b) ==
  CASE sr.n = "std"  -> a * b
    [] sr.n = "mod"  -> (a * b) % P
    [] sr.n = "max"  -> IF a <= NEG \/ b <= NEG THEN NEG ELSE a + b
    [] sr.n = "min"  -> IF a >= POS \/ b >= POS THEN POS ELSE a + b
    [] sr.n = "btl"  -> Min2(a, b)
    [] sr.n = "bool" -> Min2(a, b)
    [] sr.n = "kmax" ->
         LET m == Len(b) IN
         IF Len(a) = 0 \/ m = 0 THEN << >>
         ELSE Take(SortSeq([i \in 1..(Len(a) * m) |->
                      a[((i - 1) \div m) + 1] + b[((i - 1) % m) + 1]], Desc), sr.k)
    [] sr.n = "dual" -> LET x == TLCEval(a)  y == TLCEval(b) IN
                        <<x[1] * y[1], x[1] * y[2] + x[2] * y[1]>>
    [] sr.n = "ce"   -> LET x == TLCEval(a)  y == TLCEval(b) IN
                        <<x[1] * y[1], x[2] * y[2], x[1] * y[3] + x[3] * y[1]>>
    [] sr.n = "free" -> TLCEval(BagTimes(a, b))

\* Semiring sum of f[lo], ..., f[hi].
RECURSIVE SumR(_, _, _, _)
SumR(sr, f, lo, hi) ==
  IF lo > hi THEN Zero(sr) ELSE
  IF lo = hi THEN f[lo] ELSE
  LET m == (lo + hi) \div 2 IN Plus(sr, SumR(sr, f, lo, m), SumR(sr, f, m + 1, hi))

SumS(sr, s) == SumR(sr, s, 1, Len(s))

RECURSIVE ProdR(_, _, _, _)
ProdR(sr, f, lo, hi) ==
  IF lo > hi THEN One(sr) ELSE
  IF lo = hi THEN f[lo] ELSE
  LET m == (lo + hi) \div 2 IN Times(sr, ProdR(sr, f, lo, m), ProdR(sr, f, m + 1, hi))

\* Integer helpers -----------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)

Abs(x) == IF x < 0 THEN -x ELSE x

\* floor(a/b * 10^d) for 0 <= a, 0 < b < 2*10^8, without leaving 32 bits.
RECURSIVE FixDivR(_, _, _, _)
FixDivR(r, b, d, acc) ==
  IF d = 0 THEN acc
  ELSE FixDivR((r * 10) % b, b, d - 1, acc * 10 + (r * 10) \div b)
FixDiv(a, b, d) == FixDivR(a % b, b, d, a \div b)

RECURSIVE SumIntR(_, _)
SumIntR(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumIntR(s, n - 1)
SumInt(s) == SumIntR(s, Len(s))

TotalOf(f(_), S) == LET s == SetToSeq(S) IN SumInt([i \in 1..Len(s) |-> f(s[i])])
=============================================================================
