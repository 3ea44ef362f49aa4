----------------------------- MODULE SpanChart -----------------------------
(***************************************************************************)
(* The charts of span trees and grammars as a step machine, one width per  *)
(* step.  Both keep each table twice: A by left end and width, B by right  *)
(* end and mirrored width (positions and widths from 0).                   *)
(*                                                                         *)
(* Span trees run in the free semiring, labels already summed.  Grammars   *)
(* run modulo a prime with pairwise different weights; a width is built    *)
(* from four products: both children nonterminals, left, right or both     *)
(* children terminals.                                                     *)
(*                                                                         *)
(* Fault: "" none; "slice" pairs the widths of the children wrongly;       *)
(* "twice" adds the two-terminal product at every width.                   *)
(***************************************************************************)
EXTENDS Ref
CONSTANTS MaxN, MaxG, Fault
VARIABLES kind, n, w, A, B
vars == <<kind, n, w, A, B>>
\* kind: <<"span", C>> or <<"cfg", NT, T>>

SRk == IF kind[1] = "span" THEN SR("free") ELSE SR("mod")
NT == IF kind[1] = "cfg" THEN kind[2] ELSE 1
T1 == kind[3]
S == NT + T1
Wrule(a, b, c) == (7919 * a + 523 * b * b + 97 * c * c * c + a * b * c) % P
Wterm(i, t) == (1009 * (i + 1) + 37 * t * t + 11) % P
Label(i, j) == [a \in 1..kind[2] |-> {<<i + 1, j + 1, a>>}]       \* bag of the labels of a span

Init ==
  /\ kind \in { <<"span", C>> : C \in 1..2 } \cup { <<"cfg", nt, t>> : nt \in 1..2, t \in 1..2 }
  /\ n \in (IF kind[1] = "span" THEN 1..(IF kind[2] = 1 THEN MaxN ELSE MaxN - 2) ELSE 2..MaxG)
  /\ w = 1
  /\ IF kind[1] = "span"
     THEN /\ A = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> IF v = 0 THEN Label(i, i) ELSE << >>]]
          /\ B = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> IF v = n - 1 THEN Label(i, i) ELSE << >>]]
     ELSE /\ A = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> [a \in 1..kind[2] |-> 0]]]
          /\ B = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> [a \in 1..kind[2] |-> 0]]]

Off == IF Fault = "slice" THEN 1 ELSE 0
Split(i, t) == B[i + w][n - w + ((t + Off) % w)]        \* right child paired with the left child of width t
SpanNew(i) ==
  Times(SRk, SumR(SRk, [t \in 0..(w - 1) |-> Times(SRk, A[i][t], Split(i, t))], 0, w - 1), Label(i, i + w))
M(x, y) == (x * y) % P
SumM(f, lo, hi) == SumR(SR("mod"), f, lo, hi)
GramNew(i, a) ==
  LET j == i + w
      x1 == SumM([t \in 0..(w - 1) |-> SumM([b \in 1..NT |-> SumM([c \in 1..NT |->
              M(M(A[i][t][b], Split(i, t)[c]), Wrule(a, b, c))], 1, NT)], 1, NT)], 0, w - 1)
      x2 == SumM([b \in 1..NT |-> SumM([t \in 1..T1 |-> M(M(A[i][w - 1][b], Wterm(j, t)), Wrule(a, b, NT + t))], 1, T1)], 1, NT)
      x3 == SumM([t \in 1..T1 |-> SumM([c \in 1..NT |-> M(M(Wterm(i, t), B[j][n - w][c]), Wrule(a, NT + t, c))], 1, NT)], 1, T1)
      x4 == SumM([t \in 1..T1 |-> SumM([u \in 1..T1 |-> M(M(Wterm(i, t), Wterm(j, u)), Wrule(a, NT + t, NT + u))], 1, T1)], 1, T1)
  IN (x1 + x2 + x3 + (IF w = 1 \/ Fault = "twice" THEN x4 ELSE 0)) % P
New(i) == IF kind[1] = "span" THEN SpanNew(i) ELSE TLCEval([a \in 1..NT |-> GramNew(i, a)])

Width ==
  /\ w < n
  /\ LET new == TLCEval([i \in 0..(n - w - 1) |-> New(i)]) IN
     /\ A' = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> IF v = w /\ i <= n - w - 1 THEN new[i] ELSE A[i][v]]]
     /\ B' = [i \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> IF v = n - w - 1 /\ i >= w THEN new[i - w] ELSE B[i][v]]]
  /\ w' = w + 1 /\ UNCHANGED <<kind, n>>
Next == Width

Holds(bag, X) == { bag[y] : y \in DOMAIN bag } = X /\ Len(bag) = Cardinality(X)
SpanSets(i, j) == { { <<b[1], b[2], s[b]>> : b \in DOMAIN s } : s \in UNION { [b -> 1..kind[2]] : b \in Brackets(i + 1, j + 1) } }
NodeW(nd) == IF Len(nd) = 3 THEN Wterm(nd[1] - 1, nd[3] - NT) ELSE Wrule(nd[3], nd[4], nd[5])
RECURSIVE DerW(_)
DerW(X) == IF X = {} THEN 1 ELSE LET x == CHOOSE x \in X : TRUE IN M(NodeW(x), DerW(X \ {x}))
RECURSIVE DerSum(_)
DerSum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN (DerW(x) + DerSum(X \ {x})) % P
DD == [fam |-> "cfg", C |-> 0, K |-> 0, L |-> 0, NT |-> NT, T |-> T1, root |-> "multi"]
\* Every finished span, so every length, holds exactly its trees.
Spans ==
  \A v \in 0..(w - 1), i \in 0..(n - 1) : i + v <= n - 1 =>
    IF kind[1] = "span" THEN Holds(A[i][v], SpanSets(i, i + v))
    ELSE v > 0 => \A a \in 1..NT : A[i][v][a] = DerSum(Derivs(DD, a, i + 1, i + v + 1))
Mirror == \A v \in 0..(w - 1), i \in 0..(n - 1) : i + v <= n - 1 => A[i][v] = B[i + v][n - v - 1]
=============================================================================
