------------------------------- MODULE Eisner -------------------------------
(***************************************************************************)
(* The projective dependency chart as a step machine over the free         *)
(* semiring.  Word 0 is the virtual root.  Every table is kept twice: A by *)
(* left end and width, B by right end and mirrored width, so that one step *)
(* (one width for all spans) is made of dot products of slices.            *)
(*                                                                         *)
(* Fault: "" none; "mirror" stores the B copy one column off;              *)
(* "root" forgets that single-root trees give the root one child.          *)
(***************************************************************************)
EXTENDS Ref
CONSTANTS MaxW, Fault
VARIABLES W, root, k, AC, BC, AI, BI, done
vars == <<W, root, k, AC, BC, AI, BI, done>>
\* AC.L, AC.R, ...: functions on (0..W) \X (0..W)

F == SR("free")
N == W + 1
First == IF root = "multi" \/ Fault = "root" THEN 0 ELSE 1
Arc1(h, c) == IF c = 0 THEN Zero(F) ELSE IF h = 0 THEN <<{<<c, c>>}>> ELSE <<{<<h, c>>}>>
Grid(w) == (0..w) \X (0..w)
Full(w, col) == [p \in Grid(w) |-> IF p[2] = col THEN One(F) ELSE Zero(F)]
None(w) == [p \in Grid(w) |-> Zero(F)]
Both(x) == [L |-> x, R |-> x]

Init ==
  /\ W \in 1..MaxW /\ root \in {"multi", "single"} /\ k = 1 /\ done = FALSE
  /\ AC = Both(Full(W, 0)) /\ BC = Both(Full(W, W))
  /\ AI = Both(None(W)) /\ BI = Both(None(W))

\* sum over t of a[i][a0 + t] * b[j][b0 + t], t in 0..n-1
Dot1(a, i, a0, b, j, b0, n) == SumR(F, [t \in 0..(n - 1) |-> Times(F, a[<<i, a0 + t>>], b[<<j, b0 + t>>])], 0, n - 1)
PutA(a, kk, new) == TLCEval([p \in DOMAIN a |-> IF p[2] = kk /\ p[1] \in DOMAIN new THEN new[p[1]] ELSE a[p]])
PutB(b, kk, new) ==
  LET col == IF Fault = "mirror" THEN N - kk ELSE N - kk - 1 IN
  TLCEval([p \in DOMAIN b |-> IF p[2] = col /\ p[1] - kk \in DOMAIN new THEN new[p[1] - kk] ELSE b[p]])

Width ==
  /\ ~done /\ k < N - First
  /\ LET I == First..(N - k - 1)
         x == TLCEval([i \in I |-> Dot1(AC.R, i, 0, BC.L, i + k, N - k, k)])
         l == TLCEval([i \in I |-> Times(F, x[i], Arc1(i + k, i))])
         r == TLCEval([i \in I |-> Times(F, x[i], Arc1(i, i + k))])
         AI2 == [L |-> PutA(AI.L, k, l), R |-> PutA(AI.R, k, r)]
         BI2 == [L |-> PutB(BI.L, k, l), R |-> PutB(BI.R, k, r)]
         cl == TLCEval([i \in I |-> Dot1(AC.L, i, 0, BI2.L, i + k, N - k - 1, k)])
         cr == TLCEval([i \in I |-> Dot1(AI2.R, i, 1, BC.R, i + k, N - k, k)])
     IN /\ AI' = AI2 /\ BI' = BI2
        /\ AC' = [L |-> PutA(AC.L, k, cl), R |-> PutA(AC.R, k, cr)]
        /\ BC' = [L |-> PutB(BC.L, k, cl), R |-> PutB(BC.R, k, cr)]
  /\ k' = k + 1 /\ UNCHANGED <<W, root, done>>

\* Single-root mode attaches the one child of the root at the end.
Finish ==
  /\ ~done /\ k >= N - First
  /\ done' = TRUE
  /\ IF First = 0 THEN UNCHANGED AC ELSE
     LET ri == TLCEval([t \in 0..(N - 2) |-> Times(F, AC.L[<<1, t>>], Arc1(0, t + 1))])
         row == TLCEval([m \in 1..W |-> SumR(F, [t \in 0..(m - 1) |-> Times(F, ri[t], BC.R[<<m, N - m + t>>])], 0, m - 1)])
     IN AC' = [AC EXCEPT !.R = [p \in DOMAIN AC.R |-> IF p[1] = 0 /\ p[2] > 0 THEN row[p[2]] ELSE AC.R[p]]]
  /\ UNCHANGED <<W, root, k, BC, AI, BI>>
Next == Width \/ Finish

\* Meaning of a span i..j: trees over it headed by its left or right end.
RECURSIVE Up(_, _, _, _)
Up(h, c, top, fuel) == c = top \/ (fuel > 0 /\ Up(h, h[c], top, fuel - 1))
Crossing(h) == \E a, b \in DOMAIN h :
   LET l1 == Min2(a, h[a])  r1 == Max2(a, h[a])  l2 == Min2(b, h[b])  r2 == Max2(b, h[b]) IN l1 < l2 /\ l2 < r1 /\ r1 < r2
Trees(i, j, top) ==
  LET ws == (i..j) \ {top} IN
  { h \in [ws -> i..j] : (\A c \in ws : h[c] # c /\ Up(h, c, top, j - i + 1)) /\ ~Crossing(h) }
ArcSet(h) == { <<IF h[c] = 0 THEN c ELSE h[c], c>> : c \in DOMAIN h }
Holds(bag, S) == { bag[y] : y \in DOMAIN bag } = S /\ Len(bag) = Cardinality(S)
Spans ==
  ~done => \A w \in 0..(k - 1), i \in First..(N - 1) : i + w <= N - 1 =>
    LET j == i + w  R == Trees(i, j, i)  L == Trees(i, j, j) IN
    /\ Holds(AC.R[<<i, w>>], { ArcSet(h) : h \in R })
    /\ i > 0 => Holds(AC.L[<<i, w>>], { ArcSet(h) : h \in L })
    /\ w > 0 => Holds(AI.R[<<i, w>>], { ArcSet(h) : h \in { g \in R : g[j] = i } })
    /\ (w > 0 /\ i > 0) => Holds(AI.L[<<i, w>>], { ArcSet(h) : h \in { g \in L : g[i] = j } })
Mirror ==
  ~done => \A w \in 0..(k - 1), i \in First..(N - 1) : i + w <= N - 1 =>
    /\ AC.R[<<i, w>>] = BC.R[<<i + w, N - w - 1>>] /\ AC.L[<<i, w>>] = BC.L[<<i + w, N - w - 1>>]
    /\ AI.R[<<i, w>>] = BI.R[<<i + w, N - w - 1>>] /\ AI.L[<<i, w>>] = BI.L[<<i + w, N - w - 1>>]
\* The answer for every length is the set of trees of that length.
Answer ==
  done => \A m \in 1..W :
    LET dd == [fam |-> "dep", C |-> 0, K |-> 0, L |-> 0, NT |-> 0, T |-> 0, root |-> root] IN
    Holds(AC.R[<<0, m>>], Structs(dd, m))
=============================================================================
