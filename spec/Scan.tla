-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* The logarithmic scan used for chains and segmentations, as a step       *)
(* machine over the free semiring.  The positions are padded to a power of *)
(* two; every position holds a matrix; each step multiplies neighbours.    *)
(*                                                                         *)
(* Chains: rows and columns are labels (new, old).  Positions beyond the   *)
(* element's length hold the identity.                                     *)
(* Segmentations: rows and columns are <<rest, label>>; rest counts the    *)
(* positions the open segment still has to cover.                          *)
(*                                                                         *)
(* Fault: "" none; "order" multiplies the halves the wrong way round;      *)
(* "mask" lets one padding position through.                               *)
(***************************************************************************)
EXTENDS Ref
CONSTANTS MaxN, MaxC, MaxK, Fault
VARIABLES d, N, len, chart, block

F == SR("free")
RECURSIVE Bin(_)
Bin(n) == IF n <= 1 THEN 1 ELSE 2 * Bin((n + 1) \div 2)
D(f, C, K) == [fam |-> f, C |-> C, K |-> K, L |-> 0, NT |-> 0, T |-> 0, root |-> "multi"]
States(x) == IF x.fam = "chain" THEN (1..x.C) ELSE (0..(x.K - 2)) \X (1..x.C)
Inside1(n, m) == IF Fault = "mask" THEN n <= m ELSE n < m
\* The matrix of position n.
Cell(x, m, n, r, s) ==
  IF x.fam = "chain" THEN
    IF Inside1(n, m) THEN <<{<<n, r, s>>}>> ELSE IF r = s THEN One(F) ELSE Zero(F)
  ELSE
    IF Inside1(n, m) THEN
      (IF s[1] = 0 THEN <<{<<n, r[1] + 2, r[2], s[2]>>}>> ELSE Zero(F))
      \o (IF r[1] = s[1] - 1 /\ r[2] = s[2] THEN One(F) ELSE Zero(F))
    ELSE IF r = s /\ r[1] = 0 THEN One(F) ELSE Zero(F)
Position(x, m, n) == TLCEval([r \in States(x) |-> TLCEval([s \in States(x) |-> Cell(x, m, n, r, s)])])

Init ==
  /\ d \in { D("chain", C, 0) : C \in 1..MaxC } \cup { D("semi", C, K) : C \in 1..2, K \in 2..MaxK }
  /\ N \in 2..(IF d.fam = "semi" /\ d.C = 2 THEN 4 ELSE MaxN) /\ len \in 1..N
  /\ chart = TLCEval([n \in 1..Bin(N - 1) |-> Position(d, len, n)])
  /\ block = 1

MatMul1(x, a, b) ==
  TLCEval([r \in States(x) |-> TLCEval([s \in States(x) |->
     LET q == SetToSeq(States(x)) IN SumR(F, [i \in 1..Len(q) |-> Times(F, a[r][q[i]], b[q[i]][s])], 1, Len(q))])])
Merge ==
  /\ Len(chart) > 1
  /\ chart' = TLCEval([i \in 1..(Len(chart) \div 2) |->
       IF Fault = "order" THEN MatMul1(d, chart[2 * i - 1], chart[2 * i]) ELSE MatMul1(d, chart[2 * i], chart[2 * i - 1])])
  /\ block' = 2 * block /\ UNCHANGED <<d, N, len>>
Next == Merge

\* What a block from position lo to hi must hold: the ways to get from s to r.
RECURSIVE Ways(_, _, _, _, _, _)
Ways(x, m, lo, hi, r, s) ==       \* as a set of part sets
  IF lo > hi \/ lo >= m THEN (IF r = s /\ (x.fam = "semi" => (s[1] = 0 \/ lo > hi)) THEN {{}} ELSE {})
  ELSE IF x.fam = "chain" THEN UNION { { {<<lo, c, s>>} \cup w : w \in Ways(x, m, lo + 1, hi, r, c) } : c \in 1..x.C }
  ELSE IF s[1] > 0 THEN Ways(x, m, lo + 1, hi, r, <<s[1] - 1, s[2]>>)
  ELSE UNION { { {<<lo, k + 1, c, s[2]>>} \cup w : w \in Ways(x, m, lo + 1, hi, r, <<k - 1, c>>) } : k \in 1..(x.K - 1), c \in 1..x.C }
Blocks ==
  \A i \in 1..Len(chart), r \in States(d), s \in States(d) :
    LET b == chart[i][r][s]  w == Ways(d, len, (i - 1) * block + 1, i * block, r, s) IN
    { b[y] : y \in DOMAIN b } = w /\ Len(b) = Cardinality(w)
Ends(x) == { r \in States(x) : x.fam = "semi" => r[1] = 0 }
Total == LET q == SetToSeq(Ends(d) \X Ends(d)) IN SumR(F, [i \in 1..Len(q) |-> chart[1][q[i][1]][q[i][2]]], 1, Len(q))
Complete ==
  Len(chart) = 1 => LET t == Total  s == Structs(d, len) IN
    { t[y] : y \in DOMAIN t } = s /\ Len(t) = Cardinality(s) * EventMult(d, len)
=============================================================================
