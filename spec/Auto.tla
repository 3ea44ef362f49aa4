-------------------------------- MODULE Auto --------------------------------
(***************************************************************************)
(* Autoregressive models.  The recorded model is a table: for element b    *)
(* and prefix p (a sequence of classes 0..C-1) it scores the next class    *)
(* with integers, o.tab[b][Len(p)+1][Num(p)+1][c+1], in units of ln 2.     *)
(* With o.norm the score of a class is its log-softmax, so a path has the  *)
(* exact probability 2^(sum of e) / product of the Z's; otherwise its      *)
(* score is the integer sum of e.                                          *)
(*                                                                         *)
(* Models too large for a table of prefixes are recorded with o.H: the     *)
(* scores of a step depend on the prefix through Mix(p), a number below    *)
(* o.H.  Their rows at one step are permutations of each other, so that    *)
(* normalising subtracts the same number from every path; the recorder     *)
(* adds it back and the scores of these models are integers too.           *)
(***************************************************************************)
EXTENDS Struct

RECURSIVE NumR(_, _, _)
NumR(C, p, acc) == IF p = << >> THEN acc ELSE NumR(C, Tail(p), acc * C + Head(p))
Num(C, p) == NumR(C, p, 0)
RECURSIVE MixR(_, _, _)
MixR(H, p, acc) == IF p = << >> THEN acc ELSE MixR(H, Tail(p), (acc * 3 + Head(p) + 1) % H)
Wide(o) == "H" \in DOMAIN o
Exactly(o) == Wide(o) \/ ~o.norm
Row(o, b, p) == IF Wide(o) THEN o.tab[b][Len(p) + 1][MixR(o.H, p, 0) + 1] ELSE o.tab[b][Len(p) + 1][Num(o.C, p) + 1]
RowZ(o, b, p) == SumInt([c \in 1..o.C |-> Pow2(Row(o, b, p)[c])])

\* <<numerator, denominator>>, or <<score, 1>> without normalisation.
RECURSIVE ValR(_, _, _, _, _)
ValR(o, b, p, n, v) ==
  IF n > Len(p) THEN v
  ELSE LET q == SubSeq(p, 1, n - 1)  e == Row(o, b, q)[p[n] + 1] IN
       ValR(o, b, p, n + 1, IF Exactly(o) THEN <<v[1] + e, 1>> ELSE <<v[1] * Pow2(e), v[2] * RowZ(o, b, q)>>)
Val(o, b, p) == TLCEval(ValR(o, b, p, 1, IF Exactly(o) THEN <<0, 1>> ELSE <<1, 1>>))
Gt(x, y) == x[1] * y[2] > y[1] * x[2]
Ge(x, y) == x[1] * y[2] >= y[1] * x[2]

Classes(o) == 0..(o.C - 1)
AllSeqs(o) == [1..o.N -> Classes(o)]
Extend(o, X) == { p \o <<c>> : p \in X, c \in Classes(o) }

\* The sets of K best of X (several when scores tie at the cut).
Cuts(o, b, X, K) ==
  IF Cardinality(X) <= K THEN {X} ELSE
  LET v == TLCEval([p \in X |-> Val(o, b, p)])
      sure == { p \in X : Cardinality({ q \in X : Ge(v[q], v[p]) }) <= K }
      tied == { p \in X \ sure : Cardinality({ q \in X : Gt(v[q], v[p]) }) < K }
  IN { sure \cup T : T \in kSubset(K - Cardinality(sure), tied) }
RECURSIVE Beams(_, _, _, _)
Beams(o, b, K, t) ==
  IF t = 0 THEN {{<< >>}}
  ELSE UNION { Cuts(o, b, Extend(o, X), K) : X \in Beams(o, b, K, t - 1) }

Ordered(o, b, ps) == \A i \in 1..(Len(ps) - 1) : Ge(Val(o, b, ps[i]), Val(o, b, ps[i + 1]))

Prob6(v) == FixDiv(v[1], v[2], 6)

\* Reported score of a path: 6-digit probability, or the integer.
ScoreOK(o, b, p, s, tol) == IF Exactly(o) THEN s = Val(o, b, p)[1] ELSE Near(s, Prob6(Val(o, b, p)), tol)
RowOK(o, b, p, r, tol) ==
  \A c \in 1..o.C : IF Exactly(o) THEN r[c] = Row(o, b, p)[c]
                    ELSE Near(r[c], FixDiv(Pow2(Row(o, b, p)[c]), RowZ(o, b, p), 6), tol)

BadGreedy(o, q) ==
  ForB(o, LAMBDA b :
    IF ~q.clean[b] THEN {"one-hot"} ELSE
    LET p == q.paths[b] IN
    Chk({p} \in Beams(o, b, 1, o.N), "greedy")
    \cup Chk(ScoreOK(o, b, p, q.score[b], q.tol), "score")
    \cup Chk(\A n \in 1..o.N : RowOK(o, b, SubSeq(p, 1, n - 1), q.rows[b][n], q.tol), "logits")
    \* soft greedy search gives the model, after the first step, the softmax of alpha times the
    \* scores of the step before
    \cup (IF "soft" \notin DOMAIN q THEN {} ELSE
          Chk(/\ Len(q.soft[b]) = o.N - 1
              /\ \A n \in 1..(o.N - 1) :
                   LET r == Row(o, b, SubSeq(p, 1, n - 1))
                       lo == CHOOSE e \in AsSet(r) : \A f \in AsSet(r) : e <= f
                       w == [i \in 1..o.C |-> Pow2(q.alpha * (r[i] - lo))]
                   IN \A i \in 1..o.C : Near(q.soft[b][n][i], FixDiv(w[i], SumInt(w), 6), q.tol), "soft")))

\* q.K beams; paths[i][b].
BadBeam(o, q) ==
  ForB(o, LAMBDA b :
    IF \E i \in 1..q.K : ~q.clean[i][b] THEN {"one-hot"} ELSE
    LET ps == [i \in 1..q.K |-> q.paths[i][b]]  X == AsSet(ps) IN
    IF Cardinality(X) # q.K THEN {"distinct"}
    ELSE Chk(Ordered(o, b, ps), "order")
         \cup Chk(X \in Beams(o, b, q.K, o.N), "kept")
         \cup Chk("score" \in DOMAIN q => \A i \in 1..q.K : ScoreOK(o, b, ps[i], q.score[i][b], q.tol), "score"))

BadSeqProb(o, q) ==
  UNION { LET it == q.items[i] IN Chk(ScoreOK(o, it.b, it.p, it.s, q.tol), "logprob") : i \in DOMAIN q.items }
  \cup (IF "all" \notin DOMAIN q \/ ~o.norm THEN {} ELSE
        LET mine == SelectSeq(q.items, LAMBDA it : it.b = q.all) IN
        Chk({ mine[i].p : i \in DOMAIN mine } = AllSeqs(o) /\ Len(mine) = Cardinality(AllSeqs(o)), "cover")
        \cup Chk(Near(SumInt([i \in DOMAIN mine |-> mine[i].s]), 1000000, q.tol * (Len(mine) + 2)), "total"))

\* hist[b]: distinct sequences drawn with counts.
BadSeqDraws(o, q) ==
  ForB(o, LAMBDA b :
    LET h == q.hist[b] IN
    IF \E i \in DOMAIN h : ~h[i].clean THEN {"one-hot"} ELSE
    Chk(SumInt([i \in DOMAIN h |-> h[i].n]) = q.S, "number")
    \* no class of probability below 2^-40 given the prefix drawn so far
    \cup Chk(\A i \in DOMAIN h : \A n \in 1..o.N :
               LET r == Row(o, b, SubSeq(h[i].p, 1, n - 1)) IN
               \A c \in 1..o.C : r[c] - r[h[i].p[n] + 1] <= (IF Wide(o) THEN 40 * 64 ELSE 40), "support")
    \cup (IF ~q.law THEN {} ELSE
          Chk(\A s \in AllSeqs(o) :
                LET v == Val(o, b, s)
                    n == SumInt([i \in DOMAIN h |-> IF h[i].p = s THEN h[i].n ELSE 0])
                IN LawOK(n, q.S, v[1], v[2]), "law")))

\* Agreement of the draws of two elements (b # c) or of draws of one element some lag apart.
BadSeqIndep(o, q) ==
  LET xs == SetToSeq(AllSeqs(o))
      prob(s) == LET v == Val(o, q.b, s)  w == Val(o, q.c, s) IN FixDiv(v[1] * w[1], v[2] * w[2], 6)
      a == SumInt([i \in DOMAIN xs |-> prob(xs[i])]) \div 1000
  IN Chk(Abs(q.agree * 1000 - q.S * a) <= 6 * (ISqrt(q.S * a * (1000 - a)) + 1) + 4000 + 2 * q.S, "independent")

\* Derivative of the weighted scores of the recorded paths with respect to the score that the
\* model gives class c at step n after the prefixes numbered m - 1: each path that passes there
\* counts the class it took, less the model's probability when scores are normalised.
Place(o, p) == IF Wide(o) THEN MixR(o.H, p, 0) ELSE Num(o.C, p)
SeqSlope(o, q, b, n, m, c) ==
  LET here == SelectSeq(q.items, LAMBDA it : it.b = b /\ Place(o, SubSeq(it.p, 1, n - 1)) = m - 1)
      row == o.tab[b][n][m]
      part == IF Exactly(o) THEN 0 ELSE FixDiv(Pow2(row[c]), SumInt([i \in 1..o.C |-> Pow2(row[i])]), 6)
  IN SumInt([i \in DOMAIN here |-> here[i].w * ((IF here[i].p[n] = c - 1 THEN 1000000 ELSE 0) - part)])
BadSeqSlope(o, q) ==
  ForB(o, LAMBDA b : UNION { UNION { UNION {
    Chk(Near(q.g[b][n][m][c], SeqSlope(o, q, b, n, m, c), q.tol), "slope")
      : c \in 1..o.C } : m \in DOMAIN q.g[b][n] } : n \in 1..o.N })

BadDistinct(o, q) ==
  ForB(o, LAMBDA b :
    IF \E i \in 1..q.K : ~q.clean[i][b] THEN {"one-hot"} ELSE
    Chk(Cardinality({ q.paths[i][b] : i \in 1..q.K }) = q.K, "distinct"))
=============================================================================
