-------------------------------- MODULE Ref --------------------------------
(***************************************************************************)
(* Reference semantics of the structured families.                         *)
(*                                                                         *)
(* d is the family record [fam, C, K, L, NT, T, root].  Potentials V are   *)
(* nested 1-based sequences laid out like the library's event tensors; a   *)
(* part is the index tuple of an event entry.  len is the element's own    *)
(* length: everything outside it is padding and is never looked at.        *)
(*                                                                         *)
(*   chain  V[n][i][j]     label i at n+1, label j at n         n < len    *)
(*   semi   V[n][k][i][j]  segment from n of width k-1          labels i,j *)
(*   dep    V[h][c]        head h of word c; V[c][c] is the root arc       *)
(*   depl   V[h][c][l]     the same with arc labels                        *)
(*   span   V[i][j][a]     span i..j labelled a                            *)
(*   cfg    V.terms[n][t], V.rules[a][b][c], V.roots[a]                    *)
(*   np     V[h][c]        non-projective                                  *)
(***************************************************************************)
EXTENDS Semiring

Multi(d) == d.root = "multi"

(***************************************************************************)
(* Structure sets by definition (enumeration).  A structure is described   *)
(* by its compact form; Parts gives its set of parts.                      *)
(***************************************************************************)
RECURSIVE Segs(_, _)      \* all sequences of widths < K summing to m
Segs(m, K) == IF m = 0 THEN {<< >>}
              ELSE UNION { { <<w>> \o s : s \in Segs(m - w, K) } : w \in 1..Min2(m, K - 1) }

\* Head functions: h[c] \in 0..len, 0 is the virtual root.
RECURSIVE Climb(_, _, _)
Climb(h, c, fuel) == IF c = 0 THEN TRUE ELSE IF fuel = 0 THEN FALSE ELSE Climb(h, h[c], fuel - 1)
IsTree(h, len) == \A c \in 1..len : Climb(h, c, len)
IsProjective(h, len) ==
  \A a, b \in 1..len : a # b =>
     LET l1 == Min2(a, h[a])  r1 == Max2(a, h[a])
         l2 == Min2(b, h[b])  r2 == Max2(b, h[b])
     IN ~ (l1 < l2 /\ l2 < r1 /\ r1 < r2)
RootsOf(h, len) == { c \in 1..len : h[c] = 0 }
RootOK(d, h, len) == Multi(d) \/ Cardinality(RootsOf(h, len)) = 1
IsDepTree(d, h, len) ==
  IsTree(h, len) /\ RootOK(d, h, len) /\ (d.fam = "np" \/ IsProjective(h, len))
DepTrees(d, len) == { h \in [1..len -> 0..len] : IsDepTree(d, h, len) }

\* Binary bracketings of i..j as sets of spans.
RECURSIVE Brackets(_, _)
Brackets(i, j) ==
  IF i = j THEN {{<<i, i>>}}
  ELSE UNION { { {<<i, j>>} \cup l \cup r : l \in Brackets(i, k), r \in Brackets(k + 1, j) } :
               k \in i..(j - 1) }

Compacts(d, len) ==
  CASE d.fam = "chain" -> [1..len -> 1..d.C]
    [] d.fam = "semi"  -> UNION { { [w |-> s, y |-> y] : y \in [1..(Len(s) + 1) -> 1..d.C] } :
                                  s \in Segs(len - 1, d.K) }
    [] d.fam \in {"dep", "np"} -> DepTrees(d, len)
    [] d.fam = "depl"  -> { [h |-> h, l |-> l] : h \in DepTrees(d, len), l \in [1..len -> 1..d.L] }
    [] d.fam = "span"  -> UNION { [b -> 1..d.C] : b \in Brackets(1, len) }

Start(w, m) == 1 + SumInt(SubSeq(w, 1, m - 1))

Arc(h, c) == IF h = 0 THEN c ELSE h

Parts(d, len, s) ==
  CASE d.fam = "chain" -> { <<n, s[n + 1], s[n]>> : n \in 1..(len - 1) }
    [] d.fam = "semi"  -> { <<Start(s.w, m), s.w[m] + 1, s.y[m + 1], s.y[m]>> : m \in 1..Len(s.w) }
    [] d.fam \in {"dep", "np"} -> { <<Arc(s[c], c), c>> : c \in 1..len }
    [] d.fam = "depl"  -> { <<Arc(s.h[c], c), c, s.l[c]>> : c \in 1..len }
    [] d.fam = "span"  -> { <<b[1], b[2], s[b]>> : b \in DOMAIN s }

Structs(d, len) == { Parts(d, len, s) : s \in Compacts(d, len) }

\* Number of structures that share one event (only when a single label has no part).
EventMult(d, len) == IF d.fam \in {"chain", "semi"} /\ len = 1 THEN d.C ELSE 1

\* Grammar derivations of i..j from symbol a, as sets of anchored nodes.
RECURSIVE Derivs(_, _, _, _)
Derivs(d, a, i, j) ==
  IF i = j THEN (IF a > d.NT THEN {{<<i, i, a>>}} ELSE {})
  ELSE IF a > d.NT THEN {}
  ELSE UNION { UNION { { {<<i, j, a, b, c, k>>} \cup l \cup r :
                          l \in Derivs(d, b, i, k), r \in Derivs(d, c, k + 1, j) } :
                       b \in 1..(d.NT + d.T), c \in 1..(d.NT + d.T) } :
               k \in i..(j - 1) }
CfgDerivs(d, len) == UNION { Derivs(d, a, 1, len) : a \in 1..d.NT }
RootSym(der, len) == (CHOOSE nd \in der : nd[1] = 1 /\ nd[2] = len)[3]

(***************************************************************************)
(* The same sets as predicates on sets of parts (no enumeration).          *)
(***************************************************************************)
HeadOf(S, c) == LET p == CHOOSE p \in S : p[2] = c IN IF p[1] = c THEN 0 ELSE p[1]
DepHeadsOK(S, len) ==
  /\ \A p \in S : p[1] \in 1..len /\ p[2] \in 1..len
  /\ \A c \in 1..len : Cardinality({ p \in S : p[2] = c }) = 1

RECURSIVE SegWalk(_, _, _, _)
\* S is a path of segments from position n to len; y is the label at n or 0 at the start.
SegWalk(S, n, len, y) ==
  IF n = len THEN S = {}
  ELSE LET here == { p \in S : p[1] = n } IN
       /\ Cardinality(here) = 1
       /\ LET p == CHOOSE p \in here : TRUE IN
          /\ p[2] >= 2 /\ n + p[2] - 1 <= len
          /\ y = 0 \/ p[4] = y
          /\ SegWalk(S \ here, n + p[2] - 1, len, p[3])

RECURSIVE SpanOK(_, _, _)
SpanOK(B, i, j) ==
  /\ <<i, j>> \in B
  /\ i < j => \E k \in i..(j - 1) :
       <<i, k>> \in B /\ <<k + 1, j>> \in B /\ SpanOK(B, i, k) /\ SpanOK(B, k + 1, j)
IsBracketing(B, len) == Cardinality(B) = 2 * len - 1 /\ SpanOK(B, 1, len)

IsStruct(d, len, S) ==
  CASE d.fam = "chain" ->
         /\ \A p \in S : p[1] \in 1..(len - 1)
         /\ \A n \in 1..(len - 1) : Cardinality({ p \in S : p[1] = n }) = 1
         /\ \A p, q \in S : q[1] = p[1] + 1 => q[3] = p[2]
    [] d.fam = "semi" -> SegWalk(S, 1, len, 0)
    [] d.fam \in {"dep", "np", "depl"} ->
         /\ DepHeadsOK(S, len)
         /\ IsDepTree(d, [c \in 1..len |-> HeadOf(S, c)], len)
    [] d.fam = "span" ->
         LET B == { <<p[1], p[2]>> : p \in S } IN
         Cardinality(S) = Cardinality(B) /\ IsBracketing(B, len)

At(d, V, p) ==
  CASE d.fam \in {"chain", "span", "depl"} -> V[p[1]][p[2]][p[3]]
    [] d.fam = "semi" -> V[p[1]][p[2]][p[3]][p[4]]
    [] d.fam \in {"dep", "np"} -> V[p[1]][p[2]]

Fold(sr, d, V, S) ==    \* product of the parts of S
  LET s == SetToSeq(S) IN ProdR(sr, [i \in 1..Len(s) |-> At(d, V, s[i])], 1, Len(s))
Score(d, V, S) == Fold(SR("max"), d, V, S)

\* The definition: semiring sum over the enumerated structures.
SumStructs(sr, d, len, V, X) ==
  LET xs == SetToSeq(X) IN
  SumR(sr, [i \in 1..Len(xs) |-> Fold(sr, d, V, Parts(d, len, xs[i]))], 1, Len(xs))
Definition(sr, d, len, V) == SumStructs(sr, d, len, V, Compacts(d, len))

(***************************************************************************)
(* Reference recurrences, structurally different from the library's        *)
(* charts; Design.tla checks them against Definition in the free semiring. *)
(***************************************************************************)
RECURSIVE ChainFwd(_, _, _, _, _, _)
ChainFwd(sr, C, len, V, n, a) ==
  IF n >= len THEN SumS(sr, a)
  ELSE ChainFwd(sr, C, len, V, n + 1,
         TLCEval([i \in 1..C |-> SumR(sr, [j \in 1..C |-> Times(sr, V[n][i][j], a[j])], 1, C)]))
ChainInside(sr, d, len, V) == ChainFwd(sr, d.C, len, V, 1, [i \in 1..d.C |-> One(sr)])

RECURSIVE SemiFwd(_, _, _, _, _, _)
SemiFwd(sr, C, K, len, V, betas) ==      \* betas[m] = weights of segmentations ending at m
  LET n == Len(betas) IN
  IF n = len THEN SumS(sr, betas[n])
  ELSE LET mx == Min2(K - 1, n)
           b  == TLCEval([i \in 1..C |->
                   SumR(sr, [w \in 1..mx |->
                      SumR(sr, [j \in 1..C |->
                          Times(sr, V[n + 1 - w][w + 1][i][j], betas[n + 1 - w][j])], 1, C)], 1, mx)])
       IN SemiFwd(sr, C, K, len, V, betas \o <<b>>)
SemiInside(sr, d, len, V) ==
  SemiFwd(sr, d.C, d.K, len, V, <<[i \in 1..d.C |-> One(sr)]>>)

\* Head-split tables: T[w+1][i][h-i+1] trees over i..i+w headed by h;
\* Lf[h][w+1] left dependents of h covering h-w..h-1; Rt[h][w+1] right ones.
RECURSIVE HeadTables(_, _, _, _, _, _)
HeadTables(sr, n, V, T, Lf, Rt) ==
  LET w == Len(T) IN
  IF w = n THEN [T |-> T, L |-> Lf, R |-> Rt]
  ELSE
  LET L2 == TLCEval([h \in 1..n |->
        IF h - w < 1 THEN Lf[h] ELSE
        Lf[h] \o << IF w = 0 THEN One(sr) ELSE
           LET i == h - w IN
           SumR(sr, [m \in i..(h - 1) |->
              SumR(sr, [c \in i..m |->
                 Times(sr, Times(sr, T[m - i + 1][i][c - i + 1], V[h][c]), Lf[h][h - m - 1 + 1])],
                 i, m)], i, h - 1) >>])
      R2 == TLCEval([h \in 1..n |->
        IF h + w > n THEN Rt[h] ELSE
        Rt[h] \o << IF w = 0 THEN One(sr) ELSE
           LET j == h + w IN
           SumR(sr, [m \in (h + 1)..j |->
              SumR(sr, [c \in m..j |->
                 Times(sr, Times(sr, T[j - m + 1][m][c - m + 1], V[h][c]), Rt[h][m - 1 - h + 1])],
                 m, j)], h + 1, j) >>])
      Tw == TLCEval([i \in 1..(n - w) |-> TLCEval([q \in 1..(w + 1) |->
               Times(sr, L2[i + q - 1][q], R2[i + q - 1][w - q + 2])])])
  IN HeadTables(sr, n, V, T \o <<Tw>>, L2, R2)

RECURSIVE RootSeq(_, _, _, _, _)
\* acc[j+1] = weight of sequences of root subtrees covering 1..j
RootSeq(sr, n, V, T, acc) ==
  LET j == Len(acc) IN
  IF j > n THEN acc[n + 1]
  ELSE RootSeq(sr, n, V, T, acc \o <<
         SumR(sr, [m \in 1..j |->
            SumR(sr, [c \in m..j |->
               Times(sr, Times(sr, T[j - m + 1][m][c - m + 1], V[c][c]), acc[m])], m, j)], 1, j) >>)

DepInside(sr, d, len, V) ==
  IF len = 0 THEN One(sr) ELSE
  LET tb == HeadTables(sr, len, V, << >>, [h \in 1..len |-> << >>], [h \in 1..len |-> << >>])
  IN IF Multi(d) THEN RootSeq(sr, len, V, tb.T, <<One(sr)>>)
     ELSE SumR(sr, [c \in 1..len |-> Times(sr, tb.T[len][1][c], V[c][c])], 1, len)

SumLabels(sr, V, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> SumS(sr, V[i][j])])])

RECURSIVE SpanTab(_, _, _, _)
SpanTab(sr, n, U, I) ==           \* I[w][i] = trees over i..i+w-1
  LET w == Len(I) + 1 IN
  IF w > n THEN I[n][1]
  ELSE SpanTab(sr, n, U, I \o << TLCEval([i \in 1..(n - w + 1) |->
         IF w = 1 THEN U[i][i]
         ELSE Times(sr, U[i][i + w - 1],
                SumR(sr, [k \in 1..(w - 1) |-> Times(sr, I[k][i], I[w - k][i + k])], 1, w - 1))]) >>)
SpanInside(sr, d, len, V) == SpanTab(sr, len, SumLabels(sr, V, len), << >>)

RECURSIVE CfgTab(_, _, _, _, _)
CfgTab(sr, d, n, V, I) ==         \* I[w][i][a], a over NT + T symbols
  LET w == Len(I) + 1
      S == d.NT + d.T
  IN
  IF w > n THEN I
  ELSE CfgTab(sr, d, n, V, I \o << TLCEval([i \in 1..(n - w + 1) |->
         IF w = 1 THEN TLCEval([a \in 1..S |-> IF a > d.NT THEN V.terms[i][a - d.NT] ELSE Zero(sr)])
         ELSE LET Q == TLCEval([b \in 1..S |-> TLCEval([c \in 1..S |->
                    SumR(sr, [k \in 1..(w - 1) |-> Times(sr, I[k][i][b], I[w - k][i + k][c])], 1, w - 1)])])
              IN TLCEval([a \in 1..S |-> IF a > d.NT THEN Zero(sr) ELSE
                    SumR(sr, [b \in 1..S |-> SumR(sr, [c \in 1..S |->
                       Times(sr, V.rules[a][b][c], Q[b][c])], 1, S)], 1, S)])]) >>)
CfgInside(sr, d, len, V) ==
  LET I == CfgTab(sr, d, len, V, << >>) IN
  SumR(sr, [a \in 1..d.NT |-> Times(sr, I[len][1][a], V.roots[a])], 1, d.NT)

\* Outside weights, O[n - w + 1][i][a] for spans of width w (integers); zero where nothing fits inside.
RECURSIVE CfgOut(_, _, _, _, _)
CfgOut(d, n, V, I, O) ==
  LET w == n - Len(O)
      S == d.NT + d.T
      sr == SR("std")
  IN
  IF w = 0 THEN O
  ELSE CfgOut(d, n, V, I, O \o << TLCEval([i \in 1..(n - w + 1) |-> TLCEval([x \in 1..S |->
         IF I[w][i][x] = 0 THEN 0
         ELSE IF w = n THEN (IF x <= d.NT THEN V.roots[x] ELSE 0)
         ELSE \* as a left child, sibling of width m on the right; then as a right child
           SumR(sr, [m \in 1..(n - w - i + 1) |-> SumR(sr, [a \in 1..d.NT |-> SumR(sr, [c \in 1..S |->
               IF I[m][i + w][c] = 0 THEN 0 ELSE O[n - w - m + 1][i][a] * V.rules[a][x][c] * I[m][i + w][c]], 1, S)], 1, d.NT)], 1, n - w - i + 1)
           + SumR(sr, [m \in 1..(i - 1) |-> SumR(sr, [a \in 1..d.NT |-> SumR(sr, [c \in 1..S |->
               IF I[m][i - m][c] = 0 THEN 0 ELSE O[n - w - m + 1][i - m][a] * V.rules[a][c][x] * I[m][i - m][c]], 1, S)], 1, d.NT)], 1, i - 1)])]) >>)

(***************************************************************************)
(* Non-projective trees: matrix-tree theorem over the integers, with the   *)
(* determinant expanded over column sets (no division).  Single-root mode  *)
(* sums over the root word r the minors without r.                         *)
(***************************************************************************)
RECURSIVE DetR(_, _, _, _)
\* tab: determinant of rows 1..k of M restricted to column set X, for every X of size k
DetR(M, n, k, tab) ==
  IF k = n THEN tab[1..n]
  ELSE DetR(M, n, k + 1, TLCEval([X \in kSubset(k + 1, 1..n) |->
         LET cs == SetToSortSeq(X, <) IN
         SumInt([i \in 1..(k + 1) |->
            IF M[k + 1][cs[i]] = 0 THEN 0 ELSE
            (IF (k + 1 - i) % 2 = 0 THEN 1 ELSE -1) * M[k + 1][cs[i]] * tab[X \ {cs[i]}]])]))
Det(M, n) == IF n = 0 THEN 1 ELSE DetR(M, n, 0, [X \in {{}} |-> 1])
\* Laplacian of the arcs among the words in sequence u, plus extra[c] on the diagonal.
Laplacian(V, u, extra(_)) ==
  LET m == Len(u) IN
  [i \in 1..m |-> TLCEval([j \in 1..m |->
     IF i # j THEN -V[u[i]][u[j]]
     ELSE extra(u[j]) + SumInt([h \in 1..m |-> IF h = j THEN 0 ELSE V[u[h]][u[j]]])])]
NpDet(d, len, V) ==
  IF Multi(d)
  THEN Det(TLCEval(Laplacian(V, [i \in 1..len |-> i], LAMBDA c : V[c][c])), len)
  ELSE SumInt([r \in 1..len |->
         IF V[r][r] = 0 THEN 0 ELSE
         LET u == [i \in 1..(len - 1) |-> IF i < r THEN i ELSE i + 1]
         IN V[r][r] * Det(TLCEval(Laplacian(V, u, LAMBDA c : V[r][c])), len - 1)])

\* Where words have few possible heads: all choices of heads of positive weight.
HeadsOf(V, len, c) == { h \in 1..len : V[h][c] # 0 }
RECURSIVE HeadChoices(_, _, _)
HeadChoices(V, len, c) ==
  IF c = 0 THEN {<< >>}
  ELSE { Append(s, IF h = c THEN 0 ELSE h) : s \in HeadChoices(V, len, c - 1), h \in HeadsOf(V, len, c) }
RECURSIVE ArcsW(_, _, _)
ArcsW(V, h, c) == IF c = 0 THEN 1 ELSE V[IF h[c] = 0 THEN c ELSE h[c]][c] * ArcsW(V, h, c - 1)
NpFew(d, len, V) ==
  TotalOf(LAMBDA h : ArcsW(V, h, len), { h \in HeadChoices(V, len, len) : IsTree(h, len) /\ RootOK(d, h, len) })
RECURSIVE AtMost(_, _, _, _)
AtMost(V, len, c, m) == m > 0 /\ (c = 0 \/ AtMost(V, len, c - 1, m \div Max2(1, Cardinality(HeadsOf(V, len, c)))))
NpInside(d, len, V) ==
  IF len > 6 /\ AtMost(V, len, len, 300) THEN NpFew(d, len, V) ELSE NpDet(d, len, V)

Inside(sr, d, len, V) ==
  CASE d.fam = "chain" -> ChainInside(sr, d, len, V)
    [] d.fam = "semi"  -> SemiInside(sr, d, len, V)
    [] d.fam = "dep"   -> DepInside(sr, d, len, V)
    [] d.fam = "depl"  -> DepInside(sr, d, len, SumLabels(sr, V, len))
    [] d.fam = "span"  -> SpanInside(sr, d, len, V)
    [] d.fam = "cfg"   -> CfgInside(sr, d, len, V)
    [] d.fam = "np"    -> IF sr.n = "std" THEN NpInside(d, len, V) ELSE Definition(sr, d, len, V)
=============================================================================
