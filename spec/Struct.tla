------------------------------- MODULE Struct -------------------------------
(***************************************************************************)
(* What every query of a structured distribution must answer.              *)
(*                                                                         *)
(* A distribution is the record o written when it was constructed:         *)
(*   o.d     family record          o.B, o.lens  batch size, lengths       *)
(*   o.pot   per element, the integer potentials e; the real potential is  *)
(*           e*ln 2 (+ shift), so the weight of a part is 2^e and its      *)
(*           score is e in units of ln 2; e < -50 stands for weight 0      *)
(* An answer q is accepted iff Bad(o, q) = {}; otherwise Bad names the     *)
(* clauses it breaks.  Fractions are fixed point with 6 digits.            *)
(***************************************************************************)
EXTENDS Ref

NOINT == 1999999999       \* the recorder saw a value that is not an integer

\* Entries below 0 or above 25 only ever fill the padding; they have no weight to read.
Wt(e) == IF e < -50 THEN 0 ELSE IF e > 25 \/ e < 0 THEN -7 ELSE Pow2(e)

\* Elementwise map over the tensors of one element.
\* (TLCEval only forces the outermost function, hence one at every level.)
Map1(f(_), s) == TLCEval([i \in DOMAIN s |-> f(s[i])])
Map2(f(_), s) == TLCEval([i \in DOMAIN s |-> Map1(f, s[i])])
Map3(f(_), s) == TLCEval([i \in DOMAIN s |-> Map2(f, s[i])])
Map4(f(_), s) == TLCEval([i \in DOMAIN s |-> Map3(f, s[i])])
MapV(d, f(_), V) ==
  CASE d.fam \in {"dep", "np"} -> Map2(f, V)
    [] d.fam \in {"chain", "depl", "span"} -> Map3(f, V)
    [] d.fam = "semi" -> Map4(f, V)
    [] d.fam = "cfg" -> [terms |-> Map2(f, V.terms), rules |-> Map3(f, V.rules), roots |-> Map1(f, V.roots)]

W(o, b) == TLCEval(MapV(o.d, Wt, o.pot[b]))
Z(o, b) == Inside(SR("std"), o.d, o.lens[b], W(o, b))
MaxOf(o, b) == Inside(SR("max"), o.d, o.lens[b], o.pot[b])
KBest(o, b, k) ==
  Inside(KMax(k), o.d, o.lens[b], TLCEval(MapV(o.d, LAMBDA e : <<e>>, o.pot[b])))

Without(d, V, p) ==
  CASE d.fam \in {"chain", "span", "depl"} -> [V EXCEPT ![p[1]][p[2]][p[3]] = 0]
    [] d.fam = "semi" -> [V EXCEPT ![p[1]][p[2]][p[3]][p[4]] = 0]
    [] d.fam \in {"dep", "np"} -> [V EXCEPT ![p[1]][p[2]] = 0]

\* Total weight of the structures of an element that contain p.
Uses(o, b, w, z, p) == IF At(o.d, w, p) = 0 THEN 0
                       ELSE z - Inside(SR("std"), o.d, o.lens[b], Without(o.d, w, p))

AsSet(s) == { s[i] : i \in DOMAIN s }
NoRep(s) == Len(s) = Cardinality(AsSet(s))

Chk(ok, name) == IF ok THEN {} ELSE {name}
ForB(o, f(_)) == UNION { f(b) : b \in 1..o.B }

(***************************************************************************)
(* Partition, max, k-best, count                                           *)
(***************************************************************************)
In(x, lo, hi) == lo <= x /\ x <= hi

\* q.tot is the sum of the positional offsets the recorder removed.
ShiftOf(o, b) == IF "shift" \in DOMAIN o
                 THEN SumInt(SubSeq(o.shift[b], 1, IF o.d.fam \in {"chain", "semi"} THEN o.lens[b] - 1 ELSE o.lens[b]))
                 ELSE 0
ShiftOK(o, q) == "tot" \in DOMAIN q => \A b \in 1..o.B : q.tot[b] = ShiftOf(o, b)

BadPartition(o, q) ==
  Chk(ShiftOK(o, q), "offset")
  \cup ForB(o, LAMBDA b : Chk(In(Z(o, b), q.lo[b], q.hi[b]), "sum"))

BadMax(o, q) ==
  Chk(ShiftOK(o, q), "offset")
  \cup ForB(o, LAMBDA b : Chk(q.x[b] = MaxOf(o, b), "max"))

BadKmax(o, q) ==
  Chk(ShiftOK(o, q), "offset") \cup
  ForB(o, LAMBDA b : LET kb == TLCEval(KBest(o, b, q.k)) IN
     Chk(\A i \in 1..q.k : i <= Len(kb) => q.v[i][b] = kb[i], "kmax"))

\* Potentials of minus infinity are recorded as -99.
BadCount(o, q) ==
  ForB(o, LAMBDA b :
     Chk(q.x[b] = Inside(SR("std"), o.d, o.lens[b],
                         TLCEval(MapV(o.d, LAMBDA e : IF e = -99 THEN 0 ELSE 1, o.pot[b]))), "count"))

(***************************************************************************)
(* Indicator events                                                        *)
(***************************************************************************)
BadEvent(o, b, clean, parts) ==
  LET S == AsSet(parts) IN
  IF ~clean THEN {"indicator"}
  ELSE IF ~(NoRep(parts) /\ IsStruct(o.d, o.lens[b], S)) THEN {"structure"} ELSE {}

\* Grammar events: terms {<<n, t>>}, spans {<<i, j, a>>}, rules {<<a, b, c, uses>>}, roots {a}.
Sym(d, ev, i, j) == IF i = j THEN d.NT + (CHOOSE p \in AsSet(ev.terms) : p[1] = i)[2]
                    ELSE (CHOOSE p \in AsSet(ev.spans) : p[1] = i /\ p[2] = j)[3]
Has(ev, i, j) == i = j \/ \E p \in AsSet(ev.spans) : p[1] = i /\ p[2] = j
RECURSIVE CfgOK(_, _, _)
CfgOK(ev, i, j) ==
  i = j \/ (Has(ev, i, j) /\ \E k \in i..(j - 1) :
              Has(ev, i, k) /\ Has(ev, k + 1, j) /\ CfgOK(ev, i, k) /\ CfgOK(ev, k + 1, j))
RECURSIVE CfgRules(_, _, _, _)
CfgRules(d, ev, i, j) ==
  IF i = j THEN << >>
  ELSE LET k == CHOOSE k \in i..(j - 1) : Has(ev, i, k) /\ Has(ev, k + 1, j) /\ CfgOK(ev, i, k) /\ CfgOK(ev, k + 1, j)
       IN << <<Sym(d, ev, i, j), Sym(d, ev, i, k), Sym(d, ev, k + 1, j)>> >>
          \o CfgRules(d, ev, i, k) \o CfgRules(d, ev, k + 1, j)
SpansTree(len, ev) ==
  /\ Len(ev.spans) = len - 1 /\ NoRep(ev.spans)
  /\ Cardinality({ <<p[1], p[2]>> : p \in AsSet(ev.spans) }) = len - 1
  /\ CfgOK(ev, 1, len)
Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
CfgEventOK(d, len, ev) ==
  /\ SpansTree(len, ev)
  /\ Len(ev.terms) = len /\ { p[1] : p \in AsSet(ev.terms) } = 1..len
  /\ Len(ev.roots) = 1 /\ ev.roots[1] = Sym(d, ev, 1, len)
  /\ LET rs == CfgRules(d, ev, 1, len) IN
     AsSet(ev.rules) = { <<r[1], r[2], r[3], Occ(rs, r)>> : r \in AsSet(rs) }
CfgScore(V, ev) ==
  SumInt([i \in DOMAIN ev.terms |-> V.terms[ev.terms[i][1]][ev.terms[i][2]]])
  + SumInt([i \in DOMAIN ev.rules |-> ev.rules[i][4] * V.rules[ev.rules[i][1]][ev.rules[i][2]][ev.rules[i][3]]])
  + SumInt([i \in DOMAIN ev.roots |-> V.roots[ev.roots[i]]])

BadArgmax(o, q) ==
  ForB(o, LAMBDA b :
    IF o.d.fam = "cfg" THEN
      IF ~q.clean[b] THEN {"indicator"}
      ELSE IF ~CfgEventOK(o.d, o.lens[b], q.ev[b]) THEN {"structure"}
      ELSE Chk(CfgScore(o.pot[b], q.ev[b]) = MaxOf(o, b), "best")
    ELSE LET bad == BadEvent(o, b, q.clean[b], q.parts[b]) IN
      IF bad # {} THEN bad
      ELSE Chk(Score(o.d, o.pot[b], AsSet(q.parts[b])) = MaxOf(o, b), "best"))

BadTopk(o, q) ==
  ForB(o, LAMBDA b :
    LET kb == TLCEval(KBest(o, b, q.k))
        n  == Len(kb)
        ps == [i \in 1..n |-> AsSet(q.parts[i][b])]
    IN UNION { LET bad == BadEvent(o, b, q.clean[i][b], q.parts[i][b]) IN
               IF bad # {} THEN bad ELSE Chk(Score(o.d, o.pot[b], ps[i]) = kb[i], "rank") : i \in 1..n }
       \cup Chk(\A i \in 1..n : Cardinality({ j \in 1..n : ps[j] = ps[i] }) <= EventMult(o.d, o.lens[b]), "distinct"))

\* Grammar k-best: span tables per rank; terminal, rule and root uses summed over ranks.
TermAssign(d, len) == [1..len -> 1..d.T]
WithTerms(d, len, sp, t) ==
  LET ev0 == [spans |-> sp, terms |-> [n \in 1..len |-> <<n, t[n]>>]]
      rs  == CfgRules(d, ev0, 1, len)
  IN [spans |-> sp, terms |-> ev0.terms, roots |-> <<Sym(d, ev0, 1, len)>>,
      rules |-> [i \in DOMAIN rs |-> <<rs[i][1], rs[i][2], rs[i][3], 1>>]]
BadTopkCfg(o, q) ==
  ForB(o, LAMBDA b :
    LET len == o.lens[b]
        kb == TLCEval(KBest(o, b, q.k))
        n  == Len(kb)
        ok(i) == q.clean[i][b] /\ SpansTree(len, [spans |-> q.spans[i][b]])
        sc(i) == TLCEval({ <<t, CfgScore(o.pot[b], WithTerms(o.d, len, q.spans[i][b], t))>> : t \in TermAssign(o.d, len) })
    IN IF \E i \in 1..n : ~ok(i) THEN {"structure"}
       ELSE Chk(\A i \in 1..n : \E x \in sc(i) : x[2] = kb[i], "rank")
         \cup Chk(\A i \in 1..n :
                 Cardinality({ j \in 1..n : AsSet(q.spans[j][b]) = AsSet(q.spans[i][b]) /\ kb[j] = kb[i] })
                 <= Cardinality({ x \in sc(i) : x[2] = kb[i] }), "distinct")
         \cup Chk(SumInt([i \in DOMAIN q.ev[b].terms |-> q.ev[b].terms[i][3] * o.pot[b].terms[q.ev[b].terms[i][1]][q.ev[b].terms[i][2]]])
                  + SumInt([i \in DOMAIN q.ev[b].rules |-> q.ev[b].rules[i][4] * o.pot[b].rules[q.ev[b].rules[i][1]][q.ev[b].rules[i][2]][q.ev[b].rules[i][3]]])
                  + SumInt([i \in DOMAIN q.ev[b].roots |-> q.ev[b].roots[i][2] * o.pot[b].roots[q.ev[b].roots[i][1]]])
                  = SumInt(kb), "uses"))

(***************************************************************************)
(* Marginals, gradients, covariances                                       *)
(***************************************************************************)
AllIdx(d, V) ==      \* every index of the event tensor, padding included
  CASE d.fam \in {"dep", "np"} -> { <<i, j>> : i \in DOMAIN V, j \in DOMAIN V[1] }
    [] d.fam \in {"chain", "depl", "span"} ->
         { <<i, j, k>> : i \in DOMAIN V, j \in DOMAIN V[1], k \in DOMAIN V[1][1] }
    [] d.fam = "semi" ->
         { <<i, j, k, l>> : i \in DOMAIN V, j \in DOMAIN V[1], k \in DOMAIN V[1][1], l \in DOMAIN V[1][1][1] }

\* Parts inside the length (all others have probability zero).
Inner(d, len, p) ==
  CASE d.fam = "chain" -> p[1] <= len - 1
    [] d.fam = "semi" -> p[2] >= 2 /\ p[1] + p[2] - 1 <= len
    [] d.fam \in {"dep", "np", "depl"} -> p[1] <= len /\ p[2] <= len
    [] d.fam = "span" -> p[1] <= p[2] /\ p[2] <= len

Prob(o, b, w, z, p) == IF Inner(o.d, o.lens[b], p) THEN FixDiv(Uses(o, b, w, z, p), z, 6) ELSE 0

Near(x, y, tol) == x - y <= tol /\ y - x <= tol

\* m[b] is the reported tensor (6 digits).
BadMargTensor(o, b, m, tol) ==
  LET w == W(o, b)  z == Inside(SR("std"), o.d, o.lens[b], w) IN
  UNION { LET x == At(o.d, m, p) IN
          IF Inner(o.d, o.lens[b], p)
          THEN Chk(Near(x, FixDiv(Uses(o, b, w, z, p), z, 6), tol), "posterior")
          ELSE Chk(x = 0, "outside") : p \in AllIdx(o.d, o.pot[b]) }

Dual(d, V, kind, p) ==       \* dual numbers marking one grammar part
  [terms |-> [n \in DOMAIN V.terms |-> [t \in DOMAIN V.terms[n] |->
       <<V.terms[n][t], IF kind = "t" /\ p = <<n, t>> THEN V.terms[n][t] ELSE 0>>]],
   rules |-> [a \in DOMAIN V.rules |-> [x \in DOMAIN V.rules[a] |-> [y \in DOMAIN V.rules[a][x] |->
       <<V.rules[a][x][y], IF kind = "r" /\ p = <<a, x, y>> THEN V.rules[a][x][y] ELSE 0>>]]],
   roots |-> [a \in DOMAIN V.roots |->
       <<V.roots[a], IF kind = "s" /\ p = <<a>> THEN V.roots[a] ELSE 0>>]]

\* Total weighted uses of every grammar part, by inside and outside weights.
CfgUses(d, n, V) ==
  LET sr == SR("std")
      I == CfgTab(sr, d, n, V, << >>)
      O == CfgOut(d, n, V, I, << >>)
      S == d.NT + d.T
  IN [terms |-> [i \in 1..n |-> TLCEval([t \in 1..d.T |-> O[n][i][d.NT + t] * I[1][i][d.NT + t]])],
      roots |-> TLCEval([a \in 1..d.NT |-> I[n][1][a] * V.roots[a]]),
      spans |-> [k \in 1..n |-> TLCEval([i \in 1..(n - k + 1) |-> TLCEval([a \in 1..d.NT |-> O[n - k + 1][i][a] * I[k][i][a]])])],
      rules |-> TLCEval([a \in 1..d.NT |-> TLCEval([x \in 1..S |-> TLCEval([y \in 1..S |->
          V.rules[a][x][y] *
          SumR(sr, [w \in 2..n |-> SumR(sr, [i \in 1..(n - w + 1) |-> IF O[n - w + 1][i][a] = 0 THEN 0 ELSE O[n - w + 1][i][a] *
              SumR(sr, [k \in 1..(w - 1) |-> I[k][i][x] * I[w - k][i + k][y]], 1, w - 1)], 1, n - w + 1)], 2, n)])])])]

BadMargCfg(o, b, m, tol) ==
  LET d == o.d  len == o.lens[b]  w == W(o, b)
      z == CfgInside(SR("std"), d, len, w)
      u == TLCEval(CfgUses(d, len, w))
      n == Len(w.terms)
  IN UNION { IF i <= len THEN Chk(Near(m.terms[i][t], FixDiv(u.terms[i][t], z, 6), tol), "terms")
             ELSE Chk(m.terms[i][t] = 0, "outside") : i \in 1..n, t \in 1..d.T }
     \cup UNION { Chk(Near(m.rules[a][x][y], FixDiv(u.rules[a][x][y], z, 6), tol), "rules") :
             a \in 1..d.NT, x \in 1..(d.NT + d.T), y \in 1..(d.NT + d.T) }
     \cup UNION { Chk(Near(m.roots[a], FixDiv(u.roots[a], z, 6), tol), "roots") : a \in 1..d.NT }
     \* gradients with respect to the parameters have no table of spans
     \cup (IF "spans" \notin DOMAIN m THEN {} ELSE
           UNION { LET k == wd + 1  x == m.spans[wd][i][a] IN
             IF i + k - 1 <= len
             THEN Chk(Near(x, FixDiv(u.spans[k][i][a], z, 6), tol), "spans")
             ELSE Chk(x = 0, "outside") : wd \in 1..n, i \in 1..n, a \in 1..d.NT })

BadMarginals(o, q) ==
  ForB(o, LAMBDA b : IF o.d.fam = "cfg" THEN BadMargCfg(o, b, q.m[b], q.tol)
                     ELSE BadMargTensor(o, b, q.m[b], q.tol))

\* Gradient of log p(S): indicator of S minus the marginals.
BadGradLogProb(o, q) ==
  ForB(o, LAMBDA b :
    LET w == W(o, b)  z == Inside(SR("std"), o.d, o.lens[b], w)  S == AsSet(q.parts[b]) IN
    UNION { Chk(Near(At(o.d, q.m[b], p),
                     (IF p \in S THEN 1000000 ELSE 0) - Prob(o, b, w, z, p), q.tol), "gradient") :
            p \in AllIdx(o.d, o.pot[b]) })

\* Gradient of one marginal: covariance of the parts.
Joint(o, b, w, z, p, r) ==
  IF p = r THEN Uses(o, b, w, z, p) ELSE
  z - Inside(SR("std"), o.d, o.lens[b], Without(o.d, w, p))
    - Inside(SR("std"), o.d, o.lens[b], Without(o.d, w, r))
    + Inside(SR("std"), o.d, o.lens[b], Without(o.d, Without(o.d, w, p), r))
Cov(o, b, w, z, p, r) ==
  LET a == FixDiv(Uses(o, b, w, z, p), z, 4)  c == FixDiv(Uses(o, b, w, z, r), z, 4)
  IN FixDiv(Joint(o, b, w, z, p, r), z, 6) - (a * c) \div 100
BadCov(o, q) ==
  LET b == q.b  w == W(o, b)  z == Inside(SR("std"), o.d, o.lens[b], w)
      len == o.lens[b]
      own == UNION { IF Inner(o.d, len, p) /\ Inner(o.d, len, q.part)
              THEN Chk(Near(At(o.d, q.m[b], p), Cov(o, b, w, z, p, q.part), q.tol), "covariance")
              ELSE Chk(At(o.d, q.m[b], p) = 0, "outside") : p \in AllIdx(o.d, o.pot[b]) }
  IN own \cup UNION { Chk(At(o.d, q.m[c], p) = 0, "batch") :
                      c \in (1..o.B) \ {b}, p \in AllIdx(o.d, o.pot[b]) }

(***************************************************************************)
(* Entropy, cross-entropy, KL.                                             *)
(* zi is the rounded exp(log-partition) that the recorder used to turn the *)
(* reported entropy H (nats) into the integer  Z (log2 Z - H/ln2),  the    *)
(* total of  w(S) e(S)  over the structures; zi must itself be Z.          *)
(***************************************************************************)
DualPot(d, V) == TLCEval(MapV(d, LAMBDA e : IF e < -50 THEN <<0, 0>> ELSE <<Wt(e), e * Wt(e)>>, V))
Pair2(d, V, U, f(_, _)) ==
  CASE d.fam \in {"dep", "np"} -> TLCEval([i \in DOMAIN V |-> TLCEval([j \in DOMAIN V[i] |-> f(V[i][j], U[i][j])])])
    [] d.fam \in {"chain", "depl", "span"} ->
         TLCEval([i \in DOMAIN V |-> TLCEval([j \in DOMAIN V[i] |-> TLCEval([k \in DOMAIN V[i][j] |-> f(V[i][j][k], U[i][j][k])])])])
    [] d.fam = "semi" ->
         TLCEval([i \in DOMAIN V |-> TLCEval([j \in DOMAIN V[i] |-> TLCEval([k \in DOMAIN V[i][j] |-> TLCEval([l \in DOMAIN V[i][j][k] |->
             f(V[i][j][k][l], U[i][j][k][l])])])])])
    [] d.fam = "cfg" ->
         [terms |-> [i \in DOMAIN V.terms |-> [t \in DOMAIN V.terms[i] |-> f(V.terms[i][t], U.terms[i][t])]],
          rules |-> [a \in DOMAIN V.rules |-> [x \in DOMAIN V.rules[a] |-> [y \in DOMAIN V.rules[a][x] |->
                        f(V.rules[a][x][y], U.rules[a][x][y])]]],
          roots |-> [a \in DOMAIN V.roots |-> f(V.roots[a], U.roots[a])]]

\* <<Z, sum of w(S) e(S)>> of a grammar, by the weighted uses of its parts.
CfgMean(d, len, V, w) ==
  LET u == TLCEval(CfgUses(d, len, w))
      S == d.NT + d.T
      E(x, e) == IF x = 0 THEN 0 ELSE x * e
  IN << SumInt(u.roots),
        SumInt([i \in 1..len |-> SumInt([t \in 1..d.T |-> E(u.terms[i][t], V.terms[i][t])])])
        + SumInt([a \in 1..d.NT |-> E(u.roots[a], V.roots[a])])
        + SumInt([a \in 1..d.NT |-> SumInt([x \in 1..S |-> SumInt([y \in 1..S |-> E(u.rules[a][x][y], V.rules[a][x][y])])])]) >>

BadEntropy(o, q) ==
  ForB(o, LAMBDA b :
    LET v == TLCEval(IF o.d.fam = "cfg" THEN CfgMean(o.d, o.lens[b], o.pot[b], W(o, b))
                     ELSE Inside(SR("dual"), o.d, o.lens[b], DualPot(o.d, o.pot[b]))) IN
    Chk(q.zi[b] = v[1], "normaliser") \cup Chk(In(v[2], q.lo[b], q.hi[b]), "entropy"))

\* Minus the covariance of each part and a quantity f added up over the parts of a
\* structure: V holds the pairs <<w, w f>>.
ScoreUses(o, b, V, all, p) ==      \* sums of w and of w f over the structures with p
  LET zeroed == CASE o.d.fam \in {"chain", "span", "depl"} -> [V EXCEPT ![p[1]][p[2]][p[3]] = <<0, 0>>]
                  [] o.d.fam = "semi" -> [V EXCEPT ![p[1]][p[2]][p[3]][p[4]] = <<0, 0>>]
                  [] OTHER -> [V EXCEPT ![p[1]][p[2]] = <<0, 0>>]
      r == TLCEval(Inside(SR("dual"), o.d, o.lens[b], zeroed))
  IN <<all[1] - r[1], all[2] - r[2]>>
BadScoreCov(o, b, V, m, tol, what) ==
  LET all == TLCEval(Inside(SR("dual"), o.d, o.lens[b], V))
      z == all[1]
      mean == FixDiv(all[2], z, 4)
      want(p) == IF ~Inner(o.d, o.lens[b], p) THEN 0 ELSE
                 LET r == TLCEval(ScoreUses(o, b, V, all, p)) IN
                 (mean * FixDiv(r[1], z, 4)) \div 100 - FixDiv(r[2], z, 6)
  IN UNION { Chk(Near(At(o.d, m, p), want(p), tol), what) : p \in AllIdx(o.d, o.pot[b]) }

\* The same for a grammar, over its enumerated derivations; F holds f.
DerEv(d, len, der) ==
  LET inner == { nd \in der : nd[1] < nd[2] }
      rs == { <<nd[3], nd[4], nd[5]>> : nd \in inner }
  IN [terms |-> { <<nd[1], nd[3] - d.NT>> : nd \in der \ inner },
      rules |-> { <<r[1], r[2], r[3], Cardinality({ nd \in inner : nd[3] = r[1] /\ nd[4] = r[2] /\ nd[5] = r[3] })>> : r \in rs },
      root |-> RootSym(der, len)]
EvScore(V, ev) ==
  TotalOf(LAMBDA p : V.terms[p[1]][p[2]], ev.terms)
  + TotalOf(LAMBDA r : r[4] * V.rules[r[1]][r[2]][r[3]], ev.rules) + V.roots[ev.root]
Ders(o, b) ==      \* <<derivation, its uses, its score>>
  TLCEval(SetToSeq({ LET e == TLCEval(DerEv(o.d, o.lens[b], der)) IN <<der, e, EvScore(o.pot[b], e)>> :
                     der \in CfgDerivs(o.d, o.lens[b]) }))
BadCfgScoreCov(o, b, F, m, tol, what) ==
  LET d == o.d
      ds == SelectSeq(Ders(o, b), LAMBDA x : x[3] > -50)
      tab == TLCEval([i \in DOMAIN ds |-> <<Wt(ds[i][3]), Wt(ds[i][3]) * EvScore(F, ds[i][2])>>])
      z == SumInt([i \in DOMAIN ds |-> tab[i][1]])
      mean == FixDiv(SumInt([i \in DOMAIN ds |-> tab[i][2]]), z, 4)
      want(n(_)) == LET c == TLCEval([i \in DOMAIN ds |-> n(ds[i][2])]) IN
        (mean * FixDiv(SumInt([i \in DOMAIN ds |-> c[i] * tab[i][1]]), z, 4)) \div 100
        - FixDiv(SumInt([i \in DOMAIN ds |-> c[i] * tab[i][2]]), z, 6)
      rule(e, x) == TotalOf(LAMBDA r : r[4], { r \in e.rules : <<r[1], r[2], r[3]>> = x })
  IN UNION { Chk(Near(m.terms[i][t], want(LAMBDA e : IF <<i, t>> \in e.terms THEN 1 ELSE 0), tol), what) :
             i \in DOMAIN m.terms, t \in 1..d.T }
     \cup UNION { Chk(Near(m.roots[a], want(LAMBDA e : IF e.root = a THEN 1 ELSE 0), tol), what) : a \in 1..d.NT }
     \cup UNION { Chk(Near(m.rules[a][x][y], want(LAMBDA e : rule(e, <<a, x, y>>)), tol), what) :
             a \in 1..d.NT, x \in 1..(d.NT + d.T), y \in 1..(d.NT + d.T) }

\* Gradient of the entropy (bits): minus the covariance of the total score and a part.
BadGradEntropy(o, q) ==
  ForB(o, LAMBDA b :
    IF o.d.fam = "cfg" THEN BadCfgScoreCov(o, b, o.pot[b], q.m[b], q.tol, "entropy gradient")
    ELSE BadScoreCov(o, b, DualPot(o.d, o.pot[b]), q.m[b], q.tol, "entropy gradient"))

\* Gradient of the cross-entropy or divergence (bits).  With respect to the distribution
\* itself: minus the covariance of each part and the other's score (cross-entropy) or its
\* score less the own (divergence).  With respect to the other: its marginals less the own.
BadGradCross(o, u, q) ==
  ForB(o, LAMBDA b :
    LET f(e, g) == IF q.kind = "kl" THEN g - e ELSE g
        len == o.lens[b]
        wo == W(o, b)  wu == W(u, b)
        zo == Inside(SR("std"), o.d, len, wo)  zu == Inside(SR("std"), o.d, len, wu)
        m == q.m[b]
        uo == TLCEval(CfgUses(o.d, len, wo))  uu == TLCEval(CfgUses(o.d, len, wu))
        far(x, y, z1, z2) == FixDiv(y, z2, 6) - FixDiv(x, z1, 6)
    IN IF q.side = "own" THEN
         IF o.d.fam = "cfg" THEN BadCfgScoreCov(o, b, Pair2(o.d, o.pot[b], u.pot[b], f), m, q.tol, "own gradient")
         ELSE BadScoreCov(o, b, TLCEval(Pair2(o.d, o.pot[b], u.pot[b],
                LAMBDA e, g : IF e < -50 THEN <<0, 0>> ELSE <<Wt(e), f(e, g) * Wt(e)>>)), m, q.tol, "own gradient")
       ELSE IF o.d.fam = "cfg" THEN
         UNION { Chk(Near(m.terms[i][t], IF i > len THEN 0 ELSE far(uo.terms[i][t], uu.terms[i][t], zo, zu), q.tol), "other gradient") :
                 i \in DOMAIN m.terms, t \in 1..o.d.T }
         \cup UNION { Chk(Near(m.roots[a], far(uo.roots[a], uu.roots[a], zo, zu), q.tol), "other gradient") : a \in 1..o.d.NT }
         \cup UNION { Chk(Near(m.rules[a][x][y], far(uo.rules[a][x][y], uu.rules[a][x][y], zo, zu), q.tol), "other gradient") :
                 a \in 1..o.d.NT, x \in 1..(o.d.NT + o.d.T), y \in 1..(o.d.NT + o.d.T) }
       ELSE UNION { Chk(Near(At(o.d, m, p), Prob(u, b, wu, zu, p) - Prob(o, b, wo, zo, p), q.tol), "other gradient") :
                    p \in AllIdx(o.d, o.pot[b]) })

\* Gradients of the k best scores of a grammar: the uses of its k best derivations.
BadBestUses(o, q) ==
  ForB(o, LAMBDA b :
    LET kb == TLCEval(KBest(o, b, q.k))
        n == Len(kb)
        ds == Ders(o, b)
        ev(i) == [terms |-> AsSet(q.ev[i][b].terms), rules |-> AsSet(q.ev[i][b].rules), root |-> q.ev[i][b].roots[1]]
        fits(i) == { j \in DOMAIN ds : ds[j][2] = ev(i) /\ ds[j][3] = kb[i] }
    IN IF \E i \in 1..n : ~q.clean[i][b] \/ Len(q.ev[i][b].roots) # 1 THEN {"indicator"}
       ELSE Chk(\A i \in 1..n : fits(i) # {}, "rank")
            \cup Chk(\A i \in 1..n : Cardinality({ j \in 1..n : ev(j) = ev(i) /\ kb[j] = kb[i] })
                                      <= Cardinality(fits(i)), "distinct"))

\* sum w_p(S) f(S) with f the score under q (cross-entropy) or the score difference (KL)
BadCross(o, u, q) ==
  ForB(o, LAMBDA b :
    LET g(e, f) == IF e < -50 THEN <<0, Wt(f), 0>> ELSE
                   <<Wt(e), Wt(f), (IF q.op = "kl" THEN f - e ELSE f) * Wt(e)>>
        m == CfgMean(o.d, o.lens[b], Pair2(o.d, o.pot[b], u.pot[b], LAMBDA e, f : IF q.op = "kl" THEN f - e ELSE f), W(o, b))
        v == IF o.d.fam = "cfg" THEN <<m[1], Z(u, b), m[2]>>
             ELSE Inside(SR("ce"), o.d, o.lens[b], TLCEval(Pair2(o.d, o.pot[b], u.pot[b], g)))
    IN Chk(q.zp[b] = v[1] /\ q.zq[b] = v[2], "normaliser") \cup Chk(In(v[3], q.lo[b], q.hi[b]), q.op))

(***************************************************************************)
(* Log-probability                                                         *)
(***************************************************************************)
BadLogProb(o, q) ==
  UNION { LET it == q.items[i]  b == it.b
              w == W(o, b)  z == Inside(SR("std"), o.d, o.lens[b], w)
              s == IF o.d.fam = "cfg" THEN CfgScore(o.pot[b], it.ev) ELSE Score(o.d, o.pot[b], AsSet(it.parts))
          IN Chk(Near(it.p, FixDiv(Wt(s), z, 6), q.tol), "logprob")
             \* it.s is the log-probability turned back into a score with the normaliser zi
             \cup (IF "zi" \notin DOMAIN q THEN {} ELSE Chk(q.zi[b] = z, "normaliser") \cup
                  Chk(it.s = s \/ ("par" \in DOMAIN o /\ it.s < -50 /\ s < -50), "score")) :
          i \in DOMAIN q.items }
  \* every valid structure of element q.all was listed exactly once: probabilities sum to one
  \cup (IF "all" \notin DOMAIN q THEN {} ELSE
        LET b == q.all
            mine == SelectSeq(q.items, LAMBDA it : it.b = b)
        IN IF o.d.fam = "cfg" THEN      \* every batch element repeats one grammar; together they list every tree
             Chk(Len(q.items) = CfgInside(SR("std"), o.d, o.lens[b], MapV(o.d, LAMBDA e : 1, o.pot[b]))
                 /\ Cardinality({ <<AsSet(q.items[i].ev.spans), AsSet(q.items[i].ev.terms)>> : i \in DOMAIN q.items }) = Len(q.items)
                 /\ \A i \in DOMAIN q.items : CfgEventOK(o.d, o.lens[b], q.items[i].ev), "cover")
             \cup Chk(Near(SumInt([i \in DOMAIN q.items |-> q.items[i].p]), 1000000, q.tol * (Len(q.items) + 2)), "total")
           ELSE
           Chk(Len(mine) * EventMult(o.d, o.lens[b]) = Inside(SR("std"), o.d, o.lens[b], MapV(o.d, LAMBDA e : 1, o.pot[b]))
               /\ Cardinality({ AsSet(mine[i].parts) : i \in DOMAIN mine }) = Len(mine)
               /\ \A i \in DOMAIN mine : IsStruct(o.d, o.lens[b], AsSet(mine[i].parts)), "cover")
           \cup Chk(Near(SumInt([i \in DOMAIN mine |-> mine[i].p]) * EventMult(o.d, o.lens[b]),
                         1000000, q.tol * (Len(mine) + 2) * EventMult(o.d, o.lens[b])), "total"))

(***************************************************************************)
(* Random draws.  hist[b] lists the distinct events drawn with their       *)
(* counts out of q.S draws.  A count n of an event of probability w/Z is   *)
(* rejected outside six standard deviations plus four counts.              *)
(***************************************************************************)
RECURSIVE ISqrtR(_, _)
ISqrtR(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtR(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtR(n, IF n > 46340 * 46340 THEN 46340 ELSE Min2(n, 46340))

LawOK(n, S, w, z) ==     \* needs S * w * (z - w) < 2^31
  Abs(n * z - S * w) <= 6 * (ISqrt(S * w * (z - w)) + 1) + 4 * z

CountOf(h, X) == SumInt([i \in DOMAIN h |-> IF AsSet(h[i].parts) = X THEN h[i].n ELSE 0])

BadDrawsCfg(o, q) ==
  ForB(o, LAMBDA b :
    LET h == q.hist[b]
        z == Inside(SR("std"), o.d, o.lens[b], W(o, b))
        sc(i) == CfgScore(o.pot[b], h[i].ev)
    IN IF \E i \in DOMAIN h : ~h[i].clean THEN {"indicator"}
       ELSE IF \E i \in DOMAIN h : ~CfgEventOK(o.d, o.lens[b], h[i].ev) THEN {"structure"}
       ELSE Chk(SumInt([i \in DOMAIN h |-> h[i].n]) = q.S, "number")
            \cup Chk(\A i \in DOMAIN h : sc(i) > -50, "support")
            \cup (IF ~q.law THEN {} ELSE
                  Chk(\A i \in DOMAIN h : LawOK(h[i].n, q.S, Wt(sc(i)), z), "law")))

BadDraws(o, q) ==
  IF o.d.fam = "cfg" THEN BadDrawsCfg(o, q) ELSE
  ForB(o, LAMBDA b :
    LET h == q.hist[b]
        bad == UNION { BadEvent(o, b, h[i].clean, h[i].parts) : i \in DOMAIN h }
        w == W(o, b)
    IN IF bad # {} THEN bad
       ELSE Chk(SumInt([i \in DOMAIN h |-> h[i].n]) = q.S, "number")
            \cup Chk(\A i \in DOMAIN h : Fold(SR("std"), o.d, w, AsSet(h[i].parts)) > 0, "support")
            \cup (IF ~q.law THEN {} ELSE
                  LET z == Inside(SR("std"), o.d, o.lens[b], w)
                      X == Structs(o.d, o.lens[b])
                      m == EventMult(o.d, o.lens[b])
                  IN Chk(\A s \in X : LawOK(CountOf(h, s), q.S, m * Fold(SR("std"), o.d, w, s), z), "law")))

\* Agreement of draws of elements b and c (or of successive draws when b = c).
BadIndep(o, q) ==
  LET wb == W(o, q.b)  wc == W(o, q.c)
      zb == Z(o, q.b)  zc == Z(o, q.c)
      X == Structs(o.d, o.lens[q.b]) \cap Structs(o.d, o.lens[q.c])
      m == EventMult(o.d, o.lens[q.b])
      a == TotalOf(LAMBDA s : Fold(SR("std"), o.d, wb, s) * Fold(SR("std"), o.d, wc, s), X) * m * m
  IN Chk(LawOK(q.agree, q.S, a, zb * zc), "independent")

\* Empirical marginal of single parts, for shapes too large to enumerate.
BadDrawMarg(o, q) ==
  ForB(o, LAMBDA b :
    LET w == W(o, b)  z == Inside(SR("std"), o.d, o.lens[b], w) IN
    UNION { LET n == At(o.d, q.n[b], p) IN
            IF Inner(o.d, o.lens[b], p) THEN
               LET u == FixDiv(Uses(o, b, w, z, p), z, 3) IN
               Chk(Abs(n * 1000 - q.S * u) <= 6 * (ISqrt(q.S * u * (1000 - u)) + 1) + 4000 + 2 * q.S, "law")
            ELSE Chk(n = 0, "outside") : p \in AllIdx(o.d, o.pot[b]) })
=============================================================================
