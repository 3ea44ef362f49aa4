------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The short cuts by which Struct judges queries of grammars, against their*)
(* definitions as sums over the enumerated derivations: weighted uses of   *)
(* terminals, rules, roots and labelled spans (inside and outside weights),*)
(* mean score, k-best list, count; and the predicate on events against the *)
(* set of events that derivations have.  One state per grammar size,       *)
(* sentence length and table of potentials.                                *)
(***************************************************************************)
EXTENDS Struct
CONSTANTS Deep, Fault
VARIABLE c
G(nt, t) == [fam |-> "cfg", C |-> 0, K |-> 0, L |-> 0, NT |-> nt, T |-> t, root |-> "multi"]
Shapes == { <<G(1, 1), n>> : n \in 2..(IF Deep THEN 6 ELSE 5) }
          \cup { <<G(nt, t), n>> : nt \in 1..2, t \in 1..2, n \in 2..(IF Deep THEN 4 ELSE 3) }
          \cup { <<G(1, 2), 4>>, <<G(2, 1), 4>>, <<G(3, 1), 3>>, <<G(1, 3), 3>> }
          \cup (IF Deep THEN { <<G(1, 2), 5>>, <<G(2, 1), 5>>, <<G(3, 2), 3>>, <<G(3, 1), 4>> } ELSE {})
Init == c \in { <<s[1], s[2], k>> : s \in Shapes, k \in 1..(IF Deep THEN 5 ELSE 3) }
Next == FALSE /\ UNCHANGED c

d0 == c[1]
n0 == c[2]
NS == d0.NT + d0.T
\* Small potentials with some of weight zero; table 1 has none.
E(h) == IF c[3] > 1 /\ h % 7 = c[3] THEN -100 ELSE (h * h + c[3] * h + 3 * c[3]) % 3
V == TLCEval([terms |-> TLCEval([i \in 1..n0 |-> TLCEval([t \in 1..d0.T |-> E(3 * i + 2 * t)])]),
              rules |-> TLCEval([a \in 1..d0.NT |-> TLCEval([x \in 1..NS |-> TLCEval([y \in 1..NS |-> E(5 * a + 3 * x + 2 * y)])])]),
              roots |-> TLCEval([a \in 1..d0.NT |-> E(11 * a)])])
o == [d |-> d0, B |-> 1, lens |-> <<n0>>, pot |-> <<V>>]
w == W(o, 1)
ds == Ders(o, 1)
live == SelectSeq(ds, LAMBDA x : x[3] > -50)
wgt(x) == Pow2(x[3])
\* Σ over the derivations of weight times f
Sum(l, f(_)) == SumInt([i \in DOMAIN l |-> f(l[i]) * wgt(l[i])])

Inner2(x) == { nd \in x[1] : nd[1] < nd[2] }
Uses2 ==
  LET u == TLCEval(CfgUses(d0, n0, w))  l == TLCEval(live) IN
  /\ \A i \in 1..n0, t \in 1..d0.T : u.terms[i][t] = Sum(l, LAMBDA x : IF <<i, i, d0.NT + t>> \in x[1] THEN 1 ELSE 0)
  /\ \A a \in 1..d0.NT : u.roots[a] = Sum(l, LAMBDA x : IF RootSym(x[1], n0) = a THEN 1 ELSE 0)
  /\ \A k \in 2..n0 : \A i \in 1..(n0 - k + 1), a \in 1..d0.NT :
       u.spans[k][i][a] = Sum(l, LAMBDA x : IF \E nd \in Inner2(x) : nd[1] = i /\ nd[2] = i + k - 1 /\ nd[3] = a THEN 1 ELSE 0)
  /\ \A a \in 1..d0.NT, y, z \in 1..NS :
       u.rules[a][y][z] = Sum(l, LAMBDA x : LET m == Cardinality({ nd \in Inner2(x) : nd[3] = a /\ nd[4] = y /\ nd[5] = z })
                                         IN IF Fault = "once" THEN Min2(m, 1) ELSE m)
Mean ==
  LET v == TLCEval(CfgMean(d0, n0, V, w))  l == TLCEval(live) IN
  /\ v[1] = Sum(l, LAMBDA x : 1)
  /\ v[1] = CfgInside(SR("std"), d0, n0, w)
  /\ v[2] = Sum(l, LAMBDA x : IF Fault = "root" THEN x[3] - V.roots[RootSym(x[1], n0)] ELSE x[3])
Best ==
  LET l == TLCEval(live)
      rank == TLCEval(SortSeq([i \in DOMAIN l |-> l[i][3]], >)) IN
  \A k \in 1..4 :
    LET kb == SelectSeq(KBest(o, 1, k), LAMBDA e : e > -50)
        m == Min2(k, Len(rank)) IN
    /\ Len(kb) = m
    /\ \A i \in 1..m : kb[i] = rank[i]
    /\ (k = 1 /\ m > 0) => kb[1] = MaxOf(o, 1)
Number == CfgInside(SR("std"), d0, n0, TLCEval(MapV(d0, LAMBDA e : IF e < -50 THEN 0 ELSE 1, V))) = Len(live)

\* Events: one per derivation, accepted with its score; a change of one entry is refused.
Ev(x) ==
  [spans |-> SetToSeq({ <<nd[1], nd[2], nd[3]>> : nd \in Inner2(x) }),
   terms |-> SetToSeq(x[2].terms), rules |-> SetToSeq(x[2].rules), roots |-> <<x[2].root>>]
OK(e) == IF Fault = "event" THEN SpansTree(n0, e) ELSE CfgEventOK(d0, n0, e)
Swap(s, i, v) == [s EXCEPT ![i] = v]
Slips(ev) ==
  { [ev EXCEPT !.roots = <<a>>] : a \in (1..d0.NT) \ {ev.roots[1]} }
  \cup { [ev EXCEPT !.roots = << >>] }
  \cup { [ev EXCEPT !.spans = Swap(ev.spans, i, <<ev.spans[i][1], ev.spans[i][2], a>>)] : i \in DOMAIN ev.spans, a \in 1..d0.NT }
  \cup { [ev EXCEPT !.rules = Swap(ev.rules, i, <<ev.rules[i][1], ev.rules[i][2], ev.rules[i][3], m>>)] :
         i \in DOMAIN ev.rules, m \in 1..(n0 - 1) }
  \cup { [ev EXCEPT !.terms = Swap(ev.terms, i, <<ev.terms[i][1], t>>)] : i \in DOMAIN ev.terms, t \in 1..d0.T }
  \cup { [ev EXCEPT !.terms = Swap(ev.terms, i, <<j, ev.terms[i][2]>>)] : i \in DOMAIN ev.terms, j \in 1..n0 }
Events ==
  LET dd == TLCEval(ds)
      T == TLCEval(V)
      all == TLCEval({ Ev(dd[i]) : i \in DOMAIN dd })
      seen == TLCEval({ <<AsSet(f.spans), AsSet(f.terms), AsSet(f.rules), f.roots>> : f \in all }) IN
  /\ Cardinality({ <<AsSet(e.spans), AsSet(e.terms)>> : e \in all }) = Len(dd)
  /\ \A i \in DOMAIN dd : LET e == TLCEval(Ev(dd[i])) IN
       /\ CfgEventOK(d0, n0, e)
       /\ CfgScore(T, e) = dd[i][3]
       /\ \A s \in Slips(e) \ {e} : OK(s) =>
             <<AsSet(s.spans), AsSet(s.terms), AsSet(s.rules), s.roots>> \in seen
\* A derivation is recovered from its spans and one choice of terminals (k-best lists give only the spans).
Terms2 ==
  LET dd == TLCEval(ds)  T == TLCEval(V) IN
  \A i \in DOMAIN dd :
    LET sp == TLCEval(Ev(dd[i]).spans) IN
    \E t \in TermAssign(d0, n0) : CfgScore(T, WithTerms(d0, n0, sp, t)) = dd[i][3]
=============================================================================
