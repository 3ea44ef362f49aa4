------------------------------ MODULE Adapters ------------------------------
(***************************************************************************)
(* Hidden Markov and hidden semi-Markov models as chain and segment        *)
(* distributions.  A model is written down as the factors of its joint     *)
(* probability (symbols); AdapterCheck proves that the factors collected   *)
(* edge by edge are those of the textbook joint, and Trace gives each      *)
(* symbol the recorded parameter.                                          *)
(*                                                                         *)
(*   <<"in", z>>        initial           <<"tr", z, y>>  from y to z      *)
(*   <<"em", x, z>>     emission (HMM)    <<"du", z, k>>  duration         *)
(*   <<"se", n, k, z>>  emission of the k observations from n on (HSMM)    *)
(***************************************************************************)
EXTENDS Struct

HmmEdge(obs, n, i, j) ==
  << <<"tr", i, j>>, <<"em", obs[n + 1], i>> >>
  \o (IF n = 1 THEN << <<"in", j>>, <<"em", obs[1], j>> >> ELSE << >>)
HmmJoint(obs, z) ==
  << <<"in", z[1]>> >>
  \o [n \in 1..(Len(z) - 1) |-> <<"tr", z[n + 1], z[n]>>]
  \o [n \in 1..Len(z) |-> <<"em", obs[n], z[n]>>]

HsmmEdge(n, k, i, j) ==
  << <<"tr", i, j>>, <<"du", i, k>>, <<"se", n, k, i>> >>
  \o (IF n = 1 THEN << <<"in", j>> >> ELSE << >>)
\* s.y[1] is the auxiliary state before the first segment.
HsmmJoint(s) ==
  << <<"in", s.y[1]>> >>
  \o [m \in DOMAIN s.w |-> <<"tr", s.y[m + 1], s.y[m]>>]
  \o [m \in DOMAIN s.w |-> <<"du", s.y[m + 1], s.w[m]>>]
  \o [m \in DOMAIN s.w |-> <<"se", Start(s.w, m), s.w[m], s.y[m + 1]>>]

SameBag(s, t) ==
  Len(s) = Len(t) /\ \A i \in DOMAIN s :
     Cardinality({ k \in DOMAIN s : s[k] = s[i] }) = Cardinality({ k \in DOMAIN t : t[k] = s[i] })

\* Parameters of recorded objects (1-based; durations 0..K-1 are stored at k+1;
\* HSMM transitions are written from-to).
HmmPar(p, s) ==
  CASE s[1] = "in" -> p.init[s[2]]
    [] s[1] = "tr" -> p.trans[s[2]][s[3]]
    [] s[1] = "em" -> p.em[s[2]][s[3]]
HsmmPar(p, b, s) ==
  CASE s[1] = "in" -> IF p.shared THEN p.init[s[2]] ELSE p.init[b][s[2]]
    [] s[1] = "tr" -> p.trans[s[3]][s[2]]
    [] s[1] = "du" -> p.dur[s[2]][s[3] + 1]
    [] s[1] = "se" -> p.em[b][s[2]][s[3] + 1][s[4]]

Total(par(_), t) == SumInt([i \in DOMAIN t |-> par(t[i])])
\* Sums of forbidden parameters stay forbidden.
Cut(x) == IF x < -50 THEN -100 ELSE x

HmmPot(o, b) ==
  LET p == o.par  C == o.d.C IN
  TLCEval([n \in 1..(o.N - 1) |-> TLCEval([i \in 1..C |-> TLCEval([j \in 1..C |->
     Cut(Total(LAMBDA s : HmmPar(p, s), HmmEdge(p.obs[b], n, i, j)))])])])
HsmmPot(o, b) ==
  LET p == o.par  C == o.d.C IN
  TLCEval([n \in 1..(o.N - 1) |-> TLCEval([k \in 1..o.d.K |-> TLCEval([i \in 1..C |-> TLCEval([j \in 1..C |->
     Cut(Total(LAMBDA s : HsmmPar(p, b, s), HsmmEdge(n, k - 1, i, j)))])])])])

Adapted(o) ==
  [pot |-> TLCEval([b \in 1..o.B |-> IF o.d.fam = "chain" THEN HmmPot(o, b) ELSE HsmmPot(o, b)])] @@ o
=============================================================================
