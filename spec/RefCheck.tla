------------------------------ MODULE RefCheck ------------------------------
(***************************************************************************)
(* The recurrences of Ref equal its definitions: in the free semiring the  *)
(* generating polynomial is exactly one monomial per structure, and the    *)
(* predicates accept exactly the enumerated structures.  One state per     *)
(* (family, dimensions, length).                                           *)
(***************************************************************************)
EXTENDS Struct
CONSTANT Deep
VARIABLE c
D(f, C, K, L, r) == [fam |-> f, C |-> C, K |-> K, L |-> L, NT |-> 0, T |-> 0, root |-> r]
G(nt, t) == [fam |-> "cfg", C |-> 0, K |-> 0, L |-> 0, NT |-> nt, T |-> t, root |-> "multi"]
Big == IF Deep THEN 1 ELSE 0
Cases ==
  { <<D("chain", C, 0, 0, "multi"), n>> : C \in 1..(2 + Big), n \in 1..4 }
  \cup { <<D("semi", C, K, 0, "multi"), n>> : C \in 1..2, K \in 2..4, n \in 1..(4 + Big) }
  \cup { <<D(f, 0, 0, 0, r), n>> : f \in {"dep", "np"}, r \in {"multi", "single"}, n \in 1..4 }
  \cup { <<D("depl", 0, 0, L, r), n>> : L \in 1..2, r \in {"multi", "single"}, n \in 1..(2 + Big) }
  \cup { <<D("span", C, 0, 0, "multi"), n>> : C \in 1..2, n \in 1..(2 + Big) }
  \cup { <<D("span", 1, 0, 0, "multi"), n>> : n \in 3..5 }
  \cup { <<G(nt, t), n>> : nt \in 1..2, t \in 1..2, n \in 2..(3 + Big) }
Init == c \in Cases
Next == FALSE /\ UNCHANGED c
One1(p) == <<{p}>>
Vars(d, n) ==
  CASE d.fam = "chain" -> [m \in 1..(n - 1) |-> [i \in 1..d.C |-> [j \in 1..d.C |-> One1(<<m, i, j>>)]]]
    [] d.fam = "semi"  -> [m \in 1..(n - 1) |-> [k \in 1..d.K |-> [i \in 1..d.C |-> [j \in 1..d.C |-> One1(<<m, k, i, j>>)]]]]
    [] d.fam \in {"dep", "np"} -> [h \in 1..n |-> [x \in 1..n |-> One1(<<h, x>>)]]
    [] d.fam = "depl"  -> [h \in 1..n |-> [x \in 1..n |-> [l \in 1..d.L |-> One1(<<h, x, l>>)]]]
    [] d.fam = "span"  -> [i \in 1..n |-> [j \in 1..n |-> [a \in 1..d.C |-> One1(<<i, j, a>>)]]]
Poly(d, n) == Inside(SR("free"), d, n, Vars(d, n))
PolyOK(d, n) ==
  LET q == Poly(d, n)  s == Structs(d, n) IN
  /\ { q[i] : i \in DOMAIN q } = s
  /\ Len(q) = Cardinality(s) * EventMult(d, n)

AllParts(d, n) ==
  CASE d.fam = "chain" -> (1..(n - 1)) \X (1..d.C) \X (1..d.C)
    [] d.fam = "semi"  -> (1..(n - 1)) \X (1..d.K) \X (1..d.C) \X (1..d.C)
    [] d.fam \in {"dep", "np"} -> (1..n) \X (1..n)
    [] d.fam = "depl"  -> (1..n) \X (1..n) \X (1..d.L)
    [] d.fam = "span"  -> (1..n) \X (1..n) \X (1..d.C)
PredOK(d, n) ==
  LET all == AllParts(d, n)  s == Structs(d, n) IN
  /\ \A m \in s : IsStruct(d, n, m)
  /\ Cardinality(all) <= (IF Deep THEN 12 ELSE 9) =>
       \A m \in SUBSET all : IsStruct(d, n, m) => m \in s

\* Grammars: distinct weights modulo P instead of the free semiring.
CV(d, n) == [terms |-> [i \in 1..n |-> [t \in 1..d.T |-> (1009 * i + 37 * t * t + 11) % P]],
             rules |-> [a \in 1..d.NT |-> [b \in 1..(d.NT + d.T) |-> [x \in 1..(d.NT + d.T) |->
                          (7919 * a + 523 * b * b + 97 * x * x * x + a * b * x) % P]]],
             roots |-> [a \in 1..d.NT |-> 31 * a + 5]]
NodeW(d, V, nd) == IF Len(nd) = 3 THEN V.terms[nd[1]][nd[3] - d.NT] ELSE V.rules[nd[3]][nd[4]][nd[5]]
RECURSIVE DerW(_, _, _)
DerW(d, V, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN (NodeW(d, V, x) * DerW(d, V, S \ {x})) % P
DerStd(d, V, S) == LET s == SetToSeq(S) IN ProdR(SR("std"), [i \in 1..Len(s) |-> NodeW(d, V, s[i])], 1, Len(s))
RECURSIVE DerSum(_, _, _, _)
DerSum(d, V, n, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN
   (((DerW(d, V, x) * V.roots[RootSym(x, n)]) % P) + DerSum(d, V, n, X \ {x})) % P
GrammarSum(d, n) == CfgInside(SR("mod"), d, n, CV(d, n)) = DerSum(d, CV(d, n), n, CfgDerivs(d, n))
\* Inside-outside uses equal first-order (dual number) uses.
SW(d, n) == [terms |-> [i \in 1..n |-> [t \in 1..d.T |-> 1 + ((i + 2 * t) % 3)]],
             rules |-> [a \in 1..d.NT |-> [b \in 1..(d.NT + d.T) |-> [x \in 1..(d.NT + d.T) |-> (a + 2 * b + 3 * x * x) % 4]]],
             roots |-> [a \in 1..d.NT |-> a]]
GrammarUses(d, n) ==
  LET V == SW(d, n)
      u == CfgUses(d, n, V)
      du(kind, p) == CfgInside(SR("dual"), d, n, TLCEval(Dual(d, V, kind, p)))[2]
      E == [terms |-> Map2(LAMBDA w : w \div 2, V.terms), rules |-> Map3(LAMBDA w : w \div 2, V.rules), roots |-> V.roots]
      X == [terms |-> Map2(LAMBDA w : <<w, w * (w \div 2)>>, V.terms), rules |-> Map3(LAMBDA w : <<w, w * (w \div 2)>>, V.rules),
            roots |-> Map1(LAMBDA w : <<w, w * w>>, V.roots)]
  IN /\ CfgMean(d, n, E, V) = CfgInside(SR("dual"), d, n, TLCEval(X))
     /\ \A i \in 1..n, t \in 1..d.T : u.terms[i][t] = du("t", <<i, t>>)
     /\ \A a \in 1..d.NT, x, y \in 1..(d.NT + d.T) : u.rules[a][x][y] = du("r", <<a, x, y>>)
     /\ \A a \in 1..d.NT : u.roots[a] = du("s", <<a>>)
     /\ LET dv == CfgDerivs(d, n) IN
        \A w \in 2..n, i \in 1..n, a \in 1..d.NT : i + w - 1 <= n =>
          u.spans[w][i][a] = TotalOf(LAMBDA x : DerStd(d, V, x) * V.roots[RootSym(x, n)],
             { x \in dv : \E nd \in x : nd[1] = i /\ nd[2] = i + w - 1 /\ nd[3] = a })

\* The determinant counts every spanning tree once, with its weight.
NW(k, n) == [h \in 1..n |-> [x \in 1..n |-> (h * h * (k + 3) + 5 * x + k * h * x + k) % 4]]
MatrixTree(d, n) ==
  \A k \in 0..5 : LET w == Definition(SR("std"), d, n, NW(k, n)) IN NpDet(d, n, NW(k, n)) = w /\ NpFew(d, n, NW(k, n)) = w

Sound == IF c[1].fam = "cfg" THEN GrammarSum(c[1], c[2]) /\ GrammarUses(c[1], c[2]) ELSE
  PolyOK(c[1], c[2]) /\ PredOK(c[1], c[2]) /\ (c[1].fam = "np" => MatrixTree(c[1], c[2]))
=============================================================================
