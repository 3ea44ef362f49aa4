-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The algebra every semiring must satisfy, over a small carrier of each.  *)
(* The entropy, cross-entropy and KL semirings of the library keep         *)
(* (log Z, H) and its like; the carrier here is the exact pair (Z, A) it   *)
(* represents.  One state per semiring and first operand.                  *)
(***************************************************************************)
EXTENDS Semiring
CONSTANTS Kinds, Size
VARIABLE c
Seqs(k) == UNION { { s \in [1..n -> (-1)..Size] : \A i \in 1..(n - 1) : s[i] >= s[i + 1] } : n \in 0..k }
Carrier(s) ==
  CASE s = "std" -> 0..(Size + 2)
    [] s = "mod" -> {0, 1, 2, 3, P - 1, P - 2}
    [] s \in {"max", "maxslip"} -> {NEG} \cup (-2)..Size
    [] s = "min" -> {POS} \cup (-2)..Size
    [] s = "btl" -> {NEG, POS} \cup (-2)..Size
    [] s = "bool" -> {0, 1}
    [] s \in {"kmax1", "kmax2", "kmax3"} -> Seqs(CASE s = "kmax1" -> 1 [] s = "kmax2" -> 2 [] OTHER -> 3)
    [] s \in {"dual", "naive"} -> (0..Size) \X (-1..Size)
    [] s = "ce" -> (0..1) \X (0..1) \X (0..Size)
    [] s = "free" -> { << >>, <<{}>>, <<{1}>>, <<{2}, {1}>>, <<{1}, {1}>> }
Of(s) == CASE s = "kmax1" -> KMax(1) [] s = "kmax2" -> KMax(2) [] s = "kmax3" -> KMax(3)
           [] s = "naive" -> SR("dual") [] s = "maxslip" -> SR("max") [] OTHER -> SR(s)
\* two tempting mistakes: an entropy pair whose second part just adds; minus infinity as an ordinary number
Pl(s, a, b) == Plus(Of(s), a, b)
Tm(s, a, b) == IF s = "naive" THEN <<a[1] * b[1], a[2] + b[2]>>
               ELSE IF s = "maxslip" THEN a + b
               ELSE Times(Of(s), a, b)
\* free is commutative only as a bag
Same(s, a, b) == IF s = "free" THEN Len(a) = Len(b) /\ \A x \in { a[i] : i \in DOMAIN a } \cup { b[i] : i \in DOMAIN b } :
                    Cardinality({ i \in DOMAIN a : a[i] = x }) = Cardinality({ i \in DOMAIN b : b[i] = x })
                 ELSE a = b
Init == \E s \in Kinds : \E a \in Carrier(s) : c = <<s, a>>
Next == FALSE /\ UNCHANGED c
Units == LET s == c[1]  a == c[2] IN
  /\ Same(s, Pl(s, a, Zero(Of(s))), a) /\ Same(s, Pl(s, Zero(Of(s)), a), a)
  /\ Same(s, Tm(s, a, One(Of(s))), a) /\ Same(s, Tm(s, One(Of(s)), a), a)
Annihilates == LET s == c[1]  a == c[2] IN
  Same(s, Tm(s, a, Zero(Of(s))), Zero(Of(s))) /\ Same(s, Tm(s, Zero(Of(s)), a), Zero(Of(s)))
Commutes == LET s == c[1]  a == c[2] IN
  \A b \in Carrier(s) : Same(s, Pl(s, a, b), Pl(s, b, a)) /\ Same(s, Tm(s, a, b), Tm(s, b, a))
Associates == LET s == c[1]  a == c[2] IN
  \A b, x \in Carrier(s) : /\ Same(s, Pl(s, Pl(s, a, b), x), Pl(s, a, Pl(s, b, x)))
                           /\ Same(s, Tm(s, Tm(s, a, b), x), Tm(s, a, Tm(s, b, x)))
Distributes == LET s == c[1]  a == c[2] IN
  \A b, x \in Carrier(s) : Same(s, Tm(s, a, Pl(s, b, x)), Pl(s, Tm(s, a, b), Tm(s, a, x)))
\* Idempotent semirings select one of their operands, the others do not forget.
Selects == LET s == c[1]  a == c[2] IN
  s \in {"max", "min", "btl", "bool"} => \A b \in Carrier(s) : Pl(s, a, b) \in {a, b}
=============================================================================
