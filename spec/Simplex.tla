------------------------------ MODULE Simplex -------------------------------
(***************************************************************************)
(* Euclidean projection onto the simplex by sorting: with the scores in    *)
(* descending order v1 >= v2 >= ..., keep the largest r with               *)
(* 1 + r v_r > v1 + ... + v_r,  t = (v1 + ... + v_r - 1)/r, and            *)
(* w_i = max(v_i - t, 0).  Scores are multiples of 1/Den.  One state per   *)
(* vector.                                                                 *)
(***************************************************************************)
EXTENDS Tensor
CONSTANTS MaxN, Lo, Hi, Den, Fault
VARIABLE v
Init == v \in UNION { [1..n -> (-Lo)..Hi] : n \in 1..MaxN }
Next == FALSE /\ UNCHANGED v
n == Len(v)
\* everything below is scaled by Den (and by r where divided by it)
Srt(x) == SortSeq(x, LAMBDA a, b : a > b)
Pre(x, r) == SumInt(SubSeq(Srt(x), 1, r))
Keep(x, r) == IF Fault = "count" THEN TRUE
              ELSE Den + r * Srt(x)[r] > Pre(x, r)
Size(x) == Max({ r \in 1..Len(x) : Keep(x, r) })
\* projection, times Size(x) * Den
Proj(x) == LET r == Size(x)  t == Pre(x, r) - Den IN [i \in DOMAIN x |-> Max2(r * x[i] - t, 0)]
r0 == Size(v)
w == Proj(v)

OnSimplex == SumInt(w) = r0 * Den /\ \A i \in 1..n : w[i] >= 0
Support == Cardinality({ i \in 1..n : w[i] > 0 }) = r0
\* No point of the grid of simplex points with denominator r0*Den is closer.
Dist(x) == SumInt([i \in 1..n |-> (x[i] - r0 * v[i]) * (x[i] - r0 * v[i])])
Grid == IF n = 1 THEN { <<r0 * Den>> }
        ELSE { x \in [1..n -> 0..(r0 * Den)] : SumInt(x) = r0 * Den }
Closest == n <= 3 => \A x \in Grid : Dist(w) <= Dist(x)
\* the conditions the recorded projections are judged by accept it ...
Fixed == [i \in 1..n |-> FixDiv(w[i], r0 * Den, 6)]
Accepted == BadSimplexRow(v, Fixed, Den, 3) = {}
\* ... and nothing else on the grid
Unique == n <= 3 => \A x \in Grid : x = w \/ BadSimplexRow(v, [i \in 1..n |-> FixDiv(x[i], r0 * Den, 6)], Den, 3) # {}
\* Between two scores with one support the projection moves along its slope.
Moves ==
  /\ InSupport(v, Den) = { i \in 1..n : w[i] > 0 }
  /\ \A i \in 1..n :
       LET v2 == [v EXCEPT ![i] = @ + 1]
           u == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
       IN (InSupport(v2, Den) = InSupport(v, Den)) =>
            \A j \in 1..n : Proj(v2)[j] - w[j] = (IF Fault = "slope" THEN r0 * u[j] ELSE Slope(v, Den, u)[j])
\* Order, ties and a common offset
Ordered == \A i, j \in 1..n : v[i] >= v[j] => w[i] >= w[j]
=============================================================================
