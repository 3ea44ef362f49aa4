-------------------------------- MODULE Shard -------------------------------
(***************************************************************************)
(* A matrix product computed in pieces, and its gradient recomputed in the *)
(* same pieces.  The operands are stretched to the common batch shape and  *)
(* flattened to rows; each step treats the next Step rows; stretched       *)
(* dimensions of a gradient are summed at the end.  Matrices are 1x1 here: *)
(* what matters is which row goes where.  One behaviour per pair of shapes *)
(* and step size.                                                          *)
(***************************************************************************)
EXTENDS Tensor
CONSTANTS MaxDim, Rank, Fault
VARIABLES a, b, g, step, at, out, ga, gb
vars == <<a, b, g, step, at, out, ga, gb>>
Shapes == [1..Rank -> 1..MaxDim]
Fits(s, t) == \A i \in 1..Rank : s[i] = t[i] \/ s[i] = 1 \/ t[i] = 1
Fill(s, m) == [s |-> s, v |-> [i \in 1..SizeOf(s) |-> m + i]]
size == BcShape(a.s, b.s)
Rows == SizeOf(size)
Init == /\ \E s, t \in Shapes : Fits(s, t) /\ a = Fill(s, 1) /\ b = Fill(t, 40)
        /\ g = [i \in 1..Rows |-> 3 * i + 1]
        /\ step \in 2..(Rows + 1)
        /\ at = 0
        /\ out = [i \in 1..Rows |-> 0] /\ ga = [i \in 1..Rows |-> 0] /\ gb = [i \in 1..Rows |-> 0]
Row(t, i) == Get(t, Idx(size, i))       \* row i of t stretched and flattened
Hi == at + step + (IF Fault = "overlap" THEN 1 ELSE 0)
Piece == { i \in 1..Rows : at < i /\ i <= Hi }
More == IF Fault = "tail" THEN at + step <= Rows ELSE at < Rows
Next == /\ More
        /\ at' = at + step
        /\ out' = [i \in 1..Rows |-> IF i \in Piece THEN Row(a, i) * Row(b, i) ELSE out[i]]
        /\ ga' = [i \in 1..Rows |-> IF i \in Piece THEN ga[i] + g[i] * Row(b, i) ELSE ga[i]]
        /\ gb' = [i \in 1..Rows |-> IF i \in Piece THEN gb[i] + g[i] * Row(a, i) ELSE gb[i]]
        /\ UNCHANGED <<a, b, g, step>>
\* dimensions of size 1 are summed away (also the ones that were 1 to begin with)
Ones(t) == { i \in 1..Rank : t.s[i] = 1 }
Reduce(t, f) ==
  LET sum == IF Fault = "reduce" THEN (IF Ones(t) = {} THEN {} ELSE {Min(Ones(t))}) ELSE Ones(t)
      back(ix) == [i \in 1..Rank |-> IF i \in sum THEN 0 ELSE ix[i]]
      shp == [i \in 1..Rank |-> IF i \in sum THEN 1 ELSE size[i]]
  IN Build(shp, LAMBDA x : SumInt([i \in 1..Rows |-> IF back(Idx(size, i)) = x THEN f[i] ELSE 0]))
Done == ~More
Value == Done => [s |-> size, v |-> out] = Elementwise(LAMBDA x, y : x * y, a, b)
\* the gradient of sum(g * a * b) by definition
Grad(t, u) == Build(t.s, LAMBDA x : SumInt([i \in 1..Rows |-> IF Bc(t.s, Idx(size, i)) = x THEN g[i] * Row(u, i) ELSE 0]))
Gradient == Done => Reduce(a, ga) = Grad(a, b) /\ Reduce(b, gb) = Grad(b, a)
=============================================================================
