------------------------------ MODULE ArgsGen ------------------------------
(***************************************************************************)
(* Every request of small dimensions, written to IOEnv.GEN for the         *)
(* recorder; a few facts about the classification are checked on the way.  *)
(***************************************************************************)
EXTENDS Args, Json, IOUtils, SequencesExt, TLC
CONSTANT D
VARIABLE k

Req(f, s, l, v, x) == [fam |-> f, shape |-> s, lens |-> l, validate |-> v, values |-> x]
Tensor == {"chain", "semi", "dep", "span"}
Dims(n) == [1..n -> 1..D]

\* every shape without lengths
Shapes == { Req(f, s, << >>, FALSE, "fine") : f \in Tensor, s \in UNION { Dims(n) : n \in 1..6 } }
          \cup { Req("cfg", s, << >>, FALSE, "fine") : s \in { s \in UNION { Dims(n) : n \in 1..4 } : Len(s) < 2 \/ s[2] >= 2 } }

\* every length vector with a good shape
Good(f, B, n) ==
  CASE f = "chain" -> { <<B, n - 1, 2, 2>> }
    [] f = "semi"  -> { <<B, n - 1, 3, 2, 2>> }
    [] f = "dep"   -> { <<B, n, n>>, <<B, n, n, 2>> }
    [] f = "span"  -> { <<B, n, n, 2>> }
    [] f = "cfg"   -> { <<B, n, 2>> }
LensOf(f, B, n) == [1..B -> (IF f = "cfg" THEN 2 ELSE 1)..(n + 2)]
Lengths ==
  UNION { UNION { { Req(f, s, l, FALSE, "fine") : s \in Good(f, B, n), l \in LensOf(f, B, n) }
                  : B \in 1..2, n \in 2..(D + 1) } : f \in Tensor \cup {"cfg"} }

\* validation
Checked ==
  UNION { UNION { { Req(f, s, l, TRUE, x) : s \in Good(f, 2, n), l \in {<< >>, <<n, n>>, <<n, n - 1>>}, x \in {"fine", "nan", "minus"} }
                  : n \in 3..(D + 1) } : f \in Tensor \cup {"cfg"} }
Sensible(r) == r.values = "minus" => r.lens # << >>

All == Shapes \cup Lengths \cup { r \in Checked : Sensible(r) }

\* Facts: something is answered and something refused in each family, dropping
\* the lengths never makes a request worse, and more positions never make a length too long.
Facts ==
  /\ \A f \in Tensor \cup {"cfg"} : \E r, t \in Lengths : r.fam = f /\ t.fam = f /\ Answered(r) /\ ~Answered(t)
  /\ \A r \in All : Answered(r) => Answered([r EXCEPT !.lens = << >>])
  /\ \A r \in Lengths : (r.fam \in {"span", "cfg"} /\ Answered(r)) =>
        Answered([r EXCEPT !.shape = IF r.fam = "cfg" THEN <<@[1], @[2] + 1, @[3]>> ELSE <<@[1], @[2] + 1, @[3] + 1, @[4]>>])

Init == k = 0
Next == k = 0 /\ Assert(Facts, "Facts") /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(All)) /\ k' = 1
=============================================================================
