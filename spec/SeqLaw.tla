------------------------------- MODULE SeqLaw -------------------------------
(***************************************************************************)
(* The law by which Auto judges sequences, over every table of small       *)
(* scores: a machine grows a prefix class by class, carrying the exact     *)
(* probability of what it has drawn as a fraction, while the model's state *)
(* is advanced once per class.                                             *)
(*   Chain:  the carried fraction is Val of the prefix                     *)
(*   Total:  the continuations of a prefix add up to the prefix            *)
(*   Centred: the slope of the log-probability (Auto's SeqSlope) is zero on  *)
(*           average over the sequences that continue the prefix           *)
(*   Steady: the state the scores are read at is the prefix itself         *)
(* Fault "late" reads the scores one step late (the state is advanced      *)
(* after, not before, the next row is read); "joint" normalises whole      *)
(* sequences instead of rows; "hot" forgets the model's own probability in  *)
(* the slope.                                                              *)
(***************************************************************************)
EXTENDS Auto
CONSTANTS N, C, E, Fault
VARIABLES tab, p, state, v
vars == <<tab, p, state, v>>
O == [C |-> C, N |-> N, B |-> 1, norm |-> TRUE, tab |-> <<tab>>]
Levels == [n \in 1..N |-> [1..Cardinality([1..(n - 1) -> 1..C]) -> [1..C -> E]]]
Init == /\ tab \in { x \in [1..N -> UNION { Levels[n] : n \in 1..N }] : \A n \in 1..N : x[n] \in Levels[n] }
        /\ p = << >> /\ state = << >> /\ v = <<1, 1>>
\* the row of the prefix the state stands for, at the step being taken
Here == O.tab[1][Len(p) + 1][Num(C, state) + 1]
Draw(c) ==
  /\ Len(p) < N
  /\ v' = <<v[1] * Pow2(Here[c + 1]), v[2] * SumInt([i \in 1..C |-> Pow2(Here[i])])>>
  /\ p' = Append(p, c)
  /\ state' = IF Fault = "late" THEN p ELSE Append(p, c)
  /\ UNCHANGED tab
Next == \E c \in Classes(O) : Draw(c)
Chain == v = Val(O, 1, p)
Steady == Len(p) < N => Here = Row(O, 1, p)
\* All sequences that continue the prefix, over a common denominator.
Rest == { s \in [1..N -> Classes(O)] : SubSeq(s, 1, Len(p)) = p }
RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
RECURSIVE AddR(_, _)
AddR(X, f) == IF X = {} THEN f
              ELSE LET s == CHOOSE s \in X : TRUE
                       w == IF Fault = "joint" THEN <<Val(O, 1, s)[1], 1>> ELSE Val(O, 1, s)
                       a == f[1] * w[2] + w[1] * f[2]
                       b == f[2] * w[2]
                       g == GcdR(a, b)
                   IN AddR(X \ {s}, <<a \div g, b \div g>>)
Total == LET t == AddR(Rest, <<0, 1>>)
             a == Val(O, 1, p)
         IN t[1] * a[2] = a[1] * t[2]
\* Slope at the prefix, times the row's normaliser.
RECURSIVE Mean(_, _, _)
Mean(X, c, f) ==
  IF X = {} THEN f
  ELSE LET s == CHOOSE s \in X : TRUE
           w == Val(O, 1, s)
           k == (IF s[Len(p) + 1] = c - 1 THEN RowZ(O, 1, p) ELSE 0) - (IF Fault = "hot" THEN 0 ELSE Pow2(Row(O, 1, p)[c]))
           a == f[1] * w[2] + k * w[1] * f[2]
           b == f[2] * w[2]
           g == GcdR(b, a % b)
       IN Mean(X \ {s}, c, <<a \div g, b \div g>>)
Centred == Len(p) < N => \A c \in 1..C : Mean(Rest, c, <<0, 1>>)[1] = 0
=============================================================================
