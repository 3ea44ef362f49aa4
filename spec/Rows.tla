-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Keeping the elements of a batch apart.  Tensors that carry a leading    *)
(* sample or beam axis, a batch axis and further axes are flattened for    *)
(* the work on rows and unflattened afterwards; a selection then gathers,  *)
(* for each slot s and element b, the row of slot pick[s][b] of the same   *)
(* element.  A row holds the name of the element it came from.             *)
(*   Apart: after any number of flatten / gather / unflatten rounds every  *)
(*          row still belongs to the element at whose index it is found    *)
(*   Given: and its contents are those of the slot that was picked         *)
(* Fault "swap" unflattens with the axes exchanged, "slot" forgets the     *)
(* element when it gathers, "first" gathers with the picks of element 1.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxS, MaxB, Rounds, Fault
VARIABLES S, B, rows, want, left
vars == <<S, B, rows, want, left>>
Init == /\ S \in 1..MaxS /\ B \in 1..MaxB /\ left = Rounds
        /\ rows = [s \in 1..S |-> [b \in 1..B |-> <<b, s>>]]
        /\ want = rows
Flat(x) == [r \in 1..(S * B) |-> x[1 + ((r - 1) \div B)][1 + ((r - 1) % B)]]
Unflat(f) == [s \in 1..S |-> [b \in 1..B |->
               f[IF Fault = "swap" THEN (b - 1) * S + s ELSE (s - 1) * B + b]]]
Gather(f, pick) == [r \in 1..(S * B) |->
  LET s == 1 + ((r - 1) \div B)
      b == 1 + ((r - 1) % B)
      k == pick[s][IF Fault = "first" THEN 1 ELSE b]
  IN f[IF Fault = "slot" THEN (k - 1) * B + 1 ELSE (k - 1) * B + b]]
Round(pick) ==
  /\ left > 0 /\ left' = left - 1
  /\ rows' = Unflat(Gather(Flat(rows), pick))
  /\ want' = [s \in 1..S |-> [b \in 1..B |-> want[pick[s][b]][b]]]
  /\ UNCHANGED <<S, B>>
Next == \E pick \in [1..S -> [1..B -> 1..S]] : Round(pick)
Apart == \A s \in 1..S, b \in 1..B : rows[s][b][1] = b
Given == rows = want
=============================================================================
