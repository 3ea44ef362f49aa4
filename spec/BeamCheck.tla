----------------------------- MODULE BeamCheck -----------------------------
(***************************************************************************)
(* Beam search as a step machine with back pointers and per-slot state,    *)
(* the way a batched implementation runs it, against the set-valued        *)
(* recurrence of Auto.tla, over every score table of a small size:         *)
(*   each slot's carried prefix is the path its back pointers spell,       *)
(*   the kept set is one the recurrence allows, ordered by score, and a    *)
(*   beam at least as wide as the number of prefixes is exact.             *)
(* Slip = TRUE forgets to reorder the carried state after the selection.   *)
(***************************************************************************)
EXTENDS Auto
CONSTANTS N, C, K, E, Slip
VARIABLES tab, t, slots
\* slots: sequence of [path, carried, v]; carried is the prefix the model state stands for
O == [C |-> C, N |-> N, B |-> 1, norm |-> FALSE, tab |-> <<tab>>]
Levels == [n \in 1..N |-> [1..Cardinality([1..(n - 1) -> 1..C]) -> [1..C -> E]]]
Init == /\ tab \in { x \in [1..N -> UNION { Levels[n] : n \in 1..N }] : \A n \in 1..N : x[n] \in Levels[n] }
        /\ t = 0
        /\ slots = << [path |-> << >>, carried |-> << >>, v |-> 0] >>
\* All candidates in beam order, then class order; a stable selection of the K best.
Cand == FlattenSeq([i \in DOMAIN slots |-> [c \in 1..C |->
          [from |-> i, c |-> c - 1, v |-> slots[i].v + Row(O, 1, slots[i].carried)[c]]]])
Rank(i) == Cardinality({ j \in DOMAIN Cand : Cand[j].v > Cand[i].v \/ (Cand[j].v = Cand[i].v /\ j < i) }) + 1
Step ==
  /\ t < N
  /\ LET m == Min2(K, Len(Cand))
         pick == [r \in 1..m |-> CHOOSE i \in DOMAIN Cand : Rank(i) = r]
     IN slots' = [r \in 1..m |->
          LET x == Cand[pick[r]] IN
          [path |-> slots[x.from].path \o <<x.c>>,
           carried |-> slots[IF Slip THEN Min2(r, Len(slots)) ELSE x.from].carried \o <<x.c>>,
           v |-> x.v]]
  /\ t' = t + 1 /\ UNCHANGED tab
Next == Step
Aligned == \A i \in DOMAIN slots : slots[i].path = slots[i].carried
Kept == { slots[i].path : i \in DOMAIN slots } \in Beams(O, 1, K, t)
InOrder == \A i \in DOMAIN slots : slots[i].v = Val(O, 1, slots[i].path)[1]
           /\ (i > 1 => slots[i - 1].v >= slots[i].v)
Exact == LET X == [1..t -> Classes(O)]  kept == { slots[i].path : i \in DOMAIN slots } IN
         (t > 0 /\ K >= Cardinality([1..(t - 1) -> 1..C])) =>
            \A p \in X \ kept : \A s \in kept : Ge(Val(O, 1, s), Val(O, 1, p))
=============================================================================
