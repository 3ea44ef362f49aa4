---------------------------- MODULE AdapterCheck ----------------------------
(* One state per state path (HMM, every observation sequence) or labelled   *)
(* segmentation (HSMM): the factors along its edges are its joint factors.  *)
EXTENDS Adapters
CONSTANT Deep
VARIABLES fam, C, K, N, s, obs
D == [fam |-> fam, C |-> C, K |-> K, L |-> 0, NT |-> 0, T |-> 0, root |-> "multi"]
Big == IF Deep THEN 1 ELSE 0
Init == /\ fam \in {"chain", "semi"} /\ C \in 1..2 /\ N \in 2..(4 + Big)
        /\ K \in (IF fam = "semi" THEN 2..4 ELSE {0})
        /\ s \in Compacts(D, N)
        /\ obs \in (IF fam = "chain" THEN [1..N -> 1..2] ELSE {<< >>})
Next == FALSE /\ UNCHANGED <<fam, C, K, N, s, obs>>
EdgesAreJoint ==
  LET ps == SetToSeq(Parts(D, N, s)) IN
  IF fam = "chain"
  THEN SameBag(FlattenSeq([i \in DOMAIN ps |-> HmmEdge(obs, ps[i][1], ps[i][2], ps[i][3])]), HmmJoint(obs, s))
  ELSE SameBag(FlattenSeq([i \in DOMAIN ps |-> HsmmEdge(ps[i][1], ps[i][2] - 1, ps[i][3], ps[i][4])]), HsmmJoint(s))
=============================================================================
