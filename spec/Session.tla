------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Histories of public calls: construct a distribution (afresh; as a twin  *)
(* with the same shape, or as its kin with other lengths; on the very      *)
(* tensor of a live one, possibly as another family or cut to other        *)
(* lengths), query it, switch the ambient gradient mode, drop it.  With    *)
(* Kindred only the first distribution is made afresh, so every history is *)
(* about distributions that are easily confused.                           *)
(* TLC walks this machine at random (-simulate) and prints each walk; the  *)
(* recorder replays the walks and Trace.tla judges every answer, keeping   *)
(* nothing but the constructor arguments.                                  *)
(*                                                                         *)
(* Memo is the machine the library is allowed to be: each object carries   *)
(* the answers it has already computed.  Purity says memoised answers are  *)
(* those of the constructor arguments, whatever happened in between; it    *)
(* fails as soon as anything an answer reads can be changed by another     *)
(* object (constant Leaky models a mode kept on the class).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Depth, Leaky, Emitting, Kindred, Kinds
VARIABLES live, grad, hist, mode, memo
vars == <<live, grad, hist, mode, memo>>

ASSUME Kinds \subseteq {"chain", "semi", "dep:multi", "dep:single", "depl:multi", "depl:single", "span", "cfg", "np:multi", "np:single", "auto"}
Group(k) == CASE k \in {"dep:multi", "dep:single", "np:multi", "np:single"} -> "arcs"
              [] k \in {"depl:multi", "depl:single", "span"} -> "labelled"
              [] OTHER -> k
Np(k) == k \in {"np:multi", "np:single"}
Queries(k) ==
  IF k = "auto" THEN {"greedy", "tempgreedy", "beam", "logprob", "sample", "distinct"}
  ELSE IF Np(k) THEN {"partition", "marginals", "logprob"}
  ELSE IF k = "cfg" THEN {"partition", "max", "argmax", "marginals", "entropy", "kmax", "topk", "logprob", "count", "sample", "gumbel"}
  ELSE {"partition", "max", "argmax", "mode", "marginals", "entropy", "kmax", "topk", "count", "logprob",
        "sample", "gumbel", "grad", "convert"}
Crossed(k) == ~Np(k) /\ k # "auto"

\* What an answer reads: the kind the object was built with, or, in the leaky
\* machine, the root mode last written to the class.
Reads(s) == IF Leaky /\ Group(live[s].k) \in {"arcs", "labelled"} /\ live[s].k # "span" /\ ~Np(live[s].k) THEN mode ELSE live[s].k
Do(e) == hist' = Append(hist, e)

New(s, k) == /\ live[s].k = "none" /\ (Kindred => \A t \in Slots : live[t].k = "none") /\ Do([a |-> "new", s |-> s, k |-> k, of |-> 0, how |-> "fresh"])
             /\ live' = [live EXCEPT ![s] = [k |-> k, sh |-> s]] /\ mode' = k
             /\ memo' = [memo EXCEPT ![s] = << >>] /\ UNCHANGED grad
Share(s, t, k, how) == /\ live[s].k = "none" /\ live[t].k # "none" /\ Group(k) = Group(live[t].k) /\ k \notin {"cfg", "auto"}
                  /\ Do([a |-> "new", s |-> s, k |-> k, of |-> t, how |-> how])
                  /\ live' = [live EXCEPT ![s] = [k |-> k, sh |-> IF how = "cut" THEN s ELSE live[t].sh]] /\ mode' = k
                  /\ memo' = [memo EXCEPT ![s] = << >>] /\ UNCHANGED grad
Twin(s, t, how) == /\ live[s].k = "none" /\ live[t].k # "none"
              /\ Do([a |-> "new", s |-> s, k |-> live[t].k, of |-> t, how |-> how])
              /\ live' = [live EXCEPT ![s] = [k |-> live[t].k, sh |-> IF how = "kin" THEN s ELSE live[t].sh]] /\ mode' = live[t].k
              /\ memo' = [memo EXCEPT ![s] = << >>] /\ UNCHANGED grad
Query(s, q) == /\ live[s].k # "none" /\ q \in Queries(live[s].k)
               /\ Do([a |-> "query", s |-> s, k |-> q, of |-> 0, how |-> grad])
               /\ memo' = [memo EXCEPT ![s] = IF q \in DOMAIN @ THEN @ ELSE (q :> Reads(s)) @@ @]
               /\ UNCHANGED <<live, grad, mode>>
Cross(s, t, q) == /\ s # t /\ live[s].k # "none" /\ live[s] = live[t] /\ Crossed(live[s].k)
                  /\ Do([a |-> "cross", s |-> s, k |-> q, of |-> t, how |-> grad])
                  /\ UNCHANGED <<live, grad, mode, memo>>
Grad(g) == g # grad /\ grad' = g /\ Do([a |-> "grad", s |-> 0, k |-> g, of |-> 0, how |-> ""]) /\ UNCHANGED <<live, mode, memo>>
Drop(s) == /\ live[s].k # "none" /\ Do([a |-> "drop", s |-> s, k |-> "", of |-> 0, how |-> ""])
           /\ live' = [live EXCEPT ![s] = [k |-> "none", sh |-> 0]] /\ memo' = [memo EXCEPT ![s] = << >>]
           /\ UNCHANGED <<grad, mode>>

Init == /\ live = [s \in Slots |-> [k |-> "none", sh |-> 0]] /\ grad = "on" /\ hist = << >>
        /\ mode = "none" /\ memo = [s \in Slots |-> << >>]
Step == /\ Len(hist) < Depth
        /\ \/ \E s \in Slots, k \in Kinds : New(s, k)
           \/ \E s, t \in Slots, k \in Kinds, how \in {"tensor", "cut"} : Share(s, t, k, how)
           \/ \E s, t \in Slots, how \in {"twin", "kin"} : Twin(s, t, how)
           \/ \E s \in Slots : live[s].k # "none" /\ \E q \in Queries(live[s].k) : Query(s, q)
           \/ \E s, t \in Slots, q \in {"ce", "kl"} : Cross(s, t, q)
           \/ \E g \in {"on", "off"} : Grad(g)
           \/ \E s \in Slots : Drop(s)
End == Len(hist) = Depth /\ grad # "end" /\ grad' = "end" /\ UNCHANGED <<live, hist, mode, memo>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars

Purity == \A s \in Slots : \A q \in DOMAIN memo[s] : memo[s][q] = live[s].k
Emit == (Emitting /\ grad = "end") => PrintT("HIST " \o ToJson(hist))
\* For exhaustive checking the walk itself is not part of the state.
View == <<live, grad, mode, memo, Len(hist)>>
=============================================================================
