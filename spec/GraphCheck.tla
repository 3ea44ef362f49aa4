---------------------------- MODULE GraphCheck ----------------------------
(***************************************************************************)
(* Building the graph in one pass over the spans of all trees from narrow  *)
(* to wide, in any order among equally wide ones: the left child of a span *)
(* is the last span seen that starts where it starts, the right child the  *)
(* last one that ends where it ends.  Whatever the order, the result is    *)
(* the graph of the trees.  Taking the spans in another order ("loose"),   *)
(* or forgetting which tree a span belongs to ("merged"), is refuted.      *)
(***************************************************************************)
EXTENDS Graph
CONSTANTS Deep, Fault
VARIABLES tree, todo, lf, rt, g
D(C) == [fam |-> "span", C |-> C, K |-> 0, L |-> 0, NT |-> 0, T |-> 0, root |-> "multi"]
Trees(C, n) == { SetToSeq(S) : S \in Structs(D(C), n) }
Batches ==
  { <<t>> : t \in Trees(1, 4) } \cup { <<t>> : t \in Trees(2, 2) }
  \cup { <<t, u>> : t \in Trees(1, 2) \cup Trees(1, 1), u \in Trees(2, 1) \cup Trees(1, 2) \cup (IF Deep THEN Trees(1, 3) ELSE {}) }
  \cup (IF Deep THEN { <<t>> : t \in Trees(1, 5) } ELSE {})
vars == <<tree, todo, lf, rt, g>>
Key(b, i) == IF Fault = "merged" THEN <<1, i>> ELSE <<b, i>>
Init ==
  /\ tree \in Batches
  /\ todo = UNION { { <<b, tree[b][i][1], tree[b][i][2], tree[b][i][3]>> : i \in DOMAIN tree[b] } : b \in DOMAIN tree }
  /\ lf = << >> /\ rt = << >>
  /\ g = [n |-> 0, a |-> << >>, b |-> << >>, label |-> << >>, top |-> [h \in 1..5 |-> << >>]]
Width(s) == s[3] - s[2]
Add(s) ==
  LET x == g.n + 1
      kl == Key(s[1], s[2])  kr == Key(s[1], s[3])
      inner == Width(s) > 0
      h == IF inner THEN 1 + Max({lf[kl][2], rt[kr][2]}) ELSE 0
  IN /\ inner => (kl \in DOMAIN lf /\ kr \in DOMAIN rt)
     /\ g' = [n |-> x, a |-> IF inner THEN g.a \o <<lf[kl][1], rt[kr][1]>> ELSE g.a,
              b |-> IF inner THEN g.b \o <<x, x>> ELSE g.b,
              label |-> Append(g.label, s[4]), top |-> [g.top EXCEPT ![h + 1] = Append(@, x)]]
     /\ lf' = (kl :> <<x, h>>) @@ lf
     /\ rt' = (kr :> <<x, h>>) @@ rt
     /\ todo' = todo \ {s}
     /\ UNCHANGED tree
Next == \E s \in todo : (Fault = "loose" \/ \A r \in todo : Width(s) <= Width(r)) /\ Add(s)
Made ==
  [n |-> g.n, a |-> g.a, b |-> g.b, label |-> g.label, top |-> g.top, tree |-> tree,
   starts |-> SetToSeq({ <<k[1], k[2], lf[k][1], lf[k][2]>> : k \in DOMAIN lf })]
Right == todo = {} => BadGraph(Made) = {}
=============================================================================
