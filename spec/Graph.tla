------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The graph of a batch of labelled trees.  Nodes are numbered from 1; the *)
(* e-th edge goes from q.a[e] to q.b[e], its parent, and the first of two  *)
(* edges into a node comes from its left child.  q.tree[b] lists the       *)
(* labelled spans <<i, j, a>> of tree b, q.top[h + 1] the nodes of height  *)
(* h, q.starts the tuples <<b, i, x, h>>: x, of height h, is the widest    *)
(* span of tree b that starts at i.                                        *)
(***************************************************************************)
EXTENDS Struct

Kids(q) == TLCEval([x \in 1..q.n |-> SelectSeq([e \in DOMAIN q.a |-> IF q.b[e] = x THEN q.a[e] ELSE 0], LAMBDA y : y # 0)])
\* <<i, j, label, height, node>> of every node below x, whose words start at i
RECURSIVE Walk(_, _, _, _)
Walk(k, lab, x, i) ==
  IF k[x] = << >> THEN {<<i, i, lab[x], 0, x>>}
  ELSE LET l == TLCEval(Walk(k, lab, k[x][1], i))
           m == Max({ p[2] : p \in l })
           r == TLCEval(Walk(k, lab, k[x][2], m + 1))
       IN {<<i, Max({ p[2] : p \in r }), lab[x], 1 + Max({ p[4] : p \in l \cup r }), x>>} \cup l \cup r

\* Two edges into a node or none, from lower numbers, no node with two parents.
Tidy(q, k) ==
  /\ Len(q.a) = Len(q.b) /\ Len(q.label) = q.n
  /\ \A e \in DOMAIN q.a : q.a[e] \in 1..q.n /\ q.b[e] \in 1..q.n /\ q.a[e] < q.b[e]
  /\ NoRep(q.a)
  /\ \A x \in 1..q.n : Len(k[x]) \in {0, 2}

BadGraph(q) ==
  IF q.n # SumInt([b \in DOMAIN q.tree |-> Len(q.tree[b])]) THEN {"nodes"} ELSE
  LET k == Kids(q) IN
  IF ~Tidy(q, k) THEN {"edges"} ELSE
  LET first(b) == { s \in AsSet(q.starts) : s[1] = b /\ s[2] = 1 } IN
  IF \E b \in DOMAIN q.tree : Cardinality(first(b)) # 1 \/ \E s \in first(b) : s[3] \notin 1..q.n THEN {"starts"} ELSE
  LET w == TLCEval([b \in DOMAIN q.tree |-> Walk(k, q.label, (CHOOSE s \in first(b) : TRUE)[3], 1)])
      ids == UNION { { p[5] : p \in w[b] } : b \in DOMAIN w }
  IN Chk(\A b \in DOMAIN w : { <<p[1], p[2], p[3]>> : p \in w[b] } = AsSet(q.tree[b]), "tree")
     \cup Chk(ids = 1..q.n, "nodes")
     \cup Chk(SumInt([h \in DOMAIN q.top |-> Len(q.top[h])]) = q.n
              /\ \A b \in DOMAIN w : \A p \in w[b] : p[4] + 1 \in DOMAIN q.top /\ p[5] \in AsSet(q.top[p[4] + 1]), "levels")
     \cup Chk(AsSet(q.starts) = UNION { { <<b, p[1], p[5], p[4]>> :
                p \in { p \in w[b] : \A r \in w[b] : r[1] = p[1] => r[2] <= p[2] } } : b \in DOMAIN w }, "starts")
=============================================================================
