-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Backward sampling, several draws at a time.  An inside computation is a *)
(* circuit of sums and products over the parts.  Going back from the root, *)
(* each sum node passes what reaches it to one operand per draw, chosen    *)
(* with probability proportional to the operand's value; each product      *)
(* passes it to all its operands.  M draws travel together as the bits of  *)
(* one integer, added up where paths meet; draw j used a part iff bit j of *)
(* the part's integer is set.                                              *)
(*                                                                         *)
(* Whole: every draw decodes to the parts of one structure.                *)
(* Law:   the probability of its choices is weight of the structure / Z.   *)
(* Decoding needs every part to be reached at most once per draw (no       *)
(* carries): true of chains, segmentations and trees, not of grammars,     *)
(* whose rules are reached once per use (circuit "rules" refutes Whole).   *)
(***************************************************************************)
EXTENDS Semiring
CONSTANTS Circuits, M, Law1   \* Law1: which value a choice is proportional to ("value" or the faulty "count")
VARIABLES c, g, num, den, at
vars == <<c, g, num, den, at>>

\* children: sum(node) and prod(node) list operand names; leaves have neither
Chain == \* 3 positions, 2 labels, as the logarithmic scan does it
  [ order |-> << <<"root">>, <<"cell", 1, 1>>, <<"cell", 1, 2>>, <<"cell", 2, 1>>, <<"cell", 2, 2>> >>
       \o [i \in 1..8 |-> <<"pair", 1 + ((i - 1) \div 4), 1 + (((i - 1) \div 2) % 2), 1 + ((i - 1) % 2)>>],
    sum |-> [x \in { <<"root">> } \cup { <<"cell", a, b>> : a, b \in 1..2 } |->
              IF x = <<"root">> THEN << <<"cell", 1, 1>>, <<"cell", 1, 2>>, <<"cell", 2, 1>>, <<"cell", 2, 2>> >>
              ELSE << <<"pair", x[2], 1, x[3]>>, <<"pair", x[2], 2, x[3]>> >>],
    prod |-> [x \in { <<"pair", a, m, b>> : a, m, b \in 1..2 } |-> << <<"leaf", 2, x[2], x[3]>>, <<"leaf", 1, x[3], x[4]>> >>],
    leaf |-> { <<"leaf", n, a, b>> : n, a, b \in 1..2 },
    structs |-> { { <<"leaf", 1, y, x>>, <<"leaf", 2, v, y>> } : x, y, v \in 1..2 } ]
Span == \* binary trees over 3 words, one label
  [ order |-> << <<"root">>, <<"in", 1, 3>>, <<"sp", 1, 1, 3>>, <<"sp", 1, 2, 3>>, <<"t", 1, 2>>, <<"t", 2, 3>> >>,
    sum |-> [x \in { <<"in", 1, 3>> } |-> << <<"sp", 1, 1, 3>>, <<"sp", 1, 2, 3>> >>],
    prod |-> [x \in { <<"root">>, <<"sp", 1, 1, 3>>, <<"sp", 1, 2, 3>>, <<"t", 1, 2>>, <<"t", 2, 3>> } |->
               CASE x = <<"root">> -> << <<"leaf", 1, 3>>, <<"in", 1, 3>> >>
                 [] x = <<"sp", 1, 1, 3>> -> << <<"leaf", 1, 1>>, <<"t", 2, 3>> >>
                 [] x = <<"sp", 1, 2, 3>> -> << <<"t", 1, 2>>, <<"leaf", 3, 3>> >>
                 [] x = <<"t", 1, 2>> -> << <<"leaf", 1, 2>>, <<"leaf", 1, 1>>, <<"leaf", 2, 2>> >>
                 [] x = <<"t", 2, 3>> -> << <<"leaf", 2, 3>>, <<"leaf", 2, 2>>, <<"leaf", 3, 3>> >>],
    leaf |-> { <<"leaf", i, j>> : i, j \in 1..3 } \cap { <<"leaf", 1, 1>>, <<"leaf", 2, 2>>, <<"leaf", 3, 3>>, <<"leaf", 1, 2>>, <<"leaf", 2, 3>>, <<"leaf", 1, 3>> },
    structs |-> { { <<"leaf", 1, 1>>, <<"leaf", 2, 2>>, <<"leaf", 3, 3>>, <<"leaf", 1, 3>>, x } : x \in { <<"leaf", 1, 2>>, <<"leaf", 2, 3>> } } ]
Rules == \* a rule applied twice, or another once
  [ order |-> << <<"root">>, <<"two">>, <<"tail">> >>,
    sum |-> [x \in { <<"root">> } |-> << <<"two">>, <<"leaf", 2>> >>],
    prod |-> [x \in { <<"two">>, <<"tail">> } |-> IF x = <<"two">> THEN << <<"leaf", 1>>, <<"tail">> >> ELSE << <<"leaf", 1>>, <<"leaf", 3>> >>],
    leaf |-> { <<"leaf", i>> : i \in 1..3 },
    structs |-> { { <<"leaf", 1>>, <<"leaf", 3>> }, { <<"leaf", 2>> } } ]
Circ(n) == CASE n = "chain" -> Chain [] n = "span" -> Span [] n = "rules" -> Rules
K == Circ(c)

\* weights of the parts: distinct small numbers, one of them zero
LeafW(x) == LET h == x[2] * 3 + (IF Len(x) > 2 THEN 2 * x[3] ELSE 0) + (IF Len(x) > 3 THEN x[4] ELSE 0)
            IN IF c = "chain" /\ x = <<"leaf", 2, 2, 1>> THEN 0 ELSE 1 + (h % 4)
RECURSIVE Val(_, _)
Val(k, x) == IF x \in k.leaf THEN LeafW(x)
             ELSE IF x \in DOMAIN k.sum THEN SumR(SR("std"), [i \in DOMAIN k.sum[x] |-> Val(k, k.sum[x][i])], 1, Len(k.sum[x]))
             ELSE ProdR(SR("std"), [i \in DOMAIN k.prod[x] |-> Val(k, k.prod[x][i])], 1, Len(k.prod[x]))
Nodes(k) == k.leaf \cup DOMAIN k.sum \cup DOMAIN k.prod

RECURSIVE Two(_)
Two(j) == IF j = 0 THEN 1 ELSE 2 * Two(j - 1)
Bit(n, j) == (n \div Two(j)) % 2 = 1
On(x, j) == Bit(g[x], j)

Init == /\ c \in Circuits
        /\ g = [x \in Nodes(Circ(c)) |-> IF x = <<"root">> THEN Two(M) - 1 ELSE 0]
        /\ num = [j \in 0..(M - 1) |-> 1] /\ den = [j \in 0..(M - 1) |-> 1]
        /\ at = 1
Fan == \* one product passes everything on
  LET x == K.order[at] IN
  /\ x \in DOMAIN K.prod
  /\ g' = [y \in DOMAIN g |-> g[y] + g[x] * Cardinality({ i \in DOMAIN K.prod[x] : K.prod[x][i] = y })]
  /\ UNCHANGED <<num, den>>
Pick == \* one sum chooses an operand of positive value for every draw that reached it
  LET x == K.order[at]
      ch == K.sum[x]
      live == { j \in 0..(M - 1) : On(x, j) }
  IN
  /\ x \in DOMAIN K.sum
  /\ \E f \in [live -> DOMAIN ch] :
       /\ \A j \in live : Val(K, ch[f[j]]) > 0
       /\ g' = [y \in DOMAIN g |-> g[y] + TotalOf(Two, { j \in live : ch[f[j]] = y })]
       /\ num' = [j \in 0..(M - 1) |-> IF j \in live THEN num[j] * (IF Law1 = "count" THEN 1 ELSE Val(K, ch[f[j]])) ELSE num[j]]
       /\ den' = [j \in 0..(M - 1) |-> IF j \in live THEN den[j] * (IF Law1 = "count" THEN Len(ch) ELSE Val(K, x)) ELSE den[j]]
Next == /\ at <= Len(K.order)
        /\ at' = at + 1 /\ c' = c
        /\ (Fan \/ Pick)
Spec == Init /\ [][Next]_vars

Done == at > Len(K.order)
Drawn(j) == { x \in K.leaf : On(x, j) }
Whole == Done => \A j \in 0..(M - 1) : Drawn(j) \in K.structs
WeightOf(S) == LET s == SetToSeq(S) IN ProdR(SR("std"), [i \in 1..Len(s) |-> LeafW(s[i])], 1, Len(s))
Law == Done => \A j \in 0..(M - 1) : num[j] * Val(K, <<"root">>) = den[j] * WeightOf(Drawn(j))
Supported == Done => \A j \in 0..(M - 1) : WeightOf(Drawn(j)) > 0
=============================================================================
