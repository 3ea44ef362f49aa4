------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Compact representations, in the library's own numbering: labels count   *)
(* from 0, a continued segment is -1, a head is 0 for the root and h for   *)
(* word h.  Encode gives the parts of a compact structure of length len,   *)
(* Decode reads the compact structure back.                                *)
(***************************************************************************)
EXTENDS Struct

\* The compact form of an enumerated structure.
CompactOf(d, len, s) ==
  CASE d.fam = "chain" -> [n \in 1..len |-> s[n] - 1]
    [] d.fam = "semi" ->
         [n \in 1..len |->
            LET m == { m \in 1..(Len(s.w) + 1) : Start(s.w, m) = n } IN
            IF m = {} THEN -1 ELSE s.y[CHOOSE x \in m : TRUE] - 1]
    [] d.fam \in {"dep", "np"} -> [n \in 1..len |-> s[n]]
    [] OTHER -> << >>

Encode(d, len, c) ==
  CASE d.fam = "chain" -> { <<n, c[n + 1] + 1, c[n] + 1>> : n \in 1..(len - 1) }
    [] d.fam = "semi" ->
         LET st == { n \in 1..len : c[n] # -1 }
             nx(n) == CHOOSE m \in st : m > n /\ \A k \in st : k > n => m <= k
         IN { <<n, nx(n) - n + 1, c[nx(n)] + 1, c[n] + 1>> : n \in { n \in st : \E k \in st : k > n } }
    [] d.fam \in {"dep", "np"} -> { <<Arc(c[n], n), n>> : n \in 1..len }
    [] d.fam = "span" -> AsSet(c)          \* the span table is its own event

Decode(d, len, S) ==
  CASE d.fam = "chain" ->
         [n \in 1..len |-> IF n = 1 THEN (CHOOSE p \in S : p[1] = 1)[3] - 1 ELSE (CHOOSE p \in S : p[1] = n - 1)[2] - 1]
    [] d.fam = "semi" ->
         [n \in 1..len |->
            IF n = 1 THEN (CHOOSE p \in S : p[1] = 1)[4] - 1
            ELSE LET e == { p \in S : p[1] + p[2] - 1 = n } IN
                 IF e = {} THEN -1 ELSE (CHOOSE p \in e : TRUE)[3] - 1]
    [] d.fam \in {"dep", "np"} -> [n \in 1..len |-> HeadOf(S, n)]

Lossless(d, len) == d.fam \notin {"chain", "semi"} \/ len >= 2

BadEncode(o, q) ==
  ForB(o, LAMBDA b :
    IF ~q.clean[b] THEN {"indicator"}
    ELSE Chk(NoRep(q.parts[b]) /\ AsSet(q.parts[b]) = Encode(o.d, q.lens[b], q.c[b]), "parts"))

Extra(d) == CASE d.fam = "chain" -> <<d.C>> [] d.fam = "semi" -> <<d.C, d.K>> [] OTHER -> << >>
BadDecode(o, q) ==
  Chk(q.extra = Extra(o.d), "extra")
  \cup ForB(o, LAMBDA b :
    LET len == q.lens[b]  S == AsSet(q.parts[b]) IN
    IF o.d.fam = "span" THEN Chk(AsSet(q.c[b]) = S, "compact") ELSE
    IF ~Lossless(o.d, len) THEN {} ELSE
    LET c == Decode(o.d, len, S) IN Chk(\A n \in 1..len : q.c[b][n] = c[n], "compact"))

\* Grammar trees: spans {<<i, j, symbol>>} with preterminals on the diagonal.
BadTree(o, q) ==
  ForB(o, LAMBDA b :
    LET len == q.lens[b]
        inner == SelectSeq(q.tree[b], LAMBDA p : p[1] < p[2])
        leaves == { <<p[1], p[3] - o.d.NT>> : p \in { x \in AsSet(q.tree[b]) : x[1] = x[2] } }
        ev == [spans |-> inner, terms |-> q.ev[b].terms, rules |-> q.ev[b].rules, roots |-> q.ev[b].roots]
    IN IF ~q.clean[b] THEN {"indicator"}
       ELSE IF AsSet(q.ev[b].terms) # leaves THEN {"terms"}
       ELSE Chk(CfgEventOK(o.d, len, ev), "uses"))

\* An event of the grammar, its span table, and the event of that table.
BadTable(o, q) ==
  Chk(q.extra = <<o.d.NT, o.d.T>>, "extra")
  \cup ForB(o, LAMBDA b :
    LET ev == q.ev[b]
        want == AsSet(ev.spans) \cup { <<p[1], p[1], o.d.NT + p[2]>> : p \in AsSet(ev.terms) }
    IN IF ~q.clean[b] THEN {"indicator"}
       ELSE IF ~CfgEventOK(o.d, o.lens[b], ev) THEN {"structure"}
       ELSE Chk(NoRep(q.tree[b]) /\ AsSet(q.tree[b]) = want, "table")
            \cup Chk(\A k \in {"terms", "rules", "roots"} : AsSet(q.back[b][k]) = AsSet(ev[k]), "round trip"))
=============================================================================
