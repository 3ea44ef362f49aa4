-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates whole structure sets and writes them to the file IOEnv.GEN,  *)
(* one line per (family, dimensions, length); the recorder replays every   *)
(* structure into the library.                                             *)
(***************************************************************************)
EXTENDS Convert, Json, IOUtils
CONSTANT Deep
VARIABLE k
D(f, C, K, L, r) == [fam |-> f, C |-> C, K |-> K, L |-> L, NT |-> 1, T |-> 1, root |-> r]
G(nt, t) == [fam |-> "cfg", C |-> 1, K |-> 2, L |-> 1, NT |-> nt, T |-> t, root |-> "multi"]
Big == IF Deep THEN 1 ELSE 0
Shapes ==
  { <<D("chain", C, 2, 1, "multi"), n>> : C \in 1..3, n \in 1..(4 + Big) }
  \cup { <<D("semi", C, K, 1, "multi"), n>> : C \in 1..2, K \in 2..4, n \in 1..(4 + Big) }
  \cup { <<D("semi", 1, K, 1, "multi"), n>> : K \in 3..5, n \in {6} }
  \cup { <<D(f, 1, 2, 1, r), n>> : f \in {"dep", "np"}, r \in {"multi", "single"}, n \in 1..4 }
  \cup { <<D("dep", 1, 2, 1, r), 5>> : r \in {"multi", "single"} }
  \cup { <<D("depl", 1, 2, L, r), n>> : L \in 1..2, r \in {"multi", "single"}, n \in 1..3 }
  \cup { <<D("span", C, 2, 1, "multi"), n>> : C \in 1..2, n \in 1..3 }
  \cup { <<D("span", 1, 2, 1, "multi"), n>> : n \in 4..(5 + Big) }
  \cup { <<G(nt, t), n>> : nt \in 1..2, t \in 1..2, n \in 2..3 }
  \cup { <<G(1, t), 4>> : t \in 1..2 }

Tree(d, len, x) ==      \* a derivation as labelled spans
  SetToSeq({ <<nd[1], nd[2], nd[3]>> : nd \in x })
Item(d, len, s) ==
  IF d.fam = "cfg" THEN [tree |-> Tree(d, len, s)]
  ELSE [c |-> CompactOf(d, len, s), parts |-> SetToSeq(Parts(d, len, s))]
Line(x) ==
  LET X == SetToSeq(IF x[1].fam = "cfg" THEN CfgDerivs(x[1], x[2]) ELSE Compacts(x[1], x[2])) IN
  [d |-> x[1], len |-> x[2], items |-> [i \in 1..Len(X) |-> Item(x[1], x[2], X[i])]]

Lines == LET xs == SetToSeq(Shapes) IN [i \in 1..Len(xs) |-> Line(xs[i])]
Init == k = 0
Next == k = 0 /\ ndJsonSerialize(IOEnv.GEN, Lines) /\ k' = 1
=============================================================================
