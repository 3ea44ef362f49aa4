---------------------------- MODULE ConvertCheck ----------------------------
(***************************************************************************)
(* Every compact structure encodes to exactly its parts and decodes back;  *)
(* the encoding is injective and, from length two on, loses nothing.  One  *)
(* state per structure.                                                    *)
(***************************************************************************)
EXTENDS Convert
CONSTANT Deep
VARIABLES d, len, s
D(f, C, K, r) == [fam |-> f, C |-> C, K |-> K, L |-> 0, NT |-> 0, T |-> 0, root |-> r]
Big == IF Deep THEN 1 ELSE 0
Dims == { D("chain", C, 0, "multi") : C \in 1..3 } \cup { D("semi", C, K, "multi") : C \in 1..2, K \in 2..4 }
        \cup { D(f, 0, 0, r) : f \in {"dep", "np"}, r \in {"multi", "single"} }
Init == /\ d \in Dims /\ len \in 1..(4 + Big)
        /\ (d.fam = "np" => len <= 4)
        /\ s \in Compacts(d, len)
Next == FALSE /\ UNCHANGED <<d, len, s>>
Faithful ==
  LET c == CompactOf(d, len, s)  S == Parts(d, len, s) IN
  /\ Encode(d, len, c) = S
  /\ Lossless(d, len) => Decode(d, len, S) = c
  /\ IsStruct(d, len, S)
=============================================================================
