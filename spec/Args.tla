-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which constructor arguments have an answer, and of which shape.         *)
(*                                                                         *)
(* A request is a family, the shape of its potentials (of the term scores  *)
(* for a grammar), the lengths (<< >> when they are left out), and whether *)
(* validation is on and what is wrong with the values.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxSeq(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : s[i] <= x

\* Positions that potentials of a good shape stand for.
Places(fam, s) == IF fam \in {"chain", "semi"} THEN s[2] + 1 ELSE s[2]

GoodShape(fam, s) ==
  CASE fam = "chain" -> Len(s) = 4 /\ s[3] = s[4]
    [] fam = "semi"  -> Len(s) = 5 /\ s[4] = s[5] /\ s[3] >= 2
    [] fam = "dep"   -> Len(s) \in {3, 4} /\ s[2] = s[3]
    [] fam = "span"  -> Len(s) = 4 /\ s[2] = s[3]
    [] fam = "cfg"   -> Len(s) = 3

GoodLengths(fam, s, lens) ==
  lens = << >> \/ LET m == MaxSeq(lens) IN
                  IF fam \in {"chain", "semi"} THEN m = Places(fam, s) ELSE m <= Places(fam, s)

\* Validation looks at the values: "fine", "nan" (a potential), "minus" (a length).
GoodValues(q) == q.validate => q.values = "fine"

Answered(q) == GoodShape(q.fam, q.shape) /\ GoodLengths(q.fam, q.shape, q.lens) /\ GoodValues(q)

AnswerShape(q) ==
  LET B == q.shape[1] IN
  CASE q.query \in {"partition", "max", "entropy", "count"} -> << <<B>> >>
    [] q.query \in {"argmax", "marginals", "gumbel"} -> << q.shape >>
    [] q.query = "kmax"    -> << <<2, B>> >>
    [] q.query = "topk"    -> << <<2>> \o q.shape >>
    [] q.query = "sample"  -> << <<3>> \o q.shape >>
    [] q.query = "logprob" -> << <<2, B>> >>
\* Grammars answer with term, rule, root and span tables (NT = 2).
CfgShape(q) ==
  LET B == q.shape[1]  N == q.shape[2]  T == q.shape[3]
      tables(pre) == << pre \o <<B, N, T>>, pre \o <<B, 2, 2 + T, 2 + T>>, pre \o <<B, 2>>, pre \o <<B, N, N, 2>> >> IN
  CASE q.query \in {"partition", "max", "entropy", "count"} -> << <<B>> >>
    [] q.query \in {"argmax", "marginals"} -> tables(<< >>)
    [] q.query = "kmax"    -> << <<2, B>> >>
    [] q.query = "sample"  -> tables(<<3>>)
    [] q.query = "logprob" -> << <<B>> >>

BadArgs(q) ==
  IF Answered(q)
  THEN IF q.out # "answers" THEN {"well-formed arguments are refused"}
       ELSE IF q.got = (IF q.fam = "cfg" THEN CfgShape(q) ELSE AnswerShape(q)) THEN
                 IF q.about[1] = <<q.shape[1]>> /\ (q.fam = "cfg" \/ q.about[2] = Tail(q.shape)) THEN {} ELSE {"batch and event shape"}
            ELSE {"shape of the answer"}
  ELSE IF q.out # "refuses" THEN {"ill-formed arguments are answered"} ELSE {}

\* A search asks the model for want = <<rows, steps, classes>> scores and is handed got.
BadModel(q) ==
  IF (q.got = q.want /\ q.rows = q.want[1]) = (q.out = "answers")
  THEN IF q.out = "answers" /\ q.about # q.size THEN {"batch and event shape"} ELSE {}
  ELSE IF q.out = "answers" THEN {"a model of the wrong shape is used"} ELSE {"a fitting model is refused"}
=============================================================================
