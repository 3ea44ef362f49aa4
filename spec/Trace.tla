-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of a recorded session against the specification.             *)
(*                                                                         *)
(* A session is a sequence of public calls on any number of live objects.  *)
(* The only state the specification keeps is which objects exist and with  *)
(* which arguments they were built (objs: id -> line of the constructor):  *)
(* every later answer must be explained by those arguments alone.  Every   *)
(* line gets a verdict; a rejected line is printed with the clauses that   *)
(* it breaks.                                                              *)
(***************************************************************************)
EXTENDS Convert, Adapters, Auto, Tensor, Args, Graph, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, objs

Obj(i) == LET o == Log[objs[i]] IN IF "par" \in DOMAIN o THEN TLCEval(Adapted(o)) ELSE o

Verdict(q) ==
  IF q.op \in {"new", "anew"} THEN (IF q.st = "ok" THEN {} ELSE {"construct:" \o q.st})
  ELSE IF q.op \in {"tensor", "matgrad", "simplex", "slope", "args", "model", "script", "graph"} THEN
    (IF q.st # "ok" THEN {q.st}
     ELSE CASE q.op = "tensor" -> BadTensor(q) [] q.op = "matgrad" -> BadMatGrad(q) [] q.op = "simplex" -> BadSimplex(q) [] q.op = "slope" -> BadSlope(q)
            [] q.op = "graph" -> BadGraph(q) [] q.op = "args" -> BadArgs(q) [] q.op = "model" -> BadModel(q))
  ELSE IF q.id \notin DOMAIN objs THEN {"no such object"}
  ELSE IF q.st # "ok" THEN {q.st}
  ELSE LET o == Obj(q.id) IN
  CASE q.op = "partition" -> BadPartition(o, q)
    [] q.op = "max"       -> BadMax(o, q)
    [] q.op = "argmax"    -> BadArgmax(o, q)
    [] q.op = "kmax"      -> BadKmax(o, q)
    [] q.op = "topk"      -> IF o.d.fam = "cfg" THEN BadTopkCfg(o, q) ELSE BadTopk(o, q)
    [] q.op = "count"     -> BadCount(o, q)
    [] q.op = "marginals" -> BadMarginals(o, q)
    [] q.op = "gradlp"    -> BadGradLogProb(o, q)
    [] q.op = "cov"       -> BadCov(o, q)
    [] q.op = "gradent"   -> BadGradEntropy(o, q)
    [] q.op = "gradcross" -> BadGradCross(o, Obj(q.id2), q)
    [] q.op = "bestuses"  -> BadBestUses(o, q)
    [] q.op = "holds"     -> Chk(q.ok, q.what)
    [] q.op = "entropy"   -> BadEntropy(o, q)
    [] q.op = "ce"        -> BadCross(o, Obj(q.id2), q)
    [] q.op = "kl"        -> BadCross(o, Obj(q.id2), q)
    [] q.op = "logprob"   -> BadLogProb(o, q)
    [] q.op = "draws"     -> BadDraws(o, q)
    [] q.op = "indep"     -> BadIndep(o, q)
    [] q.op = "drawmarg"  -> BadDrawMarg(o, q)
    [] q.op = "encode"    -> BadEncode(o, q)
    [] q.op = "decode"    -> BadDecode(o, q)
    [] q.op = "tree"      -> BadTree(o, q)
    [] q.op = "table"     -> BadTable(o, q)
    [] q.op = "greedy"    -> BadGreedy(o, q)
    [] q.op = "tempgreedy" -> BadGreedy(o, q)
    [] q.op = "beam"      -> BadBeam(o, q)
    [] q.op = "seqprob"   -> BadSeqProb(o, q)
    [] q.op = "seqdraws"  -> BadSeqDraws(o, q)
    [] q.op = "seqindep"  -> BadSeqIndep(o, q)
    [] q.op = "seqslope"  -> BadSeqSlope(o, q)
    [] q.op = "swor"      -> BadDistinct(o, q)
    [] q.op = "usersum"   -> BadUserSum(o, q)
    [] q.op = "sparse"    -> BadSparse(o, q)
    [] OTHER -> {"unknown operation"}

Init == l = 1 /\ objs = << >>

Step ==
  /\ l <= Len(Log)
  /\ objs' = IF Log[l].op \in {"new", "anew"} /\ Log[l].st = "ok" THEN (Log[l].id :> l) @@ objs ELSE objs
  /\ l' = l + 1

Next == Step
Spec == Init /\ [][Next]_<<l, objs>>

\* Judged as a state predicate, before the line is consumed.
Judged ==
  l <= Len(Log) =>
    LET bad == Verdict(Log[l]) IN \A c \in bad : PrintT("REJECT " \o ToString(l) \o " " \o c)

Done == PrintT("CHECKED " \o ToString(TLCGet("stats").generated - 1))
=============================================================================
