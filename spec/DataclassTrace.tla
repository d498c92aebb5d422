---------------------------- MODULE DataclassTrace --------------------------
(* Checks recorded programs of data classes against DataclassExt.             *)
EXTENDS DataclassExt, Json, IOUtils
Batch == JsonDeserialize(IOEnv.VERIF_BATCH)
VARIABLES i, l, s
vars == <<i, l, s>>
TraceInit == i \in 1..Len(Batch) /\ l = 1 /\ s = <<>>
Clause(D, o) ==
    IF D.res.st = "free" THEN ""
    ELSE IF o.st # D.res.st THEN (IF D.res.st = "err" THEN "not-refused" ELSE "not-accepted")
    ELSE IF o.log # D.log THEN "post-init"
    ELSE IF o.st = "ok" /\ o.v # D.res.v THEN "wrong-result"
    ELSE IF o.shared THEN "shared-default"
    ELSE ""
TraceNext ==
    /\ l <= Len(Batch[i].ops)
    /\ LET op == Batch[i].ops[l]
           D == Do(Batch[i].env, s, op)
       IN /\ PrintT(<<"STEP", i, l, D.res.st, Clause(D, op.out)>>)
          /\ s' = D.s
    /\ l' = l + 1
    /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
