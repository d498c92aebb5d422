---------------------------- MODULE RegistryTrace ---------------------------
(* Checks recorded histories of registries against Registry.                  *)
EXTENDS Registry, Json, IOUtils
Batch == JsonDeserialize(IOEnv.VERIF_BATCH)
VARIABLES i, l, s
vars == <<i, l, s>>
TraceInit == i \in 1..Len(Batch) /\ l = 1 /\ s = EmptyRegs
Clause(R, o) ==
    IF o.st # R.st THEN (IF R.st = "err" THEN "unknown-is-refused" ELSE "known-is-found")
    ELSE IF R.st # "err" /\ o.v # R.v THEN "wrong-answer"
    ELSE IF o.ev # R.ev THEN "evaluation"
    ELSE ""
TraceNext ==
    /\ l <= Len(Batch[i].ops)
    /\ LET op == Batch[i].ops[l]
           R == Do(Batch[i].env, s, op)
       IN /\ PrintT(<<"STEP", i, l, R.st, Clause(R, op.out)>>)
          /\ s' = R.s
    /\ l' = l + 1
    /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
