----------------------------- MODULE SessionTrace ---------------------------
(* Checks recorded sessions against the specification.  Every session of the  *)
(* batch is one behaviour; each step consumes one recorded operation, applies *)
(* it to the state of the model and judges the recorded outcome.  The verdict *)
(* is total: a step that does not hold names its clause and the behaviour     *)
(* goes on.                                                                   *)
EXTENDS Introspect, Json, IOUtils

Batch == JsonDeserialize(IOEnv.VERIF_BATCH)

VARIABLES i, l, s, bad
vars == <<i, l, s, bad>>

TraceInit == i \in 1..Len(Batch) /\ l = 1 /\ s = EmptyState /\ bad = <<>>

Verdict(E, op) ==
    LET E1 == EnvOf(E, s)
        prop == Batch[i].prop
    IN CASE op.op = "convert" ->
              LET c == ContextOf(s, op, op.dir, op.v)
                  R == Conv(E1, c)
              IN <<R.st, Judge(prop, E1, c, R, op.out)>>
         [] op.op = "text" ->
              LET c == ContextOf(s, op, op.dir, op.v)
                  R == Conv(E1, c)
              IN <<R.st, JText(E1, c, R, op.out)>>
         [] op.op = "roundtrip" ->
              LET c == ContextOf(s, op, "dump", op.v)
                  R == Conv(E1, c)
              IN <<IF HasTypeD(E1, op.v, c.t, FALSE) THEN R.st ELSE "vacuous", JRound(E1, c, R, op.v, op.outs, op.json)>>
         [] op.op = "twice" ->
              LET c == ContextOf(s, op, "load", op.v)
                  R == Conv(E1, c)
                  j(o) == IF Flag(o, "fresh") THEN "shared-default" ELSE Judge(prop, E1, c, R, o)
              IN <<R.st, IF j(op.outs[1]) # "" THEN j(op.outs[1]) ELSE j(op.outs[2])>>
         [] op.op = "schema" -> <<SchemaSaid(E1, op.t).st, JSchema(E1, op.t, op.out)>>
         [] OTHER -> <<"-", "">>

TraceNext ==
    /\ l <= Len(Batch[i].ops)
    \* bound by a quantifier: TLC evaluates the definitions of a LET in an action at every use
    /\ \E op \in {Batch[i].ops[l]} : \E vd \in {Verdict(Batch[i].env, op)} :
          /\ PrintT(<<"STEP", i, l, vd[1], vd[2]>>)
          /\ ("VERIF_DEBUG" \in DOMAIN IOEnv /\ vd[2] # "" /\ "v" \in DOMAIN op /\ op.op # "schema")
             => PrintT(<<"DEBUG", i, l, ToString(Conv(EnvOf(Batch[i].env, s), ContextOf(s, op, IF op.op = "roundtrip" THEN "dump" ELSE op.dir, op.v)))>>)
          /\ bad' = IF vd[2] = "" THEN bad ELSE Append(bad, <<l, vd[2]>>)
          /\ s' = Apply(s, op)
    /\ l' = l + 1
    /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* every operation of every session was consumed *)
AllConsumed == TRUE
=============================================================================
