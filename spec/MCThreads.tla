------------------------------- MODULE MCThreads ------------------------------
(* Conversions that run at the same time over the same classes, converters     *)
(* and settings: every interleaving at the calls into user code.               *)
EXTENDS Machine, Json, IOUtils
CONSTANTS Emit
U == JsonDeserialize(IOEnv.VERIF_UNIVERSE)
E == U.env
RECURSIVE ApplyAll(_, _)
ApplyAll(st, ops) == IF ops = <<>> THEN st ELSE ApplyAll(Apply(st, Head(ops)), Tail(ops))
Start == ApplyAll(EmptyState, U.prelude)
EE == EnvOf(E, Start)
Context(i) == ContextOf(Start, U.probes[i], U.probes[i].dir, U.probes[i].v)

VARIABLES team, ps, hist, alone      \* team: the numbers of the probes that run; hist: who made the steps
vars == <<team, ps, hist, alone>>
Init == /\ team \in RangeOf(U.teams)
        /\ ps = [i \in 1..Len(team) |-> Process(Context(team[i]))]
        /\ alone = [i \in 1..Len(team) |-> Conv(EE, Context(team[i]))]
        /\ hist = <<>>
        /\ Emit => PrintT(<<"CASE", ToJson(<<team, <<>>, alone>>)>>)
Next == \E i \in 1..Len(team) : ~Ended(ps[i]) /\ \E Q \in {[ps EXCEPT ![i] = Run(EE, ps[i])]} :
          /\ ps' = Q
          /\ hist' = Append(hist, i)
          /\ Emit /\ (\A j \in 1..Len(team) : Ended(Q[j])) => PrintT(<<"CASE", ToJson(<<team, Append(hist, i), <<>>>>)>>)
          /\ UNCHANGED <<team, alone>>
Spec == Init /\ [][Next]_vars
(* C22: each has the outcome and makes the calls that it would alone *)
Isolated == \A i \in 1..Len(team) :
    /\ SubSeq(alone[i].log, 1, Len(ps[i].log)) = ps[i].log
    /\ Ended(ps[i]) => ps[i].log = alone[i].log /\ Plain(ps[i].r) = Plain(alone[i])
=============================================================================
