--------------------------- MODULE RegistryThreads ---------------------------
(* Two lookups at the same time, in registries none of which has been asked   *)
(* before: whichever takes effect first, each answers as it would alone.      *)
(* Every pair is printed and replayed with two threads that are interleaved   *)
(* at the lines of the real code.                                             *)
EXTENDS Registry, Json
E0 == [split |-> <<>>, tree |-> <<>>, names |-> <<>>]
Lazy(t) == [lazy |-> TRUE, t |-> t, uid |-> "u"]
Eager(t) == [lazy |-> FALSE, t |-> t, uid |-> "v"]
Start == [EmptyRegs EXCEPT !.regs =
            << <<"R", [kind |-> "static", entries |-> <<<<"x", Lazy(Cls("B"))>>, <<"a", Eager(Cls("C"))>>, <<"z", Lazy(Cls("S"))>>>>, parts |-> <<>>]>>,
               <<"P", [kind |-> "ep", entries |-> <<<<"a", Cls("A")>>, <<"e2", Cls("S")>>, <<"e3", Cls("A")>>, <<"in", Cls("In")>>>>, parts |-> <<>>]>>,
               <<"C", [kind |-> "chain", entries |-> <<>>, parts |-> <<"R", "P">>]>> >>]
Questions ==
    {[op |-> "byid", r |-> "P", id |-> id] : id \in {"a", "in", "zz"}} \cup {[op |-> "byty", r |-> "P", t |-> Cls(n)] : n \in {"In", "B"}} \cup {[op |-> "ids", r |-> "P"]}
    \cup {[op |-> "byid", r |-> "R", id |-> id] : id \in {"x", "z"}} \cup {[op |-> "byty", r |-> "R", t |-> Cls("S")], [op |-> "ids", r |-> "R"]}
    \cup {[op |-> "byid", r |-> "C", id |-> id] : id \in {"a", "in"}} \cup {[op |-> "byty", r |-> "C", t |-> Cls("In")], [op |-> "ids", r |-> "C"]}
Nothing == [st |-> "", v |-> ""]
Answer(R) == [st |-> R.st, v |-> R.v]
Alone(q) == Answer(Do(E0, Start, q))
\* registries that the lookups have in common
Reach(r) == IF r = "C" THEN {"R", "P"} ELSE {r}

VARIABLES team, s, out
vars == <<team, s, out>>
Init == /\ team \in {q \in Questions \X Questions : Reach(q[1].r) \cap Reach(q[2].r) # {}}
        /\ s = Start
        /\ out = <<Nothing, Nothing>>
        /\ PrintT(<<"PAIR", ToJson([ops |-> team, outs |-> [i \in 1..2 |-> Alone(team[i])], regs |-> Start.regs])>>)
Take(i) == /\ out[i] = Nothing
           /\ LET R == Do(E0, s, team[i]) IN s' = R.s /\ out' = [out EXCEPT ![i] = Answer(R)]
           /\ UNCHANGED team
Next == \E i \in 1..2 : Take(i)
Spec == Init /\ [][Next]_vars
C19 == \A i \in 1..2 : out[i] # Nothing => out[i] = Alone(team[i])
=============================================================================
