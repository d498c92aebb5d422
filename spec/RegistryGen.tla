----------------------------- MODULE RegistryGen ----------------------------
(* All histories of Depth operations on two registries R, S and their chain C *)
(* (identifiers up to renaming), with the outcomes Registry specifies.  Each  *)
(* complete history is printed and replayed against the real code; the        *)
(* property of C19 itself is an invariant.                                    *)
EXTENDS Registry, Json, IOUtils
CONSTANTS Depth, Lone
IdOrder == <<"ab", "ac", "b">>
Ids == RangeOf(IdOrder)
Types == {Cls("A"), Cls("B")}
E0 == [split |-> <<>>, tree |-> <<>>, names |-> <<>>]
VARIABLES s, h
vars == <<s, h>>

Start == [EmptyRegs EXCEPT !.regs =
            <<<<"R", [kind |-> "static", entries |-> <<>>, parts |-> <<>>]>>>> \o
            (IF Lone THEN <<>> ELSE <<<<"S", [kind |-> "static", entries |-> <<>>, parts |-> <<>>]>>,
                                      <<"C", [kind |-> "chain", entries |-> <<>>, parts |-> <<"R", "S">>]>>>>)]
Statics == IF Lone THEN {"R"} ELSE {"R", "S"}
Asked == IF Lone THEN {"R"} ELSE {"C", "R"}
Used == {h[k].op.id : k \in {j \in 1..Len(h) : h[j].op.op \in {"reg", "del", "byid"}}}
(* used identifiers and the next one *)
Offered == {IdOrder[k] : k \in {j \in 1..Len(IdOrder) : j = 1 \/ IdOrder[j - 1] \in Used \/ IdOrder[j] \in Used}} \cap (IF Lone THEN Ids ELSE {"ab", "ac"})
Refs == {Cls("A"), Cls("B"), <<"hint", "A">>}

Ops == {[op |-> "reg", r |-> r, id |-> id, p |-> [lazy |-> z, t |-> t, uid |-> ToString(Len(h))]] :
            r \in Statics, id \in Offered, z \in BOOLEAN, t \in (IF Lone THEN Refs ELSE Types)}
       \cup {[op |-> "del", r |-> x[1], id |-> x[2]] : x \in {y \in Statics \X Offered : HasPair(GetPair(s.regs, y[1]).entries, y[2])}}
       \cup {[op |-> "byid", r |-> r, id |-> id] : r \in Asked, id \in Offered}
       \cup {[op |-> "byty", r |-> r, t |-> t] : r \in Asked, t \in Types}
       \cup {[op |-> "ids", r |-> r] : r \in Asked}
Init == s = Start /\ h = <<>>
(* a history ends with a question *)
Next == /\ Len(h) < Depth
        /\ \E op \in Ops :
            /\ Len(h) = Depth - 1 => op.op \notin {"reg", "del"}
            /\ LET R == Do(E0, s, op)
                   h1 == Append(h, [op |-> op, out |-> [st |-> R.st, v |-> R.v, ev |-> R.ev]])
               IN /\ s' = R.s
                  /\ h' = h1
                  /\ Len(h1) = Depth => PrintT(<<"HIST", ToJson(h1)>>)
Spec == Init /\ [][Next]_vars
C19 == Consistent(E0, s, Ids, Types)
=============================================================================
