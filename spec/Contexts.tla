------------------------------ MODULE Contexts ------------------------------
(* The chain of contexts of a conversion: every converter on the way spawns   *)
(* the next one, under a key and perhaps with a location of its own (file,    *)
(* line, column).  A location that is not given has the file of the context   *)
(* above, but neither line nor column.  The trace of an error has one line    *)
(* per context, from the root on, and names a file where it changes.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Wide          \* length of the chains; up to this length with all keys and locations

VARIABLES chain
vars == <<chain>>

None == "None"
Loc(f, l, c) == [file |-> f, line |-> l, col |-> c]
Inherit == Loc("inherit", None, None)
AllLocs == {Loc(f, l, c) : f \in {None, "f", "g"}, l \in {None, "3"}, c \in {None, "4"}}
FewLocs == {Loc(f, None, None) : f \in {None, "f", "g"}} \cup {Inherit}
MidLocs == {Loc("f", "3", None), Loc("g", None, "4"), Loc(None, "3", "4")} \cup FewLocs
RootKey == <<"root", "">>
AllKeys == {<<"str", "a">>, <<"str", "0">>, <<"int", "0">>, <<"none", "">>, <<"float", "1.5">>, <<"bytes", "b'x'">>, <<"tuple", "(1, 'a')">>}
FewKeys == {<<"str", "a">>, <<"int", "0">>}

Init == \E l \in AllLocs : chain = <<[key |-> RootKey, loc |-> l, given |-> l]>>

Last == chain[Len(chain)]
Spawn(k, l) ==
    chain' = Append(chain, [key |-> k, given |-> l, loc |-> IF l = Inherit THEN Loc(Last.loc.file, None, None) ELSE l])
Next ==
    /\ Len(chain) < Depth
    /\ IF Len(chain) < Wide THEN \E k \in AllKeys, l \in MidLocs : Spawn(k, l)
                            ELSE \E k \in FewKeys, l \in FewLocs : Spawn(k, l)
Spec == Init /\ [][Next]_vars

\* the trace
Shown(k) == CASE k[1] = "root" -> "$"
              [] k[1] = "none" -> "^"
              [] k[1] = "str"  -> "." \o k[2]
              [] OTHER         -> "[" \o k[2] \o "]"
At(l) == IF l.line = None /\ l.col = None THEN "" ELSE "(at " \o l.line \o ":" \o l.col \o ")"
\* the file that was named last above the i-th context
RECURSIVE Named(_)
Named(i) == IF i = 1 THEN None ELSE IF chain[i - 1].loc.file # None THEN chain[i - 1].loc.file ELSE Named(i - 1)
Lines == [i \in 1..Len(chain) |->
            [file |-> IF chain[i].loc.file # None /\ chain[i].loc.file # Named(i) THEN chain[i].loc.file ELSE "",
             key  |-> Shown(chain[i].key), at |-> At(chain[i].loc)]]

\* properties of the design
C06 == /\ Lines[1].key = "$" /\ \A i \in 2..Len(chain) : Lines[i].key # "$"
       \* a context is in the file named last, if it is in one
       /\ \A i \in 1..Len(chain) : chain[i].loc.file # None =>
            \E j \in 1..i : Lines[j].file = chain[i].loc.file /\ \A m \in j + 1..i : Lines[m].file = ""
       \* no file is named twice in a row
       /\ \A i, j \in 1..Len(chain) : i < j /\ Lines[i].file # "" /\ Lines[i].file = Lines[j].file =>
            \E m \in i + 1..j - 1 : Lines[m].file \notin {"", Lines[i].file}
       /\ \A i \in 2..Len(chain) : chain[i].given = Inherit =>
            chain[i].loc.file = chain[i - 1].loc.file /\ Lines[i].at = "" /\ Lines[i].file = ""

Emit == PrintT(<<"CHAIN", ToJson([chain |-> chain, lines |-> Lines])>>)
=============================================================================
