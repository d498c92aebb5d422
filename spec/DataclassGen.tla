----------------------------- MODULE DataclassGen ---------------------------
(* All programs of one class (Pairs = FALSE) or of a class and its subclass   *)
(* over a small menu of field declarations and options, with every way to     *)
(* call the constructor and the outcomes DataclassExt specifies.  Each        *)
(* program is printed and replayed against the real decorator.                *)
EXTENDS DataclassExt, Json, IOUtils
CONSTANTS Pairs, MaxOwn, Menu, Options
VARIABLES p, done
vars == <<p, done>>

F0(n) == [n |-> n, role |-> "field", src |-> "bare", def |-> "none", v |-> <<"i", <<0>>>>, init |-> TRUE, kw |-> "", cmp |-> TRUE, repr |-> TRUE, hash |-> "", meta |-> <<>>]
Form(n, k) ==
    LET f == F0(n)
    IN CASE k = "req" -> f
         [] k = "val" -> [f EXCEPT !.def = "value", !.v = <<"i", <<5>>>>]
         [] k = "none" -> [f EXCEPT !.src = "field", !.def = "value", !.v = <<"n", <<>>>>]
         [] k = "fac" -> [f EXCEPT !.src = "field", !.def = "factory", !.v = <<"l", <<6>>>>]
         [] k = "fieldreq" -> [f EXCEPT !.src = "field"]
         [] k = "kwreq" -> [f EXCEPT !.src = "field", !.kw = "yes"]
         [] k = "kwval" -> [f EXCEPT !.src = "field", !.kw = "yes", !.def = "value", !.v = <<"i", <<7>>>>]
         [] k = "ivreq" -> [f EXCEPT !.role = "initvar"]
         [] k = "ivval" -> [f EXCEPT !.role = "initvar", !.def = "value", !.v = <<"i", <<8>>>>]
         [] k = "noinit" -> [f EXCEPT !.src = "field", !.init = FALSE, !.def = "value", !.v = <<"i", <<9>>>>]
         [] k = "unset" -> [f EXCEPT !.src = "field", !.init = FALSE]
         [] k = "cv" -> [f EXCEPT !.role = "classvar", !.def = "value", !.v = <<"i", <<4>>>>]
         [] k = "cvreq" -> [f EXCEPT !.role = "classvar"]
         [] OTHER -> [f EXCEPT !.n = "_" \o n, !.role = "marker"]

NameSeqs == IF Pairs THEN {q \in UNION {[1..k -> {"a", "b", "c"}] : k \in 0..MaxOwn} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
            ELSE {q \in UNION {[1..k -> {"a", "b", "c", "d"}] : k \in 0..MaxOwn} : \A i \in DOMAIN q : q[i] = <<"a", "b", "c", "d">>[i]}
OwnLists(names) == UNION {{[i \in 1..Len(q) |-> <<q[i], ks[i]>>] : ks \in [1..Len(q) -> Menu]} : q \in names}
BaseNames == {<<"a">>, <<"a", "b">>}
Derived == OwnLists(NameSeqs)
Bases == IF Pairs THEN OwnLists(BaseNames) ELSE {<<>>}
Posts == {"", "log"}

Cl(kind, mro, opts, own, post) ==
    [kind |-> kind, std |-> FALSE, mro |-> mro, opts |-> opts, own |-> [i \in 1..Len(own) |-> Form(own[i][1], own[i][2])], attrs |-> <<>>, post |-> post]
Env(q) ==
    [strict |-> FALSE, names |-> <<"a", "b", "c", "d">>,
     cls |-> IF Pairs THEN [c \in {"K0", "K1"} |-> IF c = "K0" THEN Cl("dc", <<"K0">>, q.opts, q.base, "") ELSE Cl("dc", <<"K1", "K0">>, q.opts, q.own, q.post)]
             ELSE [c \in {"K1"} |-> Cl("dc", <<"K1">>, q.opts, q.own, q.post)]]
Classes == IF Pairs THEN <<"K0", "K1">> ELSE <<"K1">>

(* values: the i-th positional argument is i, the keyword argument n is its index + 10 *)
Arg(k) == <<"i", <<k>>>>
SetToSeqOf(S, all) == SelectSeq(all, LAMBDA x : x \in S)
Calls(E) ==
    LET ps == InitParams(E, "K1")
        names == [i \in 1..Len(ps) |-> ps[i][1]]
        npos == Len(PosParams(E, "K1"))
    IN {[pos |-> [i \in 1..k |-> Arg(i)], kw |-> [i \in 1..Len(ns) |-> <<ns[i], Arg(10 + i)>>]] :
            k \in 0..(npos + 1), ns \in {SetToSeqOf(S, names) : S \in SUBSET RangeOf(names)}}
       \* at most one argument too many
Cases(E) == {[pos |-> c.pos, kw |-> c.kw, out |-> LET r == Made(E, <<>>, "o", "K1", New(E, "K1", c)) IN [st |-> r.res.st, v |-> r.res.v, log |-> r.log]] : c \in Calls(E)}

Opts(o) == CASE o = "" -> <<>> [] o = "frozenslots" -> <<"frozen", "slots">> [] OTHER -> <<o>>
Programs == {[base |-> b, own |-> d, opts |-> Opts(o), post |-> t] : b \in Bases, d \in Derived, o \in Options, t \in Posts}
Init == p \in Programs /\ done = FALSE
RefusedAt(E) == IF Pairs /\ Refused(E, "K0") THEN "K0" ELSE IF Refused(E, "K1") THEN "K1" ELSE ""
Next == /\ ~done
        /\ done' = TRUE
        /\ p' = p
        /\ LET E == Env(p)
               r == RefusedAt(E)
           IN PrintT(<<"HIST", ToJson([cls |-> E.cls, refused |-> r, calls |-> IF r # "" THEN {} ELSE Cases(E),
                                       fields |-> IF r # "" THEN <<>> ELSE FieldList(E, "K1").v])>>)
Spec == Init /\ [][Next]_vars
C18 == done => LET E == Env(p) IN RefusedAt(E) = "" => \A c \in Calls(E) : Sound(E, "K1", c)
=============================================================================
