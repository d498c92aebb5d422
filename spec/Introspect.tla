----------------------------- MODULE Introspect -----------------------------
(* What the schema of a type says: convert_to_schema(), its two siblings and  *)
(* get_fields_expanded().  The conversions of Convert go by the same fields   *)
(* (SchemaOf, Expand); here they are what is observed.                        *)
EXTENDS Session

Described(E, u) == HasSchema(E, u) /\ ~IsNT(E, u) /\ E.cls[u[2]].deco # "pc"

AliasesOf(f) == LET a == AnnSetting(f.t, "Alias") IN IF a = NoSetting THEN <<>> ELSE a[3]
FieldSaid(f) == [n |-> f.n, t |-> f.t, req |-> f.req, dk |-> f.dk, d |-> f.d, flat |-> f.flat, aliases |-> AliasesOf(f)]

(* a sub-field cannot have the name of another field of the object *)
RECURSIVE Clash(_, _)
Clash(E, t) ==
    LET fs == SchemaOf(E, Un(t))
    IN \E i \in 1..Len(fs) : fs[i].flat /\
         ( \/ Clash(E, fs[i].t)
           \/ \E g \in RangeOf(Expand(E, fs[i].t)) : g.n # fs[i].n /\ HasField(fs, g.n) )
(* the fields below a flattened field; of two of a name the last *)
Below(E, f) == LET x == Expand(E, f.t) IN {<<x[i].n, x[i].t>> : i \in {k \in 1..Len(x) : \A j \in k + 1..Len(x) : x[j].n # x[k].n}}

SchemaSaid(E, t) ==
    LET u == Un(t)
        fs == SchemaOf(E, u)
    IN IF ~Described(E, u) THEN [st |-> "refused"]
       ELSE [st |-> "ok", cls |-> u[2], ann |-> AnnS(t), fields |-> {FieldSaid(fs[i]) : i \in 1..Len(fs)},
             exp |-> IF Clash(E, u) THEN {<<"clash", {}>>} ELSE {<<fs[i].n, Below(E, fs[i])>> : i \in {k \in 1..Len(fs) : fs[k].flat}}]

(* Python keeps one of the unions (literals) that have the same members in another order: List[Union[int, str]] may turn out *)
(* to be List[Union[str, int]], so the order of members is not compared *)
RECURSIVE AnyOrder(_)
AnyOrder(t) == CASE t[1] = "ann" -> <<"ann", "", <<AnyOrder(t[3][1]), t[3][2]>>>>
                 [] t[1] = "lit" -> <<"lit", "", RangeOf(t[3])>>
                 [] t[1] = "union" -> <<"union", "", {AnyOrder(t[3][i]) : i \in 1..Len(t[3])}>>
                 [] OTHER -> <<t[1], t[2], [i \in 1..Len(t[3]) |-> AnyOrder(t[3][i])]>>
(* the recorded description o: sequences instead of sets *)
SameField(f, g) == [f EXCEPT !.d = None, !.t = AnyOrder(f.t)] = [g EXCEPT !.d = None, !.t = AnyOrder(g.t)] /\ SameValue(f.d, g.d)
JSchema(E, t, o) ==
    LET s == SchemaSaid(E, t)
    IN IF o.st # s.st THEN "schema-" \o o.st
       ELSE IF o.flags # <<>> THEN "schema-" \o o.flags[1]
       ELSE IF s.st = "refused" THEN ""
       ELSE IF {f.n : f \in RangeOf(o.fields)} # {f.n : f \in s.fields} \/ Len(o.fields) # Cardinality(s.fields) THEN "schema-names"
       ELSE IF \E f \in RangeOf(o.fields) : \A g \in s.fields : ~SameField(f, g) THEN "schema-field"
       ELSE IF o.cls # s.cls THEN "schema-class"
       ELSE IF o.ann # s.ann THEN "schema-annotations"
       ELSE IF {<<x[1], {<<y[1], AnyOrder(y[2])>> : y \in RangeOf(x[2])}>> : x \in RangeOf(o.exp)} # {<<x[1], {<<y[1], AnyOrder(y[2])>> : y \in x[2]}>> : x \in s.exp} THEN "schema-expanded"
       ELSE ""
=============================================================================
