------------------------------- MODULE Types --------------------------------
(* Type hints, class declarations, schemas and settings.                      *)
(* Types are triples <<tag, name, args>>:                                     *)
(*   plain int|str|float|bool|bytes    scal decimal|uuid|path|...   any       *)
(*   coll <ctor> <<T>>  vtuple "" <<T>>  tuple "" Ts   map <ctor> <<K,W>>     *)
(*   union "" Ts  (None member: <<"nonetype","",<<>>>>)   lit "" values       *)
(*   cls <id> args    var <name>    ann "" <<T, settings>>                    *)
(* Settings are triples <<kind, priority, payload>>.                          *)
(* E is the environment of a program: E.cls[id] are class declarations,       *)
(* E.conv[id] custom converters, E.F the table of facts about primitives of   *)
(* the language (numerals, base64, ...) which the model takes as given.       *)
EXTENDS Values

NoneT == <<"nonetype", "", <<>>>>

Un(t)   == IF t[1] = "ann" THEN t[3][1] ELSE t
AnnS(t) == IF t[1] = "ann" THEN t[3][2] ELSE <<>>

(* subclasses among the scalar types *)
ScalBases(n) == CASE n = "path" -> {"purepath"} [] n = "mypath" -> {"path", "purepath"} [] n = "winpath" -> {"purepath"}
                  [] n = "myuuid" -> {"uuid"} [] n = "mydecimal" -> {"decimal"} [] n = "myduration" -> {"duration"} [] OTHER -> {}
ScalIs(n, base) == n = base \/ base \in ScalBases(n)

IsClassHint(t) == t[1] \in {"plain", "nonetype", "any", "scal", "coll", "vtuple", "tuple", "map", "cls"}
IsOptional(t)  == t[1] = "union" /\ NoneT \in RangeOf(t[3])
WithoutNone(t) == LET ms == SelectSeq(t[3], LAMBDA m : m # NoneT)
                  IN IF Len(ms) = 1 THEN ms[1] ELSE <<"union", "", ms>>
(* Python flattens nested Annotated *)
Annotate(t, ss) == IF t[1] = "ann" THEN <<"ann", "", <<t[3][1], t[3][2] \o ss>>>> ELSE <<"ann", "", <<t, ss>>>>

(* name of the runtime class behind a hint *)
TypeName(E, t) ==
    CASE t[1] = "cls" -> E.cls[t[2]].name
      [] t[1] \in {"tuple", "vtuple"} -> "tuple"
      [] t[1] = "nonetype" -> "NoneType"
      [] t[1] = "any" -> "object"
      [] OTHER -> t[2]
TypeKey(t) ==
    CASE t[1] \in {"tuple", "vtuple"} -> "tuple"
      [] t[1] = "nonetype" -> "NoneType"
      [] t[1] = "any" -> "object"
      [] IsClassHint(t) -> t[2]
      [] OTHER -> ""

(* -- type parameters -------------------------------------------------------*)
(* a union as Python forms it: flat and without duplicates *)
RECURSIVE Distinct(_, _)
Distinct(acc, ts) ==
    IF ts = <<>> THEN acc ELSE Distinct(IF Head(ts) \in RangeOf(acc) THEN acc ELSE Append(acc, Head(ts)), Tail(ts))
UnionOfTypes(ts) ==
    LET flat == FlattenSeq_([i \in 1..Len(ts) |-> IF ts[i][1] = "union" THEN ts[i][3] ELSE <<ts[i]>>])
        ms == Distinct(<<>>, flat)
    IN IF Len(ms) = 1 THEN ms[1] ELSE <<"union", "", ms>>

RECURSIVE Subst(_, _)
Subst(t, pm) ==
    CASE t[1] = "var" -> IF HasPair(pm, t[2]) THEN GetPair(pm, t[2]) ELSE t
      [] t[1] = "union" -> UnionOfTypes([i \in 1..Len(t[3]) |-> Subst(t[3][i], pm)])
      [] t[1] \in {"coll", "vtuple", "tuple", "map", "cls"} ->
            <<t[1], t[2], [i \in 1..Len(t[3]) |-> Subst(t[3][i], pm)]>>
      [] t[1] = "ann" -> Annotate(Subst(t[3][1], pm), t[3][2])
      [] OTHER -> t
ParamMap(E, t) ==
    LET ps == E.cls[t[2]].params
    IN IF t[3] = <<>> THEN <<>> ELSE [i \in 1..Len(ps) |-> <<ps[i], t[3][i]>>]

(* -- settings ---------------------------------------------------------------*)
NoSetting == <<"NoSetting", 0, <<>>>>
OfKind(ss, kind) == SelectSeq(ss, LAMBDA s : s[1] = kind)
Highest(ss) ==
    IF ss = <<>> THEN NoSetting
    ELSE LET top == CHOOSE p \in {ss[i][2] : i \in 1..Len(ss)} : \A i \in 1..Len(ss) : ss[i][2] <= p
         IN ss[IndexOf(ss, LAMBDA s : s[2] = top)]
AnnSetting(t, kind) == Highest(OfKind(AnnS(t), kind))
ClassSettings(E, t) == IF Un(t)[1] = "cls" THEN E.cls[Un(t)[2]].settings ELSE <<>>
Enabled(s) == s[3][1]

Pred(E, pr, c) ==
    CASE pr[1] = "always" -> TRUE
      [] pr[1] = "never"  -> FALSE
      [] pr[1] = "keyIs"  -> c.p # <<>> /\ c.p[Len(c.p)] = <<"s", pr[2]>>
      [] pr[1] = "typeIs" -> TypeKey(Un(c.t)) = pr[2]
      [] pr[1] = "isRoot" -> c.p = <<>>
      [] pr[1] = "dirIs"  -> c.dir = pr[2]

(* A settings provider is a sequence of layers, the first one innermost (the  *)
(* settings of the call), each with local, provided and global settings.      *)
RECURSIVE ResolveIn(_, _, _, _)
ResolveIn(E, layers, kind, c) ==
    IF layers = <<>> THEN NoSetting
    ELSE LET L == Head(layers)
             key == TypeKey(Un(c.t))
             loc == SelectSeq(L.loc, LAMBDA x : key # "" /\ x[1] = key)
             prv == SelectSeq(L.prov, LAMBDA x : Pred(E, x[1], c))
             par == ResolveIn(E, Tail(layers), kind, c)
             all == AnnS(c.t) \o ClassSettings(E, c.t)
                    \o [i \in 1..Len(loc) |-> loc[i][2]] \o [i \in 1..Len(prv) |-> prv[i][2]]
                    \o L.glob \o (IF par = NoSetting THEN <<>> ELSE <<par>>)
         IN Highest(OfKind(all, kind))
Resolve(E, kind, c) == ResolveIn(E, c.S, kind, c)

(* -- dataclass fields, as the standard library collects them --------------- *)
IsDC(E, id) == E.cls[id].kind = "dc"
RECURSIVE DCF(_, _)
DCF(E, id) ==   (* ordered dictionary: field name -> class that provides the field *)
    LET rec   == E.cls[id]
        bases == SelectSeq(Tail(rec.mro), LAMBDA b : IsDC(E, b))
        rev   == [i \in 1..Len(bases) |-> bases[Len(bases) + 1 - i]]
        inh   == FoldPairs(<<>>, FlattenSeq_([i \in 1..Len(rev) |-> DCF(E, rev[i])]))
    IN FoldPairs(inh, [i \in 1..Len(rec.own) |-> <<rec.own[i].n, id>>])

(* a field that is redeclared without a default finds the class attribute that *)
(* a base has for its own default                                              *)
OwnField(E, id, n) ==
    LET f == E.cls[id].own[IndexOf(E.cls[id].own, LAMBDA x : x.n = n)]
        up == SelectSeq(Tail(E.cls[id].mro), LAMBDA b : \E i \in 1..Len(E.cls[b].own) : E.cls[b].own[i].n = n /\ E.cls[b].own[i].dk = "val")
        g == E.cls[up[1]].own[IndexOf(E.cls[up[1]].own, LAMBDA x : x.n = n)]
    IN IF f.dk = "no" /\ up # <<>> THEN [f EXCEPT !.dk = "val", !.d = g.d] ELSE f

(* -- schema fields ----------------------------------------------------------*)
(* [n, t, req, has, dk, d, flat]: name, type, required, has a default, kind    *)
(* and value of the default, flattened.                                       *)
MkField(f, t) ==
    LET r   == AnnSetting(t, "Required")
        fl  == AnnSetting(t, "Flattened")
        has == f.dk # "no"
        req == IF r # NoSetting THEN Enabled(r) ELSE IF IsOptional(Un(t)) THEN FALSE ELSE ~has
    IN [n |-> f.n, t |-> t, req |-> req, has |-> has \/ ~req,
        dk |-> IF has THEN f.dk ELSE IF ~req THEN "val" ELSE "no",
        d |-> IF has THEN f.d ELSE None,
        flat |-> fl # NoSetting /\ Enabled(fl)]

FieldNames(fs) == {fs[i].n : i \in 1..Len(fs)}
HasField(fs, n) == n \in FieldNames(fs)
FieldOf(fs, n) == fs[IndexOf(fs, LAMBDA f : f.n = n)]

RECURSIVE DCSchema(_, _, _, _)
DCSchema(E, orig, queue, acc) ==
    IF queue = <<>> THEN acc
    ELSE LET h    == Head(queue)
             pm   == ParamMap(E, h)
             rec  == E.cls[h[2]]
             names == DCF(E, h[2])
             mine == SelectSeq([i \in 1..Len(names) |-> OwnField(E, names[i][2], names[i][1])], LAMBDA f : f.init /\ ~HasField(acc, f.n) /\ GetPair(orig, f.n) = h[2] /\ GetPair(names, f.n) = h[2])
             new  == [i \in 1..Len(mine) |-> MkField(mine[i], Subst(mine[i].t, pm))]
             bs   == SelectSeq([i \in 1..Len(rec.bases) |-> Subst(rec.bases[i], pm)],
                               LAMBDA b : b[1] = "cls" /\ IsDC(E, b[2]))
         IN DCSchema(E, orig, Tail(queue) \o bs, acc \o new)

(* the keys of a typed dict, as they were declared: the last declaration, where *)
(* the first one was; one without a default keeps that of the base            *)
RECURSIVE TDKeys(_, _)
TDKeys(E, id) ==
    LET rec == E.cls[id]
        own == [i \in 1..Len(rec.own) |-> [f |-> rec.own[i], total |-> rec.total]]
        inh == FlattenSeq_([i \in 1..Len(rec.bases) |-> TDKeys(E, rec.bases[i][2])])
        from(n) == SelectSeq(inh, LAMBDA x : x.f.n = n)
        last(n) == from(n)[Len(from(n))].f
        kept(x) == IF x.f.dk = "no" /\ from(x.f.n) # <<>> THEN [x EXCEPT !.f.dk = last(x.f.n).dk, !.f.d = last(x.f.n).d] ELSE x
        all == inh \o [i \in 1..Len(own) |-> kept(own[i])]
        merged == FoldPairs(<<>>, [i \in 1..Len(all) |-> <<all[i].f.n, all[i]>>])
    IN [i \in 1..Len(merged) |-> merged[i][2]]
TDSchema(E, id) ==
    LET ks == TDKeys(E, id)
        MkTD(x) == LET m == MkField(x.f, x.f.t) IN [m EXCEPT !.req = m.req /\ x.total]
    IN [i \in 1..Len(ks) |-> MkTD(ks[i])]

NTSchema(E, id) ==
    LET own == E.cls[id].own
    IN [i \in 1..Len(own) |->
          [n |-> own[i].n, t |-> own[i].t, req |-> own[i].dk = "no", has |-> own[i].dk # "no",
           dk |-> own[i].dk, d |-> own[i].d, flat |-> FALSE]]

HasSchema(E, t) == t[1] = "cls" /\ E.cls[t[2]].kind \in {"dc", "td", "nt"}
SchemaOf(E, t) ==
    CASE E.cls[t[2]].kind = "dc" -> DCSchema(E, DCF(E, t[2]), <<t>>, <<>>)
      [] E.cls[t[2]].kind = "td" -> TDSchema(E, t[2])
      [] E.cls[t[2]].kind = "nt" -> NTSchema(E, t[2])

(* fields of a flattened field's schema, recursively expanded *)
RECURSIVE Expand(_, _)
Expand(E, t) ==
    LET fs == SchemaOf(E, Un(t))
        plain == SelectSeq(fs, LAMBDA f : ~f.flat)
        flat  == SelectSeq(fs, LAMBDA f : f.flat)
    IN plain \o FlattenSeq_([i \in 1..Len(flat) |-> Expand(E, flat[i].t)])

IsSubclass(E, a, b) == b \in RangeOf(E.cls[a].mro)

(* item type (n = 1) or key and value type (n = 2) of collections and mappings *)
RECURSIVE ElemArgs(_, _, _, _)
ElemArgs(E, queue, acc, n) ==
    IF queue = <<>> THEN acc
    ELSE LET h == Head(queue)
             tags == IF n = 1 THEN {"coll", "vtuple", "cls"} ELSE {"map", "cls"}
             acc2 == IF Len(h[3]) = n /\ h[1] \in tags THEN acc \cup {h[3]} ELSE acc
             bs == IF h[1] # "cls" THEN <<>>
                   ELSE [i \in 1..Len(E.cls[h[2]].bases) |-> Subst(E.cls[h[2]].bases[i], ParamMap(E, h))]
         IN ElemArgs(E, Tail(queue) \o bs, acc2, n)

IsUColl(E, t) == t[1] = "cls" /\ E.cls[t[2]].kind = "ucoll"
IsUMap(E, t)  == t[1] = "cls" /\ E.cls[t[2]].kind = "umap"
IsNT(E, t)    == t[1] = "cls" /\ E.cls[t[2]].kind = "nt"
IsTD(E, t)    == t[1] = "cls" /\ E.cls[t[2]].kind = "td"
IsEnumT(E, t) == t[1] = "cls" /\ E.cls[t[2]].kind \in {"enum", "ienum"}

(* -- isinstance() -----------------------------------------------------------*)
Builtins == {"list", "tuple", "deque", "set", "frozenset", "dict", "OrderedDict", "defaultdict", "UserDict", "mappingproxy"}
(* builtin kind at the bottom of a container value *)
BaseKind(E, v) == IF Tok(v) \in Builtins THEN Tok(v) ELSE E.cls[Tok(v)].ctor
IsNTV(E, v)  == Tag(v) = "obj" /\ E.cls[Tok(v)].kind = "nt"
IsCollV(E, v) == Tag(v) \in {"seq", "set"} \/ IsNTV(E, v)
ItemsOf(E, v) == CASE Tag(v) \in {"seq", "set"} -> Kids(v)
                   [] OTHER -> [i \in 1..Len(Kids(v)) |-> Kids(v)[i][2]]
IsInstColl(E, v, t) ==
    LET k == IF IsNTV(E, v) THEN "tuple" ELSE IF IsCollV(E, v) \/ IsMap(v) THEN BaseKind(E, v) ELSE ""
    IN IF t[1] = "cls" THEN IsCollV(E, v) /\ ~IsNTV(E, v) /\ Tok(v) \notin Builtins /\ IsSubclass(E, Tok(v), t[2])
       ELSE IF t[1] \in {"tuple", "vtuple"} THEN k = "tuple"
       ELSE CASE t[2] \in {"list", "deque", "set", "frozenset"} -> k = t[2]
              [] t[2] = "Sequence" -> k \in {"list", "tuple", "deque"}
              [] t[2] = "MutableSequence" -> k \in {"list", "deque"}
              [] t[2] = "Set" -> k \in {"set", "frozenset"}
              [] t[2] = "MutableSet" -> k = "set"
              [] t[2] = "Collection" -> k # ""
RECURSIVE Hashable(_, _)
Hashable(E, v) ==
    CASE Tag(v) = "seq" -> BaseKind(E, v) = "tuple" /\ \A i \in 1..Len(Kids(v)) : Hashable(E, Kids(v)[i])
      [] Tag(v) = "set" -> BaseKind(E, v) = "frozenset"
      [] Tag(v) = "map" -> FALSE
      [] Tag(v) = "obj" -> (E.cls[Tok(v)].kind = "nt" \/ E.cls[Tok(v)].frozen) /\ \A i \in 1..Len(Kids(v)) : Hashable(E, Kids(v)[i][2])
      [] Tag(v) \in {"decimal", "mydecimal"} -> ~((Len(Tok(v)) >= 4 /\ SubSeq(Tok(v), 1, 4) = "sNaN") \/ (Len(Tok(v)) >= 5 /\ SubSeq(Tok(v), 1, 5) = "-sNaN"))
      [] OTHER -> TRUE
IsInstCls(E, v, id) == Tag(v) \in {"obj", "enum"} /\ IsSubclass(E, Tok(v), id)
IsInt(E, v) == Tag(v) \in {"int", "bool"} \/ (Tag(v) = "enum" /\ E.cls[Tok(v)].kind = "ienum")
IsInstPlain(E, v, n) ==
    CASE n = "int" -> IsInt(E, v)
      [] n = "list" -> Tag(v) = "seq" /\ BaseKind(E, v) = "list"
      [] n = "dict" -> Tag(v) = "map" /\ BaseKind(E, v) \notin {"UserDict", "mappingproxy"}
      [] n = "tuple" -> (Tag(v) = "seq" /\ BaseKind(E, v) = "tuple") \/ IsNTV(E, v)
      [] OTHER -> Tag(v) = n
(* runtime type of a value, as a key for comparison with TypeKey *)
TypeKeyOfV(v) == CASE Tag(v) \in {"obj", "enum", "seq", "set", "map"} -> Tok(v)
                   [] OTHER -> Tag(v)
(* members of an enumeration, in order: [n, aliases, val]; a later name of the *)
(* same value is another name of the first                                     *)
AllNames(E, id) == E.cls[id].members
FirstOf(E, id, val) == SelectSeq(AllNames(E, id), LAMBDA m : m.val = val)[1]
Members(E, id) == SelectSeq(AllNames(E, id), LAMBDA m : FirstOf(E, id, m.val) = m)
NamesOf(E, id, m) == {x.n : x \in {y \in RangeOf(AllNames(E, id)) : y.val = m.val}}
MemberOf(E, v) == Members(E, Tok(v))[IndexOf(Members(E, Tok(v)), LAMBDA m : m.n = Tok(Kids(v)[1]))]
=============================================================================
