-------------------------------- MODULE Props -------------------------------
(* The properties of conversions, stated without reference to how Convert     *)
(* arrives at a result.  They are invariants of the bounded models (modules   *)
(* MC) and the judgement of recorded executions (module SessionTrace).        *)
EXTENDS Convert

IsCustom(E, t) ==
    \/ AnnSetting(t, "JsonConverter") # NoSetting
    \/ OfKind(ClassSettings(E, t), "JsonConverter") # <<>>
UnionOf(E, t) ==  (* the Union setting that a type carries *)
    LET a == AnnSetting(t, "Union") IN IF a # NoSetting THEN a ELSE Highest(OfKind(ClassSettings(E, t), "Union"))

\* what DeserializeAs gives another schema to
IsSchema(E, u) == u[1] = "cls" /\ E.cls[u[2]].kind \in {"dc", "td"}

AbstractColls == {"Sequence", "Collection", "MutableSequence", "Set", "MutableSet"}

(* -- C01: v is an inhabitant of t, as loading produces it ---------------------*)
RECURSIVE HasTypeD(_, _, _, _)
HasTypeD(E, v, t, dflt) ==  \* dflt: a field may also have its default, whatever that is
    LET u  == Un(t)
        un == UnionOf(E, t)
        das == AnnSetting(t, "DeserializeAs")
        itemT(n) == CHOOSE a \in ElemArgs(E, <<u>>, {}, n) : TRUE
        items(T) == \A i \in 1..Len(Kids(v)) : HasTypeD(E, Kids(v)[i], T, dflt)
        pairs(K, W) == \A i \in 1..Len(Kids(v)) : HasTypeD(E, Kids(v)[i][1], K, dflt) /\ HasTypeD(E, Kids(v)[i][2], W, dflt)
        kindOK(ctor, name) ==
            CASE ctor \in {"set", "frozenset"} -> Tag(v) = "set" /\ Tok(v) = name
              [] ctor \in AbstractColls -> Tag(v) = "seq" /\ Tok(v) = "list"
              [] OTHER -> Tag(v) = "seq" /\ Tok(v) = name
        fields(id) == LET fs == SchemaOf(E, <<"cls", id, IF u[2] = id THEN u[3] ELSE <<>>>>)
                      IN \A i \in 1..Len(fs) :
                            \/ E.cls[id].kind = "td" /\ ~HasPair(Kids(v), Str(fs[i].n)) /\ ~fs[i].req /\ ~fs[i].has
                            \/ LET key == IF E.cls[id].kind = "td" THEN Str(fs[i].n) ELSE fs[i].n
                               IN HasPair(Kids(v), key) /\ LET w == GetPair(Kids(v), key) IN HasTypeD(E, w, fs[i].t, dflt) \/ (dflt /\ fs[i].has /\ SameValue(w, fs[i].d))
    IN IF IsCustom(E, t) THEN TRUE
       ELSE IF un # NoSetting /\ (\E i \in 1..Len(un[3][4]) : HasTypeD(E, v, un[3][4][i][2], dflt)) THEN TRUE
       ELSE IF das # NoSetting /\ IsSchema(E, u) THEN HasTypeD(E, v, Un(das[3][1]), dflt)
       ELSE IF das # NoSetting /\ IsSchema(E, Un(das[3][1])) /\ HasTypeD(E, v, Un(das[3][1]), dflt) THEN TRUE
       ELSE CASE u[1] \in {"plain", "scal"} -> Tag(v) = u[2]
         [] u[1] = "any" -> TRUE
         [] u[1] = "nonetype" -> v = None
         [] u[1] = "lit" -> v \in RangeOf(u[3])
         [] u[1] = "union" -> \E i \in 1..Len(u[3]) : HasTypeD(E, v, IF u[3][i] = NoneT \/ t[1] # "ann" THEN u[3][i] ELSE Annotate(u[3][i], AnnS(t)), dflt)
         [] u[1] = "coll" -> kindOK(u[2], u[2]) /\ items(itemT(1)[1])
         [] u[1] = "vtuple" -> Tag(v) = "seq" /\ Tok(v) = "tuple" /\ items(u[3][1])
         [] u[1] = "tuple" -> Tag(v) = "seq" /\ Tok(v) = "tuple" /\ Len(Kids(v)) = Len(u[3]) /\ \A i \in 1..Len(u[3]) : HasTypeD(E, Kids(v)[i], u[3][i], dflt)
         [] u[1] = "map" -> Tag(v) = "map" /\ Tok(v) = (IF u[2] = "OrderedDict" THEN "OrderedDict" ELSE "dict") /\ pairs(itemT(2)[1], itemT(2)[2])
         [] u[1] = "cls" /\ E.cls[u[2]].kind \in {"enum", "ienum"} -> Tag(v) = "enum" /\ Tok(v) = u[2]
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "ucoll" -> kindOK(E.cls[u[2]].ctor, u[2]) /\ items(itemT(1)[1])
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "umap" -> Tag(v) = "map" /\ Tok(v) = u[2] /\ pairs(itemT(2)[1], itemT(2)[2])
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "td" -> Tag(v) = "map" /\ Tok(v) = "dict" /\ fields(u[2])
                 /\ \A i \in 1..Len(Kids(v)) : \E j \in 1..Len(SchemaOf(E, u)) : Str(SchemaOf(E, u)[j].n) = Kids(v)[i][1]
         [] u[1] = "cls" -> LET id == u[2]
                                \* fields that the constructor does not take have their default
                                rest == LET ns == DCF(E, id) IN \A i \in 1..Len(ns) :
                                            LET f == OwnField(E, ns[i][2], ns[i][1])
                                            IN f.init \/ f.dk = "no" \/ (HasPair(Kids(v), ns[i][1]) /\ SameValue(GetPair(Kids(v), ns[i][1]), f.d))
                            IN Tag(v) = "obj" /\ Tok(v) = id /\ fields(id) /\ (IsDC(E, id) => rest)
         [] OTHER -> FALSE
HasType(E, v, t) == HasTypeD(E, v, t, TRUE)

(* -- C03: v may be dumped as t -------------------------------------------------*)
RECURSIVE Conforms(_, _, _)
Conforms(E, v, t) ==
    LET u  == Un(t)
        un == UnionOf(E, t)
        das == AnnSetting(t, "DeserializeAs")
        itemT(n) == CHOOSE a \in ElemArgs(E, <<u>>, {}, n) : TRUE
        items(T) == \A i \in 1..Len(ItemsOf(E, v)) : Conforms(E, ItemsOf(E, v)[i], T)
        pairs(K, W) == \A i \in 1..Len(Kids(v)) : Conforms(E, Kids(v)[i][1], K) /\ Conforms(E, Kids(v)[i][2], W)
        fields(T) == LET fs == SchemaOf(E, T)
                     IN \A i \in 1..Len(fs) :
                            \/ IsMap(v) /\ ~HasPair(Kids(v), Str(fs[i].n)) /\ ~fs[i].req
                            \/ IF IsMap(v) THEN HasPair(Kids(v), Str(fs[i].n)) /\ Conforms(E, GetPair(Kids(v), Str(fs[i].n)), fs[i].t)
                               ELSE HasPair(Kids(v), fs[i].n) /\ Conforms(E, GetPair(Kids(v), fs[i].n), fs[i].t)
    IN IF IsCustom(E, t) THEN TRUE
       ELSE IF un # NoSetting /\ (\E i \in 1..Len(un[3][4]) : /\ un[3][1] = "best_match" \/ TypeKey(un[3][4][i][2]) = TypeKeyOfV(v)
                                                             /\ Conforms(E, v, un[3][4][i][2])) THEN TRUE
       ELSE IF das # NoSetting /\ IsSchema(E, u) THEN Conforms(E, v, Un(das[3][1]))
       ELSE IF das # NoSetting /\ IsSchema(E, Un(das[3][1])) /\ Conforms(E, v, Un(das[3][1])) THEN TRUE
       ELSE CASE u = <<"plain", "int", <<>>>> -> Tag(v) = "int" \/ (Tag(v) = "float" /\ HasFact(E, "f2i", Tok(v)) /\ E.F["f2i"][Tok(v)][1] = "ok")
         [] u = <<"plain", "float", <<>>>> -> Tag(v) = "float" \/ (Tag(v) = "int" /\ HasFact(E, "i2f", Tok(v)) /\ E.F["i2f"][Tok(v)][1] = "ok")
         [] u[1] = "scal" -> ScalIs(Tag(v), u[2])
         [] u[1] = "plain" -> Tag(v) = u[2]
         [] u[1] = "any" -> TRUE
         [] u[1] = "nonetype" -> v = None
         [] u[1] = "lit" -> v \in RangeOf(u[3])
         [] u[1] = "union" -> \E i \in 1..Len(u[3]) : Conforms(E, v, IF u[3][i] = NoneT \/ t[1] # "ann" THEN u[3][i] ELSE Annotate(u[3][i], AnnS(t)))
         [] u[1] \in {"coll", "vtuple"} -> IsInstColl(E, v, u) /\ ~IsMap(v) /\ items(itemT(1)[1])
         [] u[1] = "tuple" -> IsInstColl(E, v, u) /\ Len(ItemsOf(E, v)) = Len(u[3]) /\ \A i \in 1..Len(u[3]) : Conforms(E, ItemsOf(E, v)[i], u[3][i])
         [] u[1] = "map" -> Tag(v) = "map" /\ pairs(itemT(2)[1], itemT(2)[2])
         [] u[1] = "cls" /\ E.cls[u[2]].kind \in {"enum", "ienum"} -> Tag(v) = "enum" /\ Tok(v) = u[2]
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "ucoll" -> IsInstColl(E, v, u) /\ items(itemT(1)[1])
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "umap" -> Tag(v) = "map" /\ pairs(itemT(2)[1], itemT(2)[2])
         [] u[1] = "cls" /\ E.cls[u[2]].kind = "td" -> Tag(v) = "map" /\ fields(u)
         [] u[1] = "cls" -> Tag(v) = "obj" /\ IsInstCls(E, v, u[2]) /\ fields(u)
         [] OTHER -> FALSE

(* types whose dumped form may contain anything: Any/object, custom converters *)
RECURSIVE Opaque(_, _, _)
Opaque(E, t, seen) ==
    LET u == Un(t)
        un == UnionOf(E, t)
        das == AnnSetting(t, "DeserializeAs")
        deep(T, sn) == Opaque(E, T, sn)
    IN IF IsCustom(E, t) THEN TRUE
       ELSE \/ un # NoSetting /\ \E i \in 1..Len(un[3][4]) : un[3][4][i][2] # u /\ Opaque(E, un[3][4][i][2], seen)
            \/ das # NoSetting /\ Opaque(E, das[3][1], seen)
            \/ u[1] = "any"
            \/ u[1] = "lit" /\ \E i \in 1..Len(u[3]) : ~IsJson(u[3][i])
            \/ u[1] \in {"coll", "vtuple", "tuple", "map", "union", "cls"} /\ \E i \in 1..Len(u[3]) : Opaque(E, u[3][i], seen)
            \/ u[1] = "cls" /\ u[2] \notin seen /\
                 \/ HasSchema(E, u) /\ \E i \in 1..Len(SchemaOf(E, u)) : Opaque(E, SchemaOf(E, u)[i].t, seen \cup {u[2]})
                 \/ \E i \in 1..Len(E.cls[u[2]].bases) : Opaque(E, E.cls[u[2]].bases[i], seen \cup {u[2]})

(* -- judgement -----------------------------------------------------------------*)
(* R is the outcome that the specification derives, O the one observed.  The   *)
(* result is "" or the name of the clause that does not hold.                  *)
LogOf(xs) == [i \in 1..Len(xs) |->
                IF xs[i][1] = "extra" THEN <<"extra", xs[i][2], xs[i][3], IF DOMAIN xs[i][4] = {} THEN {} ELSE {xs[i][4][j] : j \in DOMAIN xs[i][4]}>>
                ELSE xs[i]]
LogSpec(xs) == xs
SameLog(R, O) == LogSpec(R.log) = LogOf(O.log)
Flag(O, f) == f \in RangeOf(O.flags)

Completes(O) == O.st \in {"ok", "err", "exc"}
Outcome(R, O) ==
    IF R.st = "nofact" THEN ""
    ELSE IF R.st = "ok" /\ O.st # "ok" THEN "refused"
    ELSE IF R.st = "err" /\ O.st # "err" THEN IF O.st = "ok" THEN "accepted" ELSE "not-a-conversion-error"
    ELSE IF R.st = "exc" /\ (O.st # "exc" \/ O.v # R.v \/ Flag(O, "excident")) THEN "user-exception"
    ELSE IF R.st = "ok" /\ ~SameValue(R.v, O.v) THEN "wrong-value"
    ELSE ""
Full(R, O) ==
    IF Outcome(R, O) # "" THEN Outcome(R, O)
    ELSE IF R.st # "nofact" /\ ~SameLog(R, O) THEN "wrong-calls"
    ELSE ""

ErrPaths(R) == [i \in 1..Len(R.errs) |-> R.errs[i].p]
J01(E, c, R, O) == IF O.st = "ok" /\ c.dir = "load" /\ ~HasType(E, O.v, c.t) THEN "ill-typed" ELSE ""
J03(E, c, R, O) ==
    IF c.dir # "dump" \/ R.st = "nofact" THEN ""
    ELSE IF O.st = "ok" /\ ~Conforms(E, c.v, c.t) THEN "accepts-nonconforming"
    ELSE IF O.st = "ok" /\ ~IsJson(O.v) /\ ~Opaque(E, c.t, {}) THEN "not-json"
    ELSE IF Flag(O, "shared") /\ ~Opaque(E, c.t, {}) THEN "shares-containers"
    ELSE IF R.st = "ok" /\ O.st # "ok" THEN "refuses-conforming"
    ELSE ""
J05(E, c, R, O) ==
    IF O.st = "hang" THEN "does-not-terminate"
    ELSE IF O.st = "other" THEN "other-exception"
    ELSE IF R.st = "exc" /\ (O.st # "exc" \/ O.v # R.v \/ Flag(O, "excident")) THEN "user-exception"
    ELSE IF O.st = "exc" /\ R.st \notin {"exc", "nofact"} THEN "user-exception"
    ELSE IF Flag(O, "badstr") THEN "no-message"
    ELSE ""
(* a line of the trace of an error: what it calls the key *)
Renders(k, text) == CASE k[1] = "s" -> text = "." \o k[2]
                      [] k[1] = "i" -> text = "[" \o k[2] \o "]"
                      [] k[1] = "n" -> text = "^"
                      [] OTHER -> TRUE
TraceOf(p, tr) == tr = <<>> \/ (Len(tr) = Len(p) + 1 /\ tr[1] = "$" /\ \A i \in 1..Len(p) : Renders(p[i], tr[i + 1]))
J06(E, c, R, O) ==
    IF R.st # "err" \/ O.st # "err" THEN ""
    ELSE IF Flag(O, "root") THEN "no-root"
    ELSE IF Flag(O, "direction") THEN "direction"
    ELSE IF Flag(O, "filename") THEN "filename"
    ELSE IF Flag(O, "location") THEN "location"
    ELSE IF Flag(O, "trace") THEN "trace"
    ELSE IF R.p # O.p THEN "path"
    ELSE IF ~TraceOf(R.p, O.tr) THEN "trace"
    ELSE IF ~SameValue(R.ev, O.ev) THEN "context-value"
    ELSE IF R.et # O.et THEN "context-type"
    ELSE ""
J14(E, c, R, O) ==
    IF Full(R, O) # "" THEN Full(R, O)
    ELSE IF R.st = "err" /\ R.nm # O.nm THEN "error-kind"
    ELSE IF R.st = "err" /\ R.p # O.p THEN "error-path"
    ELSE IF R.st = "err" /\ ErrPaths(R) # O.errs THEN "remembered-errors"
    ELSE ""
(* C25: the order of mappings, where all of them are ones that the type names *)
RECURSIVE InOrder(_)
InOrder(v) ==
    CASE Tag(v) = "map" -> <<"map", Tok(v), [i \in 1..Len(Kids(v)) |-> <<InOrder(Kids(v)[i][1]), InOrder(Kids(v)[i][2])>>]>>
      [] Tag(v) = "seq" -> <<"seq", Tok(v), [i \in 1..Len(Kids(v)) |-> InOrder(Kids(v)[i])]>>
      [] OTHER -> Norm(v)
RECURSIVE Objects(_, _, _)
Objects(E, t, seen) ==
    LET u == Un(t)
    IN \/ u[1] \in {"any", "lit"} \/ IsCustom(E, t) \/ UnionOf(E, t) # NoSetting
       \/ u[1] \in {"coll", "vtuple", "tuple", "map", "union", "cls"} /\ \E i \in 1..Len(u[3]) : Objects(E, u[3][i], seen)
       \/ u[1] = "cls" /\ u[2] \notin seen /\
            (HasSchema(E, u) \/ \E i \in 1..Len(E.cls[u[2]].bases) : Objects(E, E.cls[u[2]].bases[i], seen \cup {u[2]}))
J25(E, c, R, O) ==
    IF Full(R, O) # "" THEN Full(R, O)
    ELSE IF R.st = "ok" /\ ~HasSet(c.v) /\ ~HasSet(R.v) /\ InOrder(R.v) # InOrder(O.v) /\ ~Objects(E, c.t, {}) THEN "order" ELSE ""

(* C26: the outcome of loads and dumps; what dumps writes is looked at after   *)
(* it was read                                                                 *)
RECURSIVE IsText(_)
IsText(v) == CASE Tag(v) = "seq" -> Tok(v) = "list" /\ \A i \in 1..Len(Kids(v)) : IsText(Kids(v)[i])
               [] Tag(v) = "map" -> Tok(v) = "dict" /\ \A i \in 1..Len(Kids(v)) : Tag(Kids(v)[i][1]) = "str" /\ IsText(Kids(v)[i][2])
               [] OTHER -> IsJson(v)
JText(E, c, R, O) ==
    IF R.st = "ok" /\ c.dir = "dump" /\ ~IsText(R.v) THEN ""
    ELSE IF Full(R, O) # "" THEN Full(R, O)
    ELSE IF R.st = "ok" /\ Flag(O, "layout") THEN "layout"
    ELSE IF R.st = "err" /\ (R.p # O.p \/ R.nm # O.nm \/ Flag(O, "filename") \/ Flag(O, "direction")) THEN "another-error"
    ELSE ""
J22(E, c, R, O) ==
    IF Flag(O, "mutated") THEN "payload-modified" ELSE Full(R, O)

Judge(prop, E, c, R, O) ==
    CASE prop = "C01" -> J01(E, c, R, O)
      [] prop = "C03" -> J03(E, c, R, O)
      [] prop = "C05" -> J05(E, c, R, O)
      [] prop = "C06" -> J06(E, c, R, O)
      [] prop \in {"C14", "C27"} -> J14(E, c, R, O)
      [] prop = "C22" -> J22(E, c, R, O)
      [] prop = "C25" -> J25(E, c, R, O)
      [] OTHER -> Full(R, O)

(* a value, its dumped form, the value loaded from it and what that dumps to; *)
(* outs: dump, load, dump, load after a trip through JSON text                 *)
JRound(E, c, R, v, outs, json) ==
    \* a value equal to the default may come back as the default: -0.0 as 0.0
    LET Back(w) == SameValue(w, v) \/ (PyEq(w, v) /\ HasType(E, w, c.t)) IN
    IF R.st # "ok" \/ ~HasTypeD(E, v, c.t, FALSE) THEN ""
    ELSE IF outs[1].st # "ok" THEN "dump-refused"
    ELSE IF outs[2].st # "ok" THEN "load-refused"
    ELSE IF PyEq(outs[2].v, v) /\ ~HasTypeD(E, outs[2].v, c.t, FALSE) THEN ""   \* an ill-typed default equal to the value
    ELSE IF ~Back(outs[2].v) THEN "not-inverse"
    ELSE IF outs[3].st # "ok" \/ ~(IF HasSet(v) THEN NormBag(outs[3].v) = NormBag(outs[1].v) ELSE SameValue(outs[3].v, outs[1].v)) THEN "not-stable"
    ELSE IF json /\ (outs[4].st # "ok" \/ ~Back(outs[4].v)) THEN "not-inverse-through-text"
    ELSE ""
=============================================================================
