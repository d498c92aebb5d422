------------------------------- MODULE Convert ------------------------------
(* The conversion of a value in a context: how a mapper dispatches to its     *)
(* converters and what each converter of the JSON module does.  Conv(E, c) is *)
(* the outcome of converting context c.                                       *)
EXTENDS Types

(* -- contexts and outcomes -------------------------------------------------*)
(* dir "load"/"dump", v value, t type, p path of keys from the root, S layers *)
(* of settings, M converters of the mapper in order.  o: the converter at work *)
(* and its options: <<kind, option, ..>>, the option of                        *)
(*   "plain", "decimal": "lax" (strict_by_default=False)                       *)
(*   "coll", "map", "schema": the kind of lists and objects written            *)
(* and further those of "schema": "nodef" (serialize_defaults=False), "pc"     *)
(* (a convert_to_schema that has schemas for plain classes).                   *)
NoOptions == <<"", "">>
Ctx(dir, v, t, p, S, M) == [dir |-> dir, v |-> v, t |-> t, p |-> p, S |-> S, M |-> M, o |-> NoOptions]
Spawn(c, v, t, k) == [c EXCEPT !.v = v, !.t = t, !.p = Append(c.p, k), !.o = NoOptions]
With(c, m) == [c EXCEPT !.o = m]
HasOption(c, x) == \E i \in 2..Len(c.o) : c.o[i] = x
KindOf(c, default) == IF c.o[2] = "" THEN default ELSE c.o[2]
KStr(s) == <<"s", s>>
KIdx(n) == <<"i", ToString(n)>>
KNone   == <<"n", "">>
KVal(v) == CASE Tag(v) = "str"  -> KStr(Tok(v))
             [] Tag(v) = "int"  -> <<"i", Tok(v)>>
             [] Tag(v) = "none" -> KNone
             [] OTHER           -> <<"o", Tag(v) \o ":" \o Tok(v)>>
KKey(v) == <<"k", Tag(v) \o ":" \o Tok(v)>>          \* the key of a mapping itself

(* st: ok (value v) | err (ConversionError of context p/ev/et, nm: it is a    *)
(* NoMatchingConverter, errs: the errors it lists) | skip (not supported) |   *)
(* exc (exception v of user code) | nofact (nothing is said about the          *)
(* outcome); log: calls of user code                                          *)
R0 == [st |-> "ok", v |-> None, p |-> <<>>, ev |-> None, et |-> NoneT, nm |-> FALSE, errs |-> <<>>, log |-> <<>>]
Ok(v)        == [R0 EXCEPT !.v = v]
OkL(v, log)  == [R0 EXCEPT !.v = v, !.log = log]
Skip         == [R0 EXCEPT !.st = "skip"]
Err(c)       == [R0 EXCEPT !.st = "err", !.p = c.p, !.ev = c.v, !.et = c.t]
ErrL(c, log) == [R0 EXCEPT !.st = "err", !.p = c.p, !.ev = c.v, !.et = c.t, !.log = log]
NoMatch(c, errs, log) == [ErrL(c, log) EXCEPT !.nm = TRUE, !.errs = errs]
Free         == [R0 EXCEPT !.st = "nofact"]       \* nothing is said about the outcome
Exc(tok)     == [R0 EXCEPT !.st = "exc", !.v = Str(tok)]
WithLog(r, log) == [r EXCEPT !.log = log \o r.log]
Go           == [R0 EXCEPT !.st = "go"]         \* go on with the parts

(* -- facts about primitives --------------------------------------------------*)
HasFact(E, fn, a) == fn \in DOMAIN E.F /\ a \in DOMAIN E.F[fn]
(* result of a primitive that yields a value with the given tag or fails *)
ByFact(E, c, fn, a, tag) ==
    IF ~HasFact(E, fn, a) THEN [R0 EXCEPT !.st = "nofact", !.v = Str(fn \o " " \o a)]
    ELSE IF E.F[fn][a][1] = "ok" THEN Ok(V(tag, E.F[fn][a][2])) ELSE Err(c)

(* -- the converters of the JSON module, in order ----------------------------*)
JsonConverters == << <<"setting", "">>, <<"str", "duration">>, <<"str", "path">>, <<"str", "purepath">>, <<"str", "uuid">>,
    <<"any", "">>, <<"coll", "">>, <<"datetime", "">>, <<"decimal", "">>, <<"enum", "">>, <<"map", "">>,
    <<"optional", "">>, <<"plain", "">>, <<"union", "">>, <<"schema", "">>, <<"literal", "">> >>
JsonMapper == << <<"json", "">> >>
NoLayer == [loc |-> <<>>, prov |-> <<>>, glob |-> <<>>]
RECURSIVE FlattenM(_)
FlattenM(M) == IF M = <<>> THEN <<>>
               ELSE (CASE Head(M)[1] = "json" -> JsonConverters
                       [] Head(M)[1] = "mod"  -> FlattenM(Head(M)[2])
                       [] OTHER -> <<Head(M)>>) \o FlattenM(Tail(M))

(* Plain datatypes *)
TryPlain(E, c, u) ==
    LET n == u[2]
        s == Resolve(E, "Strict", c)
        strict == c.dir = "dump" \/ IF s = NoSetting THEN ~HasOption(c, "lax") ELSE Enabled(s)
        tag == Tag(c.v)
        tok == Tok(c.v)
    IN CASE n = "bytes" ->
              IF c.dir = "dump" THEN IF tag = "bytes" THEN ByFact(E, c, "b64e", tok, "str") ELSE Err(c)
              ELSE IF tag = "str" THEN ByFact(E, c, "b64d", tok, "bytes") ELSE Err(c)
         [] tag = n -> Ok(c.v)
         [] n = "float" /\ tag = "int" -> ByFact(E, c, "i2f", tok, "float")
         [] n = "int" /\ tag = "float" -> ByFact(E, c, "f2i", tok, "int")
         [] strict -> Err(c)
         [] n = "int" /\ tag = "str" -> ByFact(E, c, "s2i", tok, "int")
         [] n = "float" /\ tag = "str" -> ByFact(E, c, "s2f", tok, "float")
         [] n = "bool" /\ tag = "str" ->
              IF ~HasFact(E, "lower", tok) THEN [R0 EXCEPT !.st = "nofact", !.v = Str("lower " \o tok)]
              ELSE IF E.F["lower"][tok][2] \in {"yes", "true", "on", "enabled"} THEN Ok(Bool(TRUE))
              ELSE IF E.F["lower"][tok][2] \in {"no", "false", "off", "disabled"} THEN Ok(Bool(FALSE))
              ELSE Err(c)
         [] n = "str" /\ tag = "int" -> Ok(Str(tok))
         [] n = "str" /\ tag = "bool" -> Ok(Str(IF tok = "1" THEN "True" ELSE "False"))
         [] n = "str" /\ tag = "float" -> ByFact(E, c, "f2s", tok, "str")
         [] OTHER -> Err(c)

(* uuid, path, purepath, duration *)
StringifyMatches(name, u) == u[1] = "scal" /\ ScalIs(u[2], name)
TryStringify(E, c, u, name) ==
    \* the parser of durations does not make instances of a subclass
    IF c.dir = "load" THEN IF Tag(c.v) = "str" /\ u[2] # "myduration" THEN ByFact(E, c, u[2], Tok(c.v), u[2]) ELSE Err(c)
    ELSE IF ScalIs(Tag(c.v), u[2]) THEN Ok(Str(Tok(c.v))) ELSE Err(c)

TryDecimal(E, c, u) ==
    LET s == Resolve(E, "Strict", c)
        strict == IF s = NoSetting THEN ~HasOption(c, "lax") ELSE Enabled(s)
        p == Resolve(E, "Precision", c)
        pid == IF p = NoSetting THEN "" ELSE p[3][1]
        num == IF Tag(c.v) = "enum" THEN Tok(MemberOf(E, c.v).val) ELSE Tok(c.v)
    IN IF c.dir = "dump" THEN IF ScalIs(Tag(c.v), u[2]) THEN Ok(Str(Tok(c.v))) ELSE Err(c)
       ELSE IF Tag(c.v) = "str" \/ (~strict /\ (IsInt(E, c.v) \/ Tag(c.v) = "float"))
       THEN ByFact(E, c, "decimal", pid \o "|" \o (IF Tag(c.v) = "str" THEN "str:" ELSE IF Tag(c.v) = "float" THEN "float:" ELSE "int:") \o num, u[2])
       ELSE Err(c)

(* Date formats: the first format in effect that applies and succeeds *)
RECURSIVE FirstFormat(_, _, _, _, _)
FirstFormat(E, c, fn, fmts, arg) ==
    IF fmts = <<>> THEN Err(c)
    ELSE LET a == Head(fmts) \o "|" \o arg
         IN IF ~HasFact(E, fn, a) THEN [R0 EXCEPT !.st = "nofact", !.v = Str(fn \o " " \o a)]
            ELSE IF E.F[fn][a][1] = "ok" THEN Ok(Str(E.F[fn][a][2]))
            ELSE FirstFormat(E, c, fn, Tail(fmts), arg)
TryDatetime(E, c, u) ==
    LET s == Resolve(E, "DateFormat", c)
        fmts == IF s = NoSetting THEN <<".ISO_8601">> ELSE s[3]
    IN IF c.dir = "load"
       THEN CASE Tag(c.v) = u[2] -> Ok(c.v)
              [] Tag(c.v) = "str" -> LET r == FirstFormat(E, c, "dparse", fmts, u[2] \o "|" \o Tok(c.v))
                                     IN IF r.st = "ok" THEN Ok(V(u[2], Tok(r.v))) ELSE r
              [] OTHER -> Err(c)
       ELSE IF Tag(c.v) # u[2] THEN Err(c) ELSE FirstFormat(E, c, "dformat", fmts, u[2] \o "|" \o Tok(c.v))

TryEnum(E, c, u) ==
    LET ms == Members(E, u[2])
        int == E.cls[u[2]].kind = "ienum"
        byAlias == SelectSeq(ms, LAMBDA m : Tok(c.v) \in RangeOf(m.aliases))
        byName == SelectSeq(ms, LAMBDA m : Tok(c.v) \in NamesOf(E, u[2], m))
        num == IF Tag(c.v) = "enum" THEN Tok(MemberOf(E, c.v).val) ELSE Tok(c.v)
        byNum == SelectSeq(ms, LAMBDA m : Tok(m.val) = num)
    IN IF c.dir = "dump"
       THEN IF Tag(c.v) # "enum" \/ Tok(c.v) # u[2] THEN Err(c)
            ELSE LET m == MemberOf(E, c.v)
                 IN IF int THEN Ok(m.val) ELSE IF m.aliases # <<>> THEN Ok(Str(m.aliases[1])) ELSE Ok(Str(m.n))
       ELSE IF int THEN IF IsInt(E, c.v) /\ byNum # <<>> THEN Ok(EnumV(u[2], byNum[1].n)) ELSE Err(c)
       ELSE IF Tag(c.v) # "str" THEN Err(c)
       ELSE IF byAlias # <<>> THEN Ok(EnumV(u[2], byAlias[1].n))
       ELSE IF byName # <<>> THEN Ok(EnumV(u[2], byName[1].n))
       ELSE Err(c)

TryLiteral(E, c, u) == IF c.v \in RangeOf(u[3]) THEN Ok(c.v) ELSE Err(c)

(* -- user code -----------------------------------------------------------------*)
UserCheck(E, id) == (* the __post_init__ check that instances of the class run *)
    LET own == SelectSeq(E.cls[id].mro, LAMBDA b : E.cls[b].check # <<>>)
    IN IF own = <<>> THEN <<>> ELSE E.cls[own[1]].check
Construct(E, id, res) ==
    IF E.cls[id].kind = "td" THEN Ok(DictV([i \in 1..Len(res) |-> <<Str(res[i][1]), res[i][2]>>]))
    ELSE IF E.cls[id].kind = "nt"
    THEN Ok(ObjV(id, [i \in 1..Len(E.cls[id].own) |-> <<E.cls[id].own[i].n, GetPair(res, E.cls[id].own[i].n)>>]))
    ELSE LET names == DCF(E, id)
             val(i) == IF HasPair(res, names[i][1]) THEN GetPair(res, names[i][1]) ELSE OwnField(E, names[i][2], names[i][1]).d
             ps == [i \in 1..Len(names) |-> <<names[i][1], val(i)>>]
             chk == UserCheck(E, id)
         IN IF chk # <<>> /\ HasPair(ps, chk[1]) /\ PyEq(GetPair(ps, chk[1]), chk[2]) THEN Exc("check:" \o id) ELSE Ok(ObjV(id, ps))

(* methods of user classes that a DelegateToClassmethodConverter calls *)
CallSer(E, cv, v) ==
    CASE cv.ser = "first" -> Ok(Kids(v)[1][2])
      [] cv.ser = "list"  -> Ok(ListV([i \in 1..Len(Kids(v)) |-> Kids(v)[i][2]]))
CallDes(E, cv, id, v) ==
    LET names == DCF(E, id)
        \* a constructor call that lacks an argument
        lacks == \E i \in 2..Len(names) : OwnField(E, names[i][2], names[i][1]).dk = "no" /\ OwnField(E, names[i][2], names[i][1]).init
    IN CASE cv.des = "first" /\ lacks -> Exc("des:" \o id)
         [] cv.des = "first" -> Construct(E, id, << <<names[1][1], v>> >>)
         [] cv.des = "list"  -> IF Tag(v) = "seq" /\ Tok(v) = "list" /\ Len(Kids(v)) = Len(names)
                                THEN Construct(E, id, [i \in 1..Len(names) |-> <<names[i][1], Kids(v)[i]>>])
                                ELSE Exc("des:" \o id)

(* A StringifyConverter of the user: for the class cv.cls and its subclasses,  *)
(* the text being the first field.  cv.des: parsed by a function, which makes  *)
(* instances of cv.cls, instead of the constructor.                            *)
TryText(E, c, u, cv) ==
    LET id == IF cv.des = "make" THEN cv.cls ELSE u[2]
        names == DCF(E, id)
        fits == /\ Len(names) > 0 /\ OwnField(E, names[1][2], names[1][1]).init
                /\ \A i \in 2..Len(names) : OwnField(E, names[i][2], names[i][1]).dk # "no" \/ ~OwnField(E, names[i][2], names[i][1]).init
        r == Construct(E, id, << <<names[1][1], c.v>> >>)
    IN IF c.dir = "dump" THEN IF IsInstCls(E, c.v, u[2]) THEN Ok(Kids(c.v)[1][2]) ELSE Err(c)
       ELSE IF Tag(c.v) # "str" \/ ~fits THEN Err(c)
       ELSE IF r.st # "ok" THEN r
       ELSE IF IsSubclass(E, id, u[2]) THEN r ELSE Err(c)

(* the value of an Optional *)
Inside(c, u) == Spawn(c, c.v, IF c.t[1] = "ann" THEN Annotate(WithoutNone(u), AnnS(c.t)) ELSE WithoutNone(u), KNone)

RECURSIVE Conv(_, _), RunAll(_, _, _, _, _), Try(_, _, _), TryUser(_, _, _), TryColl(_, _, _), ConvItems(_, _, _, _),
          TryMap(_, _, _), ConvPairs(_, _, _, _), TryUnion(_, _, _), TryMembers(_, _, _, _, _), TrySchema(_, _, _),
          DumpFields(_, _, _, _), LoadFields(_, _, _, _)

Conv(E, c) == RunAll(E, c, FlattenM(c.M), <<>>, <<>>)

(* Converters are consulted in order. *)
RunAll(E, c, ms, errs, log) ==
    IF ms = <<>> THEN IF Len(errs) = 1 THEN [errs[1] EXCEPT !.log = log] ELSE NoMatch(c, errs, log)
    ELSE LET r == Try(E, c, Head(ms))
         IN CASE r.st = "skip" -> RunAll(E, c, Tail(ms), errs, log \o r.log)
              [] r.st = "err"  -> RunAll(E, c, Tail(ms), Append(errs, r), log \o r.log)
              [] OTHER -> WithLog(r, log)

(* the schema converter m has a schema of type d *)
Schematic(E, m, d) == HasSchema(E, d) /\ ~IsNT(E, d) /\ (E.cls[d[2]].deco = "pc" => \E i \in 3..Len(m) : m[i] = "pc")

Try(E, c, m) ==
    LET u == Un(c.t)
    IN CASE m[1] = "user" -> TryUser(E, c, m[2])
         [] m[1] = "strfy" -> IF u[1] = "cls" /\ IsSubclass(E, u[2], E.conv[m[2]].cls) THEN TryText(E, c, u, E.conv[m[2]]) ELSE Skip
         [] m[1] = "setting" -> LET s == Resolve(E, "JsonConverter", c)
                                IN IF s = NoSetting THEN Skip ELSE TryUser(E, c, s[3][1])
         [] m[1] = "str" -> IF StringifyMatches(m[2], u) THEN TryStringify(E, c, u, m[2]) ELSE Skip
         [] m[1] = "any" -> IF u[1] = "any" THEN Ok(c.v) ELSE Skip
         [] m[1] = "coll" -> IF IsNT(E, u) THEN TrySchema(E, c, u)
                             ELSE IF u[1] \in {"coll", "vtuple", "tuple"} \/ IsUColl(E, u) THEN TryColl(E, With(c, m), u) ELSE Skip
         [] m[1] = "datetime" -> IF u[1] = "scal" /\ u[2] \in {"date", "time", "datetime"} THEN TryDatetime(E, c, u) ELSE Skip
         [] m[1] = "decimal" -> IF u[1] = "scal" /\ ScalIs(u[2], "decimal") THEN TryDecimal(E, With(c, m), u) ELSE Skip
         [] m[1] = "enum" -> IF IsEnumT(E, u) THEN TryEnum(E, c, u) ELSE Skip
         [] m[1] = "map" -> IF u[1] = "map" \/ IsUMap(E, u) THEN TryMap(E, With(c, m), u) ELSE Skip
         [] m[1] = "optional" -> IF ~IsOptional(u) THEN Skip
                                 ELSE IF c.v = None THEN Ok(None)
                                 ELSE Conv(E, Inside(c, u))
         [] m[1] = "plain" -> IF u[1] = "plain" THEN TryPlain(E, With(c, m), u) ELSE Skip
         [] m[1] = "union" -> TryUnion(E, c, u)
         [] m[1] = "schema" ->
                LET s == Resolve(E, "DeserializeAs", c)
                    d == IF s = NoSetting THEN u ELSE Un(s[3][1])
                \* durations happen to be instances of a data class
                IN IF d[1] = "scal" /\ ScalIs(d[2], "duration") THEN IF IsMap(c.v) \/ ScalIs(Tag(c.v), "duration") THEN Free ELSE Err(c)
                   ELSE IF Schematic(E, m, d) THEN TrySchema(E, With(c, m), d) ELSE Skip
         [] m[1] = "literal" -> IF u[1] = "lit" THEN TryLiteral(E, c, u) ELSE Skip

(* Custom converters.  cv.when restricts them to a type, cv.log makes them     *)
(* report their calls.                                                         *)
TryUser(E, c, id) ==
    LET cv == E.conv[id]
        u == Un(c.t)
        call == << <<"call", id, c.dir, c.p>> >>
        r == CASE cv.kind = "cm" ->
                    IF c.dir = "dump"
                    THEN IF cv.ser = "" \/ ~IsClassHint(u) THEN Skip
                         ELSE IF u[1] # "cls" \/ ~IsInstCls(E, c.v, u[2]) THEN Err(c) ELSE CallSer(E, cv, c.v)
                    ELSE IF cv.des = "" \/ ~IsClassHint(u) THEN Skip
                         ELSE IF cv.styp # <<>> /\ ~(\E i \in 1..Len(cv.styp) : IsInstPlain(E, c.v, cv.styp[i])) THEN Err(c)
                         ELSE CallDes(E, cv, u[2], c.v)
               [] cv.kind = "const" -> Ok(Str("const:" \o id))
               [] cv.kind = "echo"  -> Ok(c.v)
               [] cv.kind = "tag"   -> Ok(ListV(<<Str(id), c.v>>))
               [] cv.kind = "decline" -> Skip
               [] cv.kind = "fail"  -> Err(c)
               [] cv.kind = "raise" -> Exc(id)
               [] cv.kind = "probe" -> LET s == Resolve(E, "Tag", c) IN Ok(Str(IF s = NoSetting THEN "-" ELSE s[3][1]))
               [] cv.kind = "deleg" -> LET q == Conv(E, Spawn(c, c.v, cv.as, KStr(id)))
                                       IN IF q.st = "ok" THEN [q EXCEPT !.v = ListV(<<Str(id), q.v>>)] ELSE q
               [] cv.kind = "reent" -> LET q == Conv(E, Ctx(c.dir, c.v, cv.as, <<>>, <<NoLayer>>, JsonMapper))
                                       IN IF q.st = "ok" THEN [q EXCEPT !.v = ListV(<<Str(id), q.v>>)] ELSE q
        onDir == cv.dir = "" \/ cv.dir = c.dir
        hit == cv.when = "" \/ cv.when = TypeKey(u)
        res == IF hit /\ onDir THEN r ELSE Skip
    IN IF cv.log THEN WithLog(res, call) ELSE res

(* Converts the contexts one after the other. *)
ConvItems(E, cs, acc, log) ==
    IF cs = <<>> THEN OkL(ListV(acc), log)
    ELSE LET r == Conv(E, Head(cs))
         IN IF r.st # "ok" THEN WithLog(r, log) ELSE ConvItems(E, Tail(cs), Append(acc, r.v), log \o r.log)

(* CollPre: whether its items are converted at all; CollKids: their contexts;  *)
(* CollDone: what becomes of the list of them.                                 *)
CollKids(E, c, u) ==
    LET item  == (CHOOSE a \in ElemArgs(E, <<u>>, {}, 1) : TRUE)[1]
        items == IF IsMap(c.v) THEN [i \in 1..Len(Kids(c.v)) |-> Kids(c.v)[i][1]] ELSE ItemsOf(E, c.v)
    IN [i \in 1..Len(items) |-> Spawn(c, items[i], IF u[1] = "tuple" THEN u[3][i] ELSE item, KIdx(i - 1))]
\* objects that are not collections of items for any reading of the properties: other kinds of bytes, and no collections at all
NoItems == {"bytearray", "memoryview", "object", "generator", "complex", "type", "function", "ellipsis"}
CollPre(E, c, u) ==
    LET fixed == u[1] = "tuple"
        items == IF IsMap(c.v) THEN Kids(c.v) ELSE ItemsOf(E, c.v)
        wrongKind == IF c.dir = "dump" THEN ~IsInstColl(E, c.v, u) ELSE ~IsCollV(E, c.v)
        \* objects that Python considers collections, but the properties do not speak of
        free == \/ c.dir = "dump" /\ u[1] = "coll" /\ u[2] \in {"Sequence", "Collection"} /\ Tag(c.v) \in {"str", "bytes", "map", "other"}
                \/ c.dir = "dump" /\ u[1] = "coll" /\ Tag(c.v) = "other"
                \/ c.dir = "load" /\ Tag(c.v) = "other" /\ c.v[2] \notin NoItems
    IN IF ~fixed /\ Cardinality(ElemArgs(E, <<u>>, {}, 1)) # 1 THEN Err(c)
       ELSE IF free THEN Free
       ELSE IF wrongKind THEN Err(c)
       ELSE IF fixed /\ Len(items) # Len(u[3]) THEN Err(c)
       ELSE Go
CollDone(E, c, u, r) ==
    LET kind == IF u[1] = "cls" THEN E.cls[u[2]].ctor ELSE IF u[1] = "coll" THEN u[2] ELSE "tuple"
        name == IF u[1] = "cls" THEN u[2] ELSE kind
    IN IF r.st # "ok" THEN r
       ELSE IF c.dir = "dump" THEN [r EXCEPT !.v = SeqV(KindOf(c, "list"), Kids(r.v))]
       ELSE CASE kind \in {"set", "frozenset"} /\ \E i \in 1..Len(Kids(r.v)) : ~Hashable(E, Kids(r.v)[i]) -> ErrL(c, r.log)
              [] kind \in {"set", "frozenset"} -> [r EXCEPT !.v = SetV(name, Dedup(<<>>, Kids(r.v)))]
              [] kind \in {"tuple", "deque", "list"} -> [r EXCEPT !.v = SeqV(name, Kids(r.v))]
              [] OTHER -> r
TryColl(E, c, u) ==
    LET pre == CollPre(E, c, u)
    IN IF pre.st # "go" THEN pre ELSE CollDone(E, c, u, ConvItems(E, CollKids(E, c, u), <<>>, <<>>))

(* the value is converted first, then its key *)
ConvPairs(E, cs, acc, log) ==
    IF cs = <<>> THEN OkL(DictV(acc), log)
    ELSE LET w == Conv(E, Head(cs)[2])
         IN IF w.st # "ok" THEN WithLog(w, log)
            ELSE LET k == Conv(E, Head(cs)[1])
                 IN IF k.st # "ok" THEN WithLog(k, log \o w.log)
                    ELSE IF ~Hashable(E, k.v) THEN WithLog(Err(Head(cs)[1]), log \o w.log \o k.log)
                    ELSE ConvPairs(E, Tail(cs), PutPy(acc, k.v, w.v), log \o w.log \o k.log)
MapPre(E, c, u) == IF Cardinality(ElemArgs(E, <<u>>, {}, 2)) # 1 \/ ~IsMap(c.v) THEN Err(c) ELSE Go
MapKids(E, c, u) ==
    LET kw == CHOOSE a \in ElemArgs(E, <<u>>, {}, 2) : TRUE
    IN [i \in 1..Len(Kids(c.v)) |->
          <<Spawn(c, Kids(c.v)[i][1], kw[1], KKey(Kids(c.v)[i][1])), Spawn(c, Kids(c.v)[i][2], kw[2], KVal(Kids(c.v)[i][1]))>>]
MapDone(E, c, u, r) ==
    IF r.st # "ok" THEN r
    ELSE IF c.dir = "dump" THEN [r EXCEPT !.v = MapV(KindOf(c, "dict"), Kids(r.v))]
    ELSE IF u[1] = "cls" THEN [r EXCEPT !.v = MapV(u[2], Kids(r.v))]
    ELSE IF u[2] = "OrderedDict" THEN [r EXCEPT !.v = MapV("OrderedDict", Kids(r.v))] ELSE r
TryMap(E, c, u) ==
    LET pre == MapPre(E, c, u)
    IN IF pre.st # "go" THEN pre ELSE MapDone(E, c, u, ConvPairs(E, MapKids(E, c, u), <<>>, <<>>))

(* -- unions ---------------------------------------------------------------------*)
TryMembers(E, c, ts, errs, log) ==
    IF ts = <<>> THEN [ErrL(c, log) EXCEPT !.errs = errs]
    ELSE LET r == Conv(E, Spawn(c, c.v, Head(ts), KNone))
         IN IF r.st = "err" THEN TryMembers(E, c, Tail(ts), Append(errs, r), log \o r.log) ELSE WithLog(r, log)

(* How to go on: k = "out" with the outcome r, "any" with the first member of  *)
(* ts that fits, or "one" with the context c, whose outcome UnionWrap wraps.   *)
UnionPlan(E, c, u) ==
    LET s == Resolve(E, "Union", c)
        plain == u[1] = "union" /\ (s = NoSetting \/ c.t[1] # "ann")
        st == s[3]                                \* <<style, discriminator, nesting, members>>
        disc == Str(st[2])
        ms == st[4]
        ids == {ms[i][1] : i \in 1..Len(ms)}
        typeOf(id) == GetPair(ms, id)
        out(r) == [k |-> "out", r |-> r, ts |-> <<>>, c |-> c, id |-> ""]
        any(ts) == [k |-> "any", r |-> Go, ts |-> ts, c |-> c, id |-> ""]
        one(x, id) == [k |-> "one", r |-> Go, ts |-> <<>>, c |-> x, id |-> id]
    IN IF plain
       THEN IF NoneT \in RangeOf(u[3]) THEN out(Skip)
            ELSE IF ~(\A i \in 1..Len(u[3]) : IsClassHint(Un(u[3][i]))) THEN out(Skip)
            ELSE IF Cardinality({TypeName(E, Un(u[3][i])) : i \in 1..Len(u[3])}) # Len(u[3]) THEN out(Skip)
            ELSE any(u[3])
       ELSE IF s = NoSetting \/ ~(c.t[1] = "ann" \/ IsClassHint(u)) THEN out(Skip)
       ELSE IF st[1] = "best_match" THEN any([i \in 1..Len(ms) |-> ms[i][2]])
       ELSE IF c.dir = "dump"
       THEN LET hits == SelectSeq(ms, LAMBDA m : TypeKey(m[2]) = TypeKeyOfV(c.v))
            IN IF hits = <<>> THEN out(Err(c)) ELSE one(Spawn(c, c.v, hits[1][2], KNone), hits[1][1])
       ELSE IF ~IsMap(c.v) THEN out(Err(c))
       ELSE LET kv == Kids(c.v)
                id == IF st[1] = "keyed" THEN kv[1][1] ELSE GetPair(kv, disc)
                nest == IF st[3] = "" THEN id ELSE Str(st[3])
            IN IF st[1] = "keyed" /\ Len(kv) # 1 THEN out(Err(c))
               ELSE IF st[1] # "keyed" /\ ~HasPair(kv, disc) THEN out(Err(c))
               ELSE IF Tag(id) # "str" THEN out(Err(Spawn(c, id, <<"plain", "str", <<>>>>, IF st[1] = "keyed" THEN KNone ELSE KStr(st[2]))))
               ELSE IF Tok(id) \notin ids THEN out(Err(c))
               ELSE CASE st[1] = "nested" -> IF ~HasPair(kv, nest) THEN out(Err(c))
                                             ELSE one(Spawn(c, GetPair(kv, nest), typeOf(Tok(id)), KStr(Tok(nest))), "")
                      [] st[1] = "flat" -> one(Spawn(c, MapV("dict", DropPair(kv, disc)), typeOf(Tok(id)), KNone), "")
                      [] st[1] = "keyed" -> one(Spawn(c, kv[1][2], typeOf(Tok(id)), KStr(Tok(id))), "")
UnionWrap(E, c, id, r) ==
    LET st == Resolve(E, "Union", c)[3]
        disc == Str(st[2])
        nest == IF st[3] = "" THEN Str(id) ELSE Str(st[3])
    IN IF r.st # "ok" \/ c.dir = "load" THEN r
       ELSE CASE st[1] = "nested" -> [r EXCEPT !.v = DictV(FoldPairs(<<>>, << <<disc, Str(id)>>, <<nest, r.v>> >>))]
              [] st[1] = "keyed" -> [r EXCEPT !.v = DictV(<< <<Str(id), r.v>> >>)]
              [] st[1] = "flat" -> IF IsMap(r.v) THEN [r EXCEPT !.v = MapV(IF Tok(r.v) = "mappingproxy" THEN "dict" ELSE Tok(r.v), PutPair(Kids(r.v), disc, Str(id)))]
                                   ELSE ErrL(c, r.log)
TryUnion(E, c, u) ==
    LET p == UnionPlan(E, c, u)
    IN CASE p.k = "out" -> p.r
         [] p.k = "any" -> TryMembers(E, c, p.ts, <<>>, <<>>)
         [] p.k = "one" -> UnionWrap(E, c, p.id, Conv(E, p.c))

(* -- objects ----------------------------------------------------------------------*)
IsOn(E, kind, c) == LET s == Resolve(E, kind, c) IN s # NoSetting /\ Enabled(s)
Names(E, fc, n) == LET s == Resolve(E, "Alias", fc) IN IF s = NoSetting THEN <<n>> ELSE s[3]

(* acc: res (keys written), rem (name of the remainder field), rv (its value,  *)
(* hasRv), flat (keys that flattened fields wrote), om (names of the fields    *)
(* left out), u (the type), log                                                *)
DumpEnd(E, c, acc) ==
    LET flats == SelectSeq(SchemaOf(E, acc.u), LAMBDA f : f.flat)
        below == FlattenSeq_([i \in 1..Len(flats) |-> Expand(E, flats[i].t)])
        \* keys that loading takes for a field which is not among the keys written
        hidden == UNION {LET ns == {Str(x) : x \in RangeOf(Names(E, Spawn(c, None, below[i].t, KStr(below[i].n)), below[i].n))}
                         IN IF ns \cap acc.flat = {} THEN ns ELSE {} : i \in 1..Len(below)}
    IN IF acc.hasRv /\ (PairKeys(acc.res) \cup acc.om \cup hidden) \cap PairKeys(acc.rv) # {} THEN ErrL(c, acc.log)
       ELSE OkL(MapV(KindOf(c, "dict"), acc.res \o acc.rv), acc.log)
FieldValue(c, f) == IF IsMap(c.v) THEN GetPair(Kids(c.v), Str(f.n)) ELSE GetPair(Kids(c.v), f.n)
(* before the field is converted: "out" with the outcome of the object, "skip" *)
(* with the new acc, or "conv" with the context                                *)
DumpPlan(E, c, f, acc) ==
    LET absent == IsMap(c.v) /\ ~HasPair(Kids(c.v), Str(f.n))
        fc == Spawn(c, FieldValue(c, f), f.t, KStr(f.n))
        names == {Str(x) : x \in RangeOf(Names(E, Spawn(c, None, f.t, KStr(f.n)), f.n))}
    IN IF absent THEN IF ~f.req THEN [k |-> "skip", a |-> [acc EXCEPT !.om = @ \cup names]] ELSE [k |-> "out", r |-> ErrL(c, acc.log)]
       ELSE IF IsOn(E, "Remainder", fc) /\ acc.rem # "" THEN [k |-> "out", r |-> ErrL(c, acc.log)]
       ELSE [k |-> "conv", c |-> fc]
(* r: the outcome of the field; yields the new acc or the outcome of the object *)
DumpTake(E, c, f, acc, r) ==
    LET val == FieldValue(c, f)
        fc == Spawn(c, val, f.t, KStr(f.n))
        rem == IsOn(E, "Remainder", fc)
        log == acc.log \o r.log
        next(a) == [a EXCEPT !.log = log]
        keep == acc.sd \/ f.req \/ rem \/ ~f.has \/ ~PyEq(val, f.d)
        alias == Str(Names(E, fc, f.n)[1])
        names == {Str(x) : x \in RangeOf(Names(E, Spawn(c, None, f.t, KStr(f.n)), f.n))}
    IN IF r.st # "ok" THEN WithLog(r, acc.log)
       ELSE IF f.flat
       THEN IF ~IsMap(r.v) THEN ErrL(fc, log)
            ELSE IF PairKeys(acc.res) \cap PairKeys(Kids(r.v)) # {} THEN ErrL(c, log)
            ELSE next([acc EXCEPT !.res = @ \o Kids(r.v), !.flat = @ \cup PairKeys(Kids(r.v)), !.rem = IF rem THEN f.n ELSE @])
       ELSE IF ~keep THEN next([acc EXCEPT !.om = @ \cup names])
       ELSE IF rem THEN IF IsMap(r.v) THEN next([acc EXCEPT !.rem = f.n, !.rv = Kids(r.v), !.hasRv = TRUE]) ELSE ErrL(c, log)
       ELSE IF alias \in acc.flat THEN ErrL(c, log)
       ELSE IF HasPair(acc.res, alias) THEN Free          \* two fields of the same name
       ELSE next([acc EXCEPT !.res = PutPair(@, alias, r.v)])
IsOutcome(x) == "st" \in DOMAIN x
DumpFields(E, c, fs, acc) ==
    IF fs = <<>> THEN DumpEnd(E, c, acc)
    ELSE LET p == DumpPlan(E, c, Head(fs), acc)
             a == DumpTake(E, c, Head(fs), acc, Conv(E, p.c))
         IN CASE p.k = "out" -> p.r
              [] p.k = "skip" -> DumpFields(E, c, Tail(fs), p.a)
              [] p.k = "conv" -> IF IsOutcome(a) THEN a ELSE DumpFields(E, c, Tail(fs), a)

(* Looks up field f in the payload: adds it to acc.cont under the alias found  *)
(* (or its name).                                                              *)
Extract(E, c, f, acc, keepAlias) ==
    LET fc == Spawn(c, None, f.t, KStr(f.n))
        names == Names(E, fc, f.n)
        found == SelectSeq(names, LAMBDA a : HasPair(Kids(c.v), Str(a)))
    IN IF IsOn(E, "Remainder", fc)
       THEN IF acc.rem # "" THEN [acc EXCEPT !.bad = TRUE] ELSE [acc EXCEPT !.rem = f.n, !.remT = f.t]
       ELSE IF found # <<>>
       THEN [acc EXCEPT !.cont = PutPair(@, Str(IF keepAlias THEN found[1] ELSE f.n), GetPair(Kids(c.v), Str(found[1]))),
                        !.used = @ \cup {Str(found[1])}]
       ELSE IF f.req THEN [acc EXCEPT !.bad = TRUE] ELSE acc
RECURSIVE ExtractAll(_, _, _, _)
ExtractAll(E, c, fs, acc) == IF fs = <<>> \/ acc.bad THEN acc ELSE ExtractAll(E, c, Tail(fs), Extract(E, c, Head(fs), acc, TRUE))

(* acc: res (fields), used (keys), rem/remT (remainder field), fr (flattened   *)
(* field that owns the remainder and what it has so far), cont, bad, log       *)
LoadPlan(E, c, f, acc) ==      \* as DumpPlan; a: acc with the keys of the field
    LET a0 == [acc EXCEPT !.cont = <<>>]
        a1 == IF f.flat THEN ExtractAll(E, c, Expand(E, f.t), a0) ELSE Extract(E, c, f, a0, FALSE)
    IN IF a1.bad THEN [k |-> "out", r |-> ErrL(c, acc.log)]
       ELSE IF f.flat /\ a1.rem # acc.rem THEN [k |-> "skip", a |-> [a1 EXCEPT !.fr = <<f.n, f.t, a1.cont>>]]
       ELSE IF ~f.flat /\ a1.cont = <<>> THEN [k |-> "skip", a |-> IF f.has THEN [a1 EXCEPT !.res = PutPair(@, f.n, f.d)] ELSE a1]
       ELSE [k |-> "conv", a |-> a1, c |-> Spawn(c, IF f.flat THEN DictV(a1.cont) ELSE a1.cont[1][2], f.t, KStr(f.n))]
LoadTake(acc, n, r) == IF r.st # "ok" THEN WithLog(r, acc.log) ELSE [acc EXCEPT !.res = PutPair(@, n, r.v), !.log = @ \o r.log]
(* after all fields: what becomes of the other keys; n: the field that has them *)
LoadEnd(E, c, acc) ==
    LET un == SelectSeq(Kids(c.v), LAMBDA kv : kv[1] \notin acc.used)
        xk == Resolve(E, "ExtraKeys", c)
        allowed == xk # NoSetting /\ xk[3][1]
        rec == IF xk[3][2] = "" THEN <<>> ELSE << <<"extra", xk[3][2], c.p, {un[i][1] : i \in 1..Len(un)}>> >>
    IN IF acc.fr # <<>> THEN [k |-> "conv", n |-> acc.fr[1], c |-> Spawn(c, DictV(FoldPairs(acc.fr[3], un)), acc.fr[2], KStr(acc.fr[1]))]
       ELSE IF acc.rem # "" THEN [k |-> "conv", n |-> acc.rem, c |-> Spawn(c, DictV(un), acc.remT, KStr(acc.rem))]
       ELSE IF un = <<>> THEN [k |-> "skip", a |-> acc]
       ELSE IF ~allowed THEN [k |-> "out", r |-> ErrL(c, acc.log)]
       ELSE [k |-> "skip", a |-> [acc EXCEPT !.log = @ \o rec]]
LoadFields(E, c, fs, acc) ==
    IF fs = <<>>
    THEN LET p == LoadEnd(E, c, acc)
         IN CASE p.k = "out" -> p.r
              [] p.k = "skip" -> p.a
              [] p.k = "conv" -> LoadTake(acc, p.n, Conv(E, p.c))
    ELSE LET p == LoadPlan(E, c, Head(fs), acc)
             a == LoadTake(p.a, Head(fs).n, Conv(E, p.c))
         IN CASE p.k = "out" -> p.r
              [] p.k = "skip" -> LoadFields(E, c, Tail(fs), p.a)
              [] p.k = "conv" -> IF IsOutcome(a) THEN a ELSE LoadFields(E, c, Tail(fs), a)

SchemaPre(E, c, u) ==
    IF c.dir = "dump" THEN IF (IF IsTD(E, u) THEN ~IsMap(c.v) ELSE ~IsInstCls(E, c.v, u[2])) THEN Err(c) ELSE Go
    ELSE IF ~IsMap(c.v) THEN Err(c) ELSE Go
DumpAcc(E, c, u) ==
    LET sd == Resolve(E, "SerializeDefaults", c)
    IN [res |-> <<>>, rem |-> "", rv |-> <<>>, hasRv |-> FALSE, flat |-> {}, om |-> {}, u |-> u, log |-> <<>>, sd |-> IF sd = NoSetting THEN ~HasOption(c, "nodef") ELSE Enabled(sd)]
LoadAcc == [res |-> <<>>, used |-> {}, rem |-> "", remT |-> NoneT, fr |-> <<>>, cont |-> <<>>, bad |-> FALSE, log |-> <<>>]
LoadDone(E, u, a) == IF IsOutcome(a) THEN a ELSE WithLog(Construct(E, u[2], a.res), a.log)
TrySchema(E, c, u) ==
    LET pre == SchemaPre(E, c, u)
    IN IF pre.st # "go" THEN pre
       ELSE IF c.dir = "dump" THEN DumpFields(E, c, SchemaOf(E, u), DumpAcc(E, c, u))
       ELSE LoadDone(E, u, LoadFields(E, c, SchemaOf(E, u), LoadAcc))
=============================================================================
