-------------------------------- MODULE MCConv --------------------------------
(* Bounded model: every type that the wrappers W form from the atoms, up to   *)
(* Depth levels, with every value that Samples forms for it, in both          *)
(* directions, with and without strict conversion.  The properties are        *)
(* invariants; they are stated without reference to how Convert arrives at    *)
(* its result.  Every case is printed and replayed against the real code.     *)
EXTENDS Machine, Json, IOUtils
CONSTANTS Depth,   \* levels of wrappers around atoms
          Few,     \* samples of a part that are combined in a whole
          Emit   \* whether the cases are printed
U == JsonDeserialize(IOEnv.VERIF_UNIVERSE)
E == U.env
Atoms == U.atoms
W == U.wraps
Pool == U.pool          \* values tried for every type
IntT == <<"plain", "int", <<>>>>
StrT == <<"plain", "str", <<>>>>
Junk == << <<"Junk", 1, <<"text">>>>, <<"Alias", 1, <<"jj">>>> >>

(* -- types --------------------------------------------------------------------*)
Wrap(w, x) ==
    CASE w = "opt" -> UnionOfTypes(<<x, NoneT>>)
      [] w = "uni1" -> UnionOfTypes(<<x, StrT>>)
      [] w = "uni2" -> UnionOfTypes(<<IntT, x>>)
      [] w = "uni3" -> UnionOfTypes(<<IntT, x, NoneT>>)
      [] w = "ann" -> Annotate(x, Junk)
      [] w = "vtuple" -> <<"vtuple", "", <<x>>>>
      [] w = "tuple1" -> <<"tuple", "", <<x>>>>
      [] w = "tuple2" -> <<"tuple", "", <<x, IntT>>>>
      [] w = "dictv" -> <<"map", "dict", <<StrT, x>>>>
      [] w = "dictk" -> <<"map", "dict", <<x, IntT>>>>
      [] w = "odict" -> <<"map", "OrderedDict", <<StrT, x>>>>
      [] w = "ddict" -> <<"map", "defaultdict", <<StrT, x>>>>
      [] w = "mapping" -> <<"map", "Mapping", <<x, x>>>>
      [] w \in {"list", "set", "frozenset", "deque", "Sequence", "Collection", "MutableSequence", "Set", "MutableSet"} -> <<"coll", w, <<x>>>>
      [] OTHER -> <<"cls", w, <<x>>>>                      \* a generic class
WellFormed(w, x) ==
    LET u == Un(x)
    IN \/ w \notin {"opt", "uni1", "uni2", "uni3"}
       \/ u[1] = "any" /\ w = "opt"
       \/ u[1] \notin {"any", "nonetype"} /\ ~(x[1] = "ann" /\ AnnSetting(x, "Union") # NoSetting)
LevelOf(ts) == FlattenSeq_([i \in 1..Len(ts) |->
                    LET ws == SelectSeq(W, LAMBDA w : WellFormed(w, ts[i])) IN [j \in 1..Len(ws) |-> Wrap(ws[j], ts[i])]])
RECURSIVE UpTo(_, _)
UpTo(n, ts) == IF n = 0 THEN ts ELSE ts \o UpTo(n - 1, LevelOf(ts))
Types == TLCEval(Distinct(<<>>, UpTo(Depth, Atoms)))

(* -- values -------------------------------------------------------------------*)
Strictness(on) == IF on THEN <<NoLayer>> ELSE << [NoLayer EXCEPT !.glob = << <<"Strict", 1, <<FALSE>>>> >>] >>
C0(dir, v, t, on) == Ctx(dir, v, t, <<>>, Strictness(on), JsonMapper)
Fit(v, t, dir) == Conv(E, C0(dir, v, t, FALSE)).st = "ok"
(* the first Few values that fit and the first Few that do not *)
RECURSIVE Pick(_, _, _, _, _)
Pick(vs, t, dir, yes, no) ==
    IF vs = <<>> \/ (Len(yes) = Few /\ Len(no) = Few) THEN yes \o no
    ELSE IF Fit(Head(vs), t, dir) THEN Pick(Tail(vs), t, dir, IF Len(yes) < Few THEN Append(yes, Head(vs)) ELSE yes, no)
    ELSE Pick(Tail(vs), t, dir, yes, IF Len(no) < Few THEN Append(no, Head(vs)) ELSE no)

Kinds(dir, u) ==
    IF dir = "load" THEN {"list", "tuple", "set"}
    ELSE CASE u[1] \in {"tuple", "vtuple"} -> {"tuple", "list"}
           [] u[1] = "cls" -> {u[2], E.cls[u[2]].ctor}
           [] u[2] \in {"list", "set", "frozenset", "deque"} -> {u[2], "tuple"}
           [] u[2] = "Set" -> {"set", "frozenset"}
           [] OTHER -> {"list", "tuple", "deque", "set"}
MKinds(dir, u) == IF dir = "dump" /\ u[1] = "cls" THEN {u[2], "dict"} ELSE {"dict", "OrderedDict"}
Base(k) == IF k \in Builtins THEN k ELSE E.cls[k].ctor
(* a collection of a kind as Python can build it *)
MkColl(k, xs) == IF Base(k) \in {"set", "frozenset"} THEN SetV(k, Dedup(<<>>, SelectSeq(xs, LAMBDA x : Hashable(E, x)))) ELSE SeqV(k, xs)
MkMap(k, ps) == MapV(k, DictOf(<<>>, SelectSeq(ps, LAMBDA p : Hashable(E, p[1]))))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
SeqProd(xs, ys, f(_, _)) == TLCEval([n \in 1..(Len(xs) * Len(ys)) |-> f(xs[((n - 1) \div Len(ys)) + 1], ys[((n - 1) % Len(ys)) + 1])])

RECURSIVE Samples(_, _), Some(_, _), Shapes(_, _)
(* a few values of t and a few that are not *)
Some(t, dir) == TLCEval(Pick(Samples(t, dir), t, dir, <<>>, <<>>))
(* values with the shape of t, followed by those of the pool *)
Samples(t, dir) ==
    LET u == Un(t)
        \* all items or pairs of two parts
        Seqs(xs) == <<<<>>>> \o [i \in 1..Len(xs) |-> <<xs[i]>>] \o SeqProd(xs, xs, LAMBDA a, b : <<a, b>>)
        item(n) == CHOOSE a \in ElemArgs(E, <<u>>, {}, n) : TRUE
        single(n) == Cardinality(ElemArgs(E, <<u>>, {}, n)) = 1
        fs == TLCEval(SchemaOf(E, u))
        \* a payload or instance whose fields have the n-th sample of their types, but for field j which has the m-th
        parts == TLCEval([i \in 1..Len(fs) |-> Some(fs[i].t, dir)])
        One(n, j, m) == LET val(i) == LET ss == parts[i] IN ss[((IF i = j THEN m ELSE n) % Len(ss)) + 1]
                        IN IF dir = "dump" /\ E.cls[u[2]].kind \in {"dc", "nt"} THEN ObjV(u[2], [i \in 1..Len(fs) |-> <<fs[i].n, val(i)>>])
                           ELSE DictV([i \in 1..Len(fs) |-> <<Str(fs[i].n), val(i)>>])
        mine ==
            CASE (u[1] \in {"coll", "vtuple"} \/ IsUColl(E, u)) /\ single(1) ->
                    FlattenSeq_([k \in 1..Cardinality(Kinds(dir, u)) |->
                        LET q == TLCEval(Seqs(Some(item(1)[1], dir))) IN [i \in 1..Len(q) |-> MkColl(SeqOf(Kinds(dir, u))[k], q[i])]])
              [] u[1] = "tuple" -> FlattenSeq_([k \in 1..Cardinality(Kinds(dir, u)) |->
                        LET q == SeqProd(Some(u[3][1], dir), <<0, 1, 2>>, LAMBDA a, n : IF n = 0 THEN <<a>> ELSE IF n = 1 THEN <<a, Int("4")>> ELSE <<a, Int("4"), a>>)
                        IN [i \in 1..Len(q) |-> MkColl(SeqOf(Kinds(dir, u))[k], q[i])]])
              [] (u[1] = "map" \/ IsUMap(E, u)) /\ single(2) -> FlattenSeq_([k \in 1..Cardinality(MKinds(dir, u)) |->
                        LET a == item(2)
                            q == SeqProd(Some(a[1], dir), Some(a[2], dir), LAMBDA x, y : << <<x, y>> >>)
                            two == IF Len(q) < 2 THEN <<>> ELSE [i \in 1..(Len(q) - 1) |-> q[i] \o q[i + 1]]
                            all == <<<<>>>> \o q \o two
                        IN [i \in 1..Len(all) |-> MkMap(SeqOf(MKinds(dir, u))[k], all[i])]])
              [] u[1] = "union" -> FlattenSeq_([i \in 1..Len(u[3]) |-> Some(u[3][i], dir)])
              [] u[1] = "cls" /\ HasSchema(E, u) /\ fs # <<>> ->
                    FlattenSeq_([j \in 1..Len(fs) |-> [m \in 1..(2 * Few) |-> One(0, j, m - 1)]])
                    \o (IF dir = "dump" THEN <<>> ELSE
                        LET full == One(0, 1, 0)
                        IN [j \in 1..Len(fs) |-> DictV(DropPair(Kids(full), Str(fs[j].n)))]                    \* a key is missing
                           \o << DictV(Append(Kids(full), <<Str("zz"), Int("1")>>)), ListV(<<full>>) >>)     \* an extra key
              [] OTHER -> <<>>
        tagged == IF AnnSetting(t, "Union") = NoSetting THEN <<>> ELSE Shapes(AnnSetting(t, "Union")[3], dir)
    IN TLCEval(Distinct(<<>>, tagged \o mine) \o Pool)
(* data in and around the shape of a discriminated union *)
Shapes(us, dir) ==
    FlattenSeq_([i \in 1..Len(us[4]) |->
        LET ss == Some(us[4][i][2], dir)
            id == Str(us[4][i][1])
            nest == IF us[3] = "" THEN id ELSE Str(us[3])
            shapes(x) == << DictV(FoldPairs(<<>>, << <<Str(us[2]), id>>, <<nest, x>> >>)),                    \* nested
                            DictV(<< <<id, x>> >>),                                                               \* keyed
                            IF IsMap(x) THEN DictV(PutPair(Kids(x), Str(us[2]), id)) ELSE x,                      \* flat
                            DictV(FoldPairs(<<>>, << <<nest, x>>, <<Str(us[2]), id>>, <<Str("zz"), x>> >>)),    \* an extra key
                            DictV(FoldPairs(<<>>, << <<nest, x>>, <<Str(us[2]), Str("zz")>> >>)),               \* an unknown ID
                            DictV(FoldPairs(<<>>, << <<nest, x>>, <<Str(us[2]), x>> >>)),                       \* an ID of another type
                            DictV(<< <<Str(us[2]), id>> >>),
                            DictV(<< <<id, x>>, <<Str("zz"), x>> >>),
                            x >>
        IN IF dir = "dump" THEN ss ELSE FlattenSeq_([j \in 1..Len(ss) |-> shapes(ss[j])])])

(* -- C04: loading is the inverse of dumping on unambiguous types -------------------*)
RECURSIVE Unambiguous(_, _)
Unambiguous(t, seen) ==
    LET u == Un(t)
    IN \/ AnnSetting(t, "Union") # NoSetting /\ AnnSetting(t, "Union")[3][1] # "best_match"
       \/ AnnSetting(t, "Union") = NoSetting /\ AnnSetting(t, "DateFormat") = NoSetting /\ AnnSetting(t, "Precision") = NoSetting /\      \* formats and precisions may be lossy
          CASE u[1] = "any" -> FALSE
            [] u[1] = "union" -> IsOptional(u) /\ Unambiguous(WithoutNone(u), seen)
            [] u[1] \in {"coll", "map", "vtuple", "tuple"} -> u[2] \notin AbstractColls \cup {"Mapping", "defaultdict"} /\ \A i \in 1..Len(u[3]) : Unambiguous(u[3][i], seen)
            [] u[1] = "cls" /\ u \in seen -> TRUE
            [] u[1] = "cls" /\ HasSchema(E, u) -> \A i \in 1..Len(SchemaOf(E, u)) : Unambiguous(SchemaOf(E, u)[i].t, seen \cup {u})
            [] u[1] = "cls" /\ (IsUColl(E, u) \/ IsUMap(E, u)) -> \A a \in ElemArgs(E, <<u>>, {}, IF IsUMap(E, u) THEN 2 ELSE 1) : \A i \in 1..Len(a) : Unambiguous(a[i], seen)
            [] OTHER -> TRUE
Invertible(x, R, t) == x.dir = "dump" /\ R.st = "ok" /\ x.S = Strictness(TRUE) /\ Unambiguous(t, {}) /\ HasTypeD(E, x.v, t, FALSE)

(* -- behaviours -----------------------------------------------------------------*)
VARIABLES k, c, r
vars == <<k, c, r>>
Init == k \in 1..Len(Types) /\ c = <<>> /\ r = <<>>
Back(v) == Conv(E, C0("load", v, Types[k], TRUE))
(* bound by quantifiers, which TLC evaluates once, unlike the definitions of a LET in an action *)
Next == /\ c = <<>>
        /\ \E dir \in RangeOf(U.dirs) : \E vs \in {Samples(Types[k], dir)} :
           \E j \in 1..Len(vs), on \in RangeOf(U.strict) :
           \E mp \in 1..Len(U.mappers) :
           \E x \in {[C0(dir, vs[j], Types[k], on) EXCEPT !.M = U.mappers[mp]]} : \E R \in {Conv(E, x)} :
              /\ c' = x
              /\ r' = R
              /\ Emit => PrintT(<<"CASE", ToJson(<<Types[k], dir, on, vs[j], R, Invertible(x, R, Types[k]), mp>>)>>)
        /\ k' = k
Spec == Init /\ [][Next]_vars
T == Types[k]
Done == c # <<>>
Off == Done /\ ~Strictness(TRUE)[1].glob = c.S[1].glob   \* strict conversion is off

(* -- C01 ------------------------------------------------------------------------*)
C01 == Done /\ c.dir = "load" /\ r.st = "ok" => HasTypeD(E, r.v, T, FALSE)

(* -- C02: a table of what is accepted -------------------------------------------*)
Truthy == {"yes", "true", "on", "enabled"}
Falsy == {"no", "false", "off", "disabled"}
F(fn, a) == E.F[fn][a]
ScalarOf(n, v, on) ==   \* <<accepted, value>> for loading
    LET tag == Tag(v) a == Tok(v)
        fact(fn, arg, t) == IF F(fn, arg)[1] = "ok" THEN <<TRUE, V(t, F(fn, arg)[2])>> ELSE <<FALSE, None>>
        no == <<FALSE, None>>
    IN CASE n = "int"   -> CASE tag = "int" -> <<TRUE, v>> [] tag = "float" -> fact("f2i", a, "int") [] tag = "str" /\ ~on -> fact("s2i", a, "int") [] OTHER -> no
         [] n = "float" -> CASE tag = "float" -> <<TRUE, v>> [] tag = "int" -> fact("i2f", a, "float") [] tag = "str" /\ ~on -> fact("s2f", a, "float") [] OTHER -> no
         [] n = "bool"  -> CASE tag = "bool" -> <<TRUE, v>>
                             [] tag = "str" /\ ~on /\ F("lower", a)[2] \in Truthy -> <<TRUE, Bool(TRUE)>>
                             [] tag = "str" /\ ~on /\ F("lower", a)[2] \in Falsy -> <<TRUE, Bool(FALSE)>>
                             [] OTHER -> no
         [] n = "str"   -> CASE tag = "str" -> <<TRUE, v>>
                             [] tag = "int" /\ ~on -> <<TRUE, Str(a)>>
                             [] tag = "bool" /\ ~on -> <<TRUE, Str(IF a = "1" THEN "True" ELSE "False")>>
                             [] tag = "float" /\ ~on -> fact("f2s", a, "str")
                             [] OTHER -> no
         [] n = "bytes" -> IF tag = "str" THEN fact("b64d", a, "bytes") ELSE no
         [] n = "decimal" -> CASE tag = "str" -> fact("decimal", "|str:" \o a, n)
                               [] tag \in {"int", "bool"} /\ ~on -> fact("decimal", "|int:" \o a, n)
                               [] tag = "enum" /\ IsInt(E, v) /\ ~on -> fact("decimal", "|int:" \o Tok(MemberOf(E, v).val), n)
                               [] tag = "float" /\ ~on -> fact("decimal", "|float:" \o a, n)
                               [] OTHER -> no
C02 == Done /\ T[1] \in {"plain", "scal"} /\ T[2] \in {"int", "float", "bool", "str", "bytes", "decimal"} =>
        IF c.dir = "load" THEN LET s == ScalarOf(T[2], c.v, ~Off) IN (r.st = "ok") = s[1] /\ (s[1] => r.v = s[2])
        ELSE /\ r.st = "ok" => Conforms(E, c.v, T)
             /\ r = Conv(E, C0("dump", c.v, T, ~Off) )                       \* whatever the setting

(* -- C03: conforming values, and only these, are dumped to JSON data --------------*)
C03 == Done /\ c.dir = "dump" /\ r.st # "nofact" =>
        /\ r.st = "ok" => Conforms(E, c.v, T)
        /\ r.st = "ok" /\ ~Opaque(E, T, {}) => IsJson(r.v)
(* -- C04 -------------------------------------------------------------------------*)
C04 == Done /\ Invertible(c, r, T) =>
        LET b == Back(r.v)
        IN b.st # "nofact" => /\ b.st = "ok" /\ SameValue(b.v, c.v)
                              /\ SameValue(Conv(E, C0("dump", b.v, T, TRUE)).v, r.v)

(* -- C05 -------------------------------------------------------------------------*)
C05 == Done => r.st \in {"ok", "err", "nofact"}

(* -- C06: the path of an error leads to the place it names --------------------------*)
RECURSIVE Walk(_, _)
Walk(vs, p) ==   \* the values found at path p
    IF p = <<>> THEN vs
    ELSE LET h == Head(p)
             step(v) == CASE h[1] = "n" -> {v}
                          [] h[1] = "s" /\ Tag(v) = "map" -> IF HasPair(Kids(v), Str(h[2])) THEN {GetPair(Kids(v), Str(h[2]))} ELSE {v}
                          [] h[1] = "s" /\ Tag(v) = "obj" -> IF HasPair(Kids(v), h[2]) THEN {GetPair(Kids(v), h[2])} ELSE {v}
                          [] h[1] = "s" -> {v}
                          [] h[1] = "k" -> {Kids(v)[i][1] : i \in {j \in 1..Len(Kids(v)) : KKey(Kids(v)[j][1]) = h}}
                          [] h[1] \in {"i", "o"} /\ Tag(v) = "map" -> {Kids(v)[i][2] : i \in {j \in 1..Len(Kids(v)) : KVal(Kids(v)[j][1]) = h}}
                          [] h[1] = "i" -> {ItemsOf(E, v)[i] : i \in {j \in 1..Len(ItemsOf(E, v)) : ToString(j - 1) = h[2]}}
                          [] OTHER -> {}
             \* the same place may be read in two ways: the key None of a mapping
             \* or the data without the discriminator of a flat union or the only key,
             \* which is the discriminator of a keyed one
             more(v) == IF h[1] = "n" /\ Tag(v) = "map"
                        THEN {MapV("dict", DropPair(Kids(v), Kids(v)[i][1])) : i \in 1..Len(Kids(v))} \cup (IF HasPair(Kids(v), None) THEN {GetPair(Kids(v), None)} ELSE {})
                             \cup (IF Len(Kids(v)) = 1 THEN {Kids(v)[1][1]} ELSE {})
                        ELSE {}
             next(x) == Walk(step(x) \cup more(x), Tail(p))
         IN UNION {next(x) : x \in vs}
C06 == Done /\ r.st = "err" => r.ev \in Walk({c.v}, r.p)

(* -- C13 -------------------------------------------------------------------------*)
NoLog(x) == <<x.st, x.v>>
C13 == Done =>
        /\ IsOptional(Un(T)) => IF c.v = None THEN r.st = "ok" /\ r.v = None
                                ELSE NoLog(r) = NoLog(Conv(E, [c EXCEPT !.t = WithoutNone(Un(T))]))
        /\ Un(T)[1] = "union" /\ ~IsOptional(Un(T)) /\ AnnSetting(T, "Union") = NoSetting
              /\ (\A i \in 1..Len(Un(T)[3]) : IsClassHint(Un(Un(T)[3][i])))
              /\ Cardinality({TypeName(E, Un(Un(T)[3][i])) : i \in 1..Len(Un(T)[3])}) = Len(Un(T)[3]) =>
            LET alone == [i \in 1..Len(Un(T)[3]) |-> Conv(E, [c EXCEPT !.t = Un(T)[3][i]])]
                hits == SelectSeq(alone, LAMBDA x : x.st = "ok")
            IN IF (\E i \in 1..Len(alone) : alone[i].st = "nofact") THEN TRUE
               ELSE IF hits = <<>> THEN r.st = "err" ELSE r.st = "ok" /\ r.v = hits[1].v

(* -- C12 -------------------------------------------------------------------------*)
C12 == Done /\ AnnSetting(T, "Union") # NoSetting /\ AnnSetting(T, "Union")[3][1] # "best_match" =>
        LET us == AnnSetting(T, "Union")[3]
            disc == Str(us[2])
            nestOf(id) == IF us[3] = "" THEN Str(id) ELSE Str(us[3])
            part(id, x, d) ==   \* x is the data of member id inside of d
                CASE us[1] = "nested" -> IsMap(d) /\ HasPair(Kids(d), disc) /\ GetPair(Kids(d), disc) = Str(id) /\ HasPair(Kids(d), nestOf(id)) /\ GetPair(Kids(d), nestOf(id)) = x
                  [] us[1] = "keyed" -> d = DictV(<< <<Str(id), x>> >>)
                  [] us[1] = "flat" -> IsMap(d) /\ HasPair(Kids(d), disc) /\ GetPair(Kids(d), disc) = Str(id) /\ SameValue(x, MapV("dict", DropPair(Kids(d), disc)))
            inside(id, d) == CASE us[1] = "nested" -> GetPair(Kids(d), nestOf(id)) [] us[1] = "keyed" -> Kids(d)[1][2] [] us[1] = "flat" -> MapV("dict", DropPair(Kids(d), disc))
            okFor(i, d, x) == part(us[4][i][1], x, d)
        IN IF c.dir = "dump"
           THEN LET mine == {i \in 1..Len(us[4]) : TypeKey(us[4][i][2]) = TypeKeyOfV(c.v) /\ \A j \in 1..(i - 1) : TypeKey(us[4][j][2]) # TypeKeyOfV(c.v)}
                    alone(i) == Conv(E, [c EXCEPT !.t = us[4][i][2]])
                IN IF mine = {} THEN r.st = "err"
                   ELSE LET i == CHOOSE x \in mine : TRUE
                        IN IF alone(i).st # "ok" THEN r.st = "err"
                           ELSE IF us[1] = "flat" /\ ~IsMap(alone(i).v) THEN r.st = "err"
                           ELSE IF us[1] = "flat" /\ HasPair(Kids(alone(i).v), disc) THEN TRUE
                           ELSE r.st = "ok" /\ part(us[4][i][1], alone(i).v, r.v) /\ (us[1] = "nested" => Len(Kids(r.v)) = IF nestOf(us[4][i][1]) = disc THEN 1 ELSE 2)
           ELSE LET ids == {i \in 1..Len(us[4]) : IsMap(c.v) /\ Kids(c.v) # <<>> /\
                                CASE us[1] = "nested" -> HasPair(Kids(c.v), disc) /\ GetPair(Kids(c.v), disc) = Str(us[4][i][1]) /\ HasPair(Kids(c.v), nestOf(us[4][i][1]))
                                  [] us[1] = "keyed" -> Len(Kids(c.v)) = 1 /\ Kids(c.v)[1][1] = Str(us[4][i][1])
                                  [] us[1] = "flat" -> HasPair(Kids(c.v), disc) /\ GetPair(Kids(c.v), disc) = Str(us[4][i][1])}
                IN IF ids = {} THEN r.st = "err"
                   ELSE LET i == CHOOSE x \in ids : TRUE
                            m == Conv(E, [c EXCEPT !.t = us[4][i][2], !.v = inside(us[4][i][1], c.v)])
                        IN NoLog(m) = NoLog(r) \/ (m.st = "err" /\ r.st = "err")

(* -- C17 -------------------------------------------------------------------------*)
C17 == Done /\ Un(T)[1] = "scal" /\ Un(T)[2] \in {"date", "time", "datetime"} =>
        LET u == Un(T)[2]
            s == AnnSetting(T, "DateFormat")
            fmts == IF s = NoSetting THEN <<".ISO_8601">> ELSE s[3]
            parses == SelectSeq(fmts, LAMBDA f : F("dparse", f \o "|" \o u \o "|" \o Tok(c.v))[1] = "ok")
            formats == SelectSeq(fmts, LAMBDA f : F("dformat", f \o "|" \o u \o "|" \o Tok(c.v))[1] = "ok")
        IN IF c.dir = "load"
           THEN CASE Tag(c.v) = u -> r.st = "ok" /\ r.v = c.v
                  [] Tag(c.v) = "str" /\ parses # <<>> -> r.st = "ok" /\ r.v = V(u, F("dparse", parses[1] \o "|" \o u \o "|" \o Tok(c.v))[2])
                  [] OTHER -> r.st = "err"
           ELSE IF Tag(c.v) # u \/ formats = <<>> THEN r.st = "err"
                ELSE /\ r.st = "ok" /\ r.v = Str(F("dformat", formats[1] \o "|" \o u \o "|" \o Tok(c.v))[2])
                     \* what was lost is lost once
                     /\ LET b == Back(r.v) IN Len(fmts) = 1 => b.st = "ok" /\ LET a == Conv(E, C0("dump", b.v, T, TRUE)) IN a.st = "nofact" \/ a.v = r.v

(* -- C20: annotations that do not concern the conversion -----------------------------*)
Neutral == << <<"Junk", 1, <<"text">>>>, <<"Tag", 1, <<"x">>>> >>   \* also on a field, where an Alias would matter
RECURSIVE Sprinkle(_)
Sprinkle(t) ==
    CASE t[1] = "ann" -> Annotate(<<"ann", "", <<Un(Sprinkle(Un(t))), AnnS(t)>>>>, Neutral)
      [] t[1] = "lit" -> Annotate(t, Neutral)
      [] t[1] = "nonetype" -> t
      [] OTHER -> Annotate(<<t[1], t[2], [i \in 1..Len(t[3]) |-> Sprinkle(t[3][i])]>>, Neutral)
C20 == Done => LET s == Conv(E, [c EXCEPT !.t = Sprinkle(T)])
               IN s.st = r.st /\ (s.st = "ok" => s.v = r.v) /\ (s.st = "err" => s.p = r.p)

(* -- C24 -------------------------------------------------------------------------*)
C24 == Done /\ T[1] \in {"lit", "cls"} /\ (T[1] = "lit" \/ IsEnumT(E, T)) =>
        IF T[1] = "lit" THEN IF c.v \in RangeOf(T[3]) THEN r.st = "ok" /\ r.v = c.v ELSE r.st = "err"
        ELSE LET ms == Members(E, T[2])
                 int == E.cls[T[2]].kind = "ienum"
                 spells(m) == IF int THEN {m.val} ELSE {Str(n) : n \in NamesOf(E, T[2], m)} \cup {Str(a) : a \in RangeOf(m.aliases)}
             IN IF c.dir = "dump"
                THEN IF Tag(c.v) = "enum" /\ Tok(c.v) = T[2]
                     THEN LET m == MemberOf(E, c.v) IN r.st = "ok" /\ r.v = IF int THEN m.val ELSE Str(IF m.aliases # <<>> THEN m.aliases[1] ELSE m.n)
                     ELSE r.st = "err"
                ELSE IF int /\ Tag(c.v) \in {"bool", "enum"} THEN TRUE
                ELSE /\ (r.st = "ok") = (\E i \in 1..Len(ms) : c.v \in spells(ms[i]))
                     /\ r.st = "ok" => LET m == MemberOf(E, r.v)
                                       IN Tag(r.v) = "enum" /\ Tok(r.v) = T[2] /\ c.v \in spells(m)
                                          /\ (~int /\ c.v = Str(m.n) /\ Tok(c.v) \notin RangeOf(m.aliases) => \A i \in 1..Len(ms) : Tok(c.v) \notin RangeOf(ms[i].aliases))

(* -- C25 -------------------------------------------------------------------------*)
(* items, keys and values each by themselves *)
C25 == Done /\ r.st = "ok" =>
        LET u == Un(T)
            alone(x, t) == Conv(E, [c EXCEPT !.t = t, !.v = x]).v
            it(n) == CHOOSE a \in ElemArgs(E, <<u>>, {}, n) : TRUE
        IN CASE u[1] \in {"coll", "vtuple"} \/ IsUColl(E, u) ->
                  LET xs == ItemsOf(E, c.v) want == [i \in 1..Len(xs) |-> alone(xs[i], it(1)[1])]
                  IN IF Tag(r.v) = "set" THEN Kids(r.v) = Dedup(<<>>, want) ELSE Kids(r.v) = want
             [] u[1] = "tuple" -> LET xs == ItemsOf(E, c.v) IN Len(xs) = Len(u[3]) /\ Kids(r.v) = [i \in 1..Len(xs) |-> alone(xs[i], u[3][i])]
             [] u[1] = "map" \/ IsUMap(E, u) ->
                  Kids(r.v) = DictOf(<<>>, [i \in 1..Len(Kids(c.v)) |-> <<alone(Kids(c.v)[i][1], it(2)[1]), alone(Kids(c.v)[i][2], it(2)[2])>>])
             [] OTHER -> TRUE
(* -- C29: the schema of another type, where there is one, and nothing else ---------*)
C29 == Done /\ AnnSetting(T, "DeserializeAs") # NoSetting /\ IsSchema(E, Un(T)) =>
        LET das == AnnSetting(T, "DeserializeAs")[3][1]
            ss == SelectSeq(AnnS(T), LAMBDA s : s[1] # "DeserializeAs")
            as(t) == IF ss = <<>> THEN t ELSE Annotate(t, ss)
            s == Conv(E, [c EXCEPT !.t = as(das)])
        IN IF ~IsSchema(E, das) THEN r.st = "err"
           ELSE s.st = r.st /\ (s.st = "ok" => s.v = r.v) /\ (s.st = "err" => s.p = r.p)
(* -- C27: converters with options, in another order --------------------------------*)
RECURSIVE Plainly(_)
Plainly(v) ==    \* without the kinds of containers
    CASE Tag(v) = "seq" -> ListV([i \in 1..Len(Kids(v)) |-> Plainly(Kids(v)[i])])
      [] Tag(v) = "map" -> DictV([i \in 1..Len(Kids(v)) |-> <<Plainly(Kids(v)[i][1]), Plainly(Kids(v)[i][2])>>])
      [] OTHER -> v
Opts(m, kind) == LET ms == SelectSeq(FlattenM(m), LAMBDA i : i[1] = kind) IN IF ms = <<>> THEN NoOptions ELSE ms[1]
C27 == Done /\ r.st # "nofact" =>
        LET lax == "lax" \in RangeOf(Opts(c.M, "plain"))
            nodef == "nodef" \in RangeOf(Opts(c.M, "schema"))
            \* the options are defaults of settings
            glob == c.S[1].glob \o (IF lax THEN << <<"Strict", 1, <<FALSE>>>> >> ELSE <<>>)
                                \o (IF nodef THEN << <<"SerializeDefaults", 1, <<FALSE>>>> >> ELSE <<>>)
            R == Conv(E, [c EXCEPT !.M = JsonMapper, !.S = << [NoLayer EXCEPT !.glob = glob] >>])
            kind(m, default) == LET o == Opts(c.M, m)[2] IN IF o = "" THEN default ELSE o
            u == Un(T)
            own == AnnSetting(T, "Union") = NoSetting /\ r.st = "ok" /\ c.dir = "dump"
        IN R.st # "nofact" =>
           /\ r.st = R.st /\ r.p = R.p
           /\ r.st = "ok" /\ c.dir = "dump" => SameValue(Plainly(r.v), Plainly(R.v))
           /\ r.st = "ok" /\ c.dir = "load" => SameValue(r.v, R.v)
           /\ own /\ (u[1] \in {"coll", "vtuple", "tuple"} \/ IsUColl(E, u)) => Tok(r.v) = kind("coll", "list")
           /\ own /\ (u[1] = "map" \/ IsUMap(E, u)) => Tok(r.v) = kind("map", "dict")
           /\ own /\ HasSchema(E, u) /\ ~IsNT(E, u) => Tok(r.v) = kind("schema", "dict")

(* -- C22: the conversion in small steps has the same outcome -----------------------*)
C22 == Done => LET P == RunToEnd(E, Process(c)) IN Plain(P) = Plain(r) /\ P.log = r.log
=============================================================================
