------------------------------- MODULE MCSchema -------------------------------
(* Bounded model of objects: every class S whose fields are any of the given  *)
(* forms (defaults, Optional, Required, aliases, flattened, remainder), of    *)
(* every kind, with every choice of class settings and settings of the        *)
(* mapper; every payload whose keys are any subset of Keys, with at most one  *)
(* key that has another value than the first, and every instance that loads   *)
(* from one, with at most one field that has another value.                   *)
(* The invariants say which payloads are accepted and what becomes of each    *)
(* key, without reference to the algorithm in Convert.                        *)
EXTENDS Introspect, Json, IOUtils
CONSTANTS Emit
U == JsonDeserialize(IOEnv.VERIF_UNIVERSE)
E0 == U.env
Forms == U.forms        \* for each position the alternatives, each a sequence of fields
Keys == U.keys
Vals == U.vals          \* values of each key
OddVals == U.odd            \* values that replace a field of an instance
ST == <<"cls", "S", <<>>>>

(* -- classes -------------------------------------------------------------------*)
(* cl: <<kind, one alternative for each position, class settings, settings of the mapper, annotations of the type>> *)
OwnOf(cl) == FlattenSeq_([p \in 1..Len(Forms) |-> Forms[p][cl[2][p]]])
Env(cl) == [E0 EXCEPT !.cls["S"] = [@ EXCEPT !.kind = IF cl[1] = "tdp" THEN "td" ELSE cl[1], !.total = cl[1] # "tdp", !.own = OwnOf(cl), !.settings = U.cset[cl[3]]]]
Marked(f, kind) == AnnSetting(f.t, kind) # NoSetting
PyClass(cl) ==   \* whether Python accepts the class, and what the properties speak of
    LET fs == OwnOf(cl)
    IN /\ fs # <<>>
       /\ \A i \in 1..Len(fs), j \in 1..Len(fs) : i < j => fs[i].n # fs[j].n
       /\ cl[1] \in {"dc", "nt"} => \A i \in 1..Len(fs), j \in 1..Len(fs) : i < j /\ fs[i].dk # "no" => fs[j].dk # "no"
       /\ cl[1] # "dc" => cl[3] = 1 /\ \A i \in 1..Len(fs) : ~Marked(fs[i], "Required") /\ ~Marked(fs[i], "Flattened") /\ ~Marked(fs[i], "Remainder") /\ fs[i].dk # "fac"
       /\ LET c0 == Env(cl) IN Len(SelectSeq(FlattenSeq_([i \in 1..Len(fs) |-> IF Marked(fs[i], "Flattened") THEN Expand(c0, fs[i].t) ELSE <<fs[i]>>]),
                                             LAMBDA f : Marked(f, "Remainder"))) <= 1
Product(ns) == [p \in DOMAIN ns |-> 1..ns[p]]
RECURSIVE Tuples(_)
Tuples(ps) == IF ps = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in 1..Len(Head(ps)), t \in Tuples(Tail(ps))}
Classes == {cl \in RangeOf(U.kinds) \X Tuples(Forms) \X (1..Len(U.cset)) \X (1..Len(U.gset)) \X (1..Len(U.aset)) : PyClass(cl)}

(* -- payloads and instances ------------------------------------------------------*)
S0(cl) == << [NoLayer EXCEPT !.glob = U.gset[cl[4]]] >>
Root(cl) == IF U.aset[cl[5]] = <<>> THEN ST ELSE Annotate(ST, U.aset[cl[5]])
C0(cl, dir, v) == Ctx(dir, v, Root(cl), <<>>, S0(cl), JsonMapper)
(* the keys K, the d-th with its m-th value *)
Payload(K, d, m) == DictV(SelectSeq([i \in 1..Len(Keys) |-> <<Str(Keys[i]), IF i = d THEN Vals[i][m] ELSE Vals[i][1]>>], LAMBDA p : Tok(p[1]) \in K))
Payloads == {Payload(K, d, m) : K \in SUBSET RangeOf(Keys), d \in 0..Len(Keys), m \in 1..U.few}
NoObjects == RangeOf(U.others)   \* payloads and values that are no objects
Instances(En, cl) ==
    LET good == {x \in {Conv(En, C0(cl, "load", Payload(K, 0, 1))) : K \in SUBSET RangeOf(Keys)} : x.st = "ok"}
        alter(v) == {v} \cup {[v EXCEPT ![3][i][2] = w] : i \in 1..Len(Kids(v)), w \in RangeOf(OddVals)}
    IN UNION {alter(x.v) : x \in good}

VARIABLES cl, c, r
vars == <<cl, c, r>>
Init == cl \in Classes /\ c = <<>> /\ r = <<>>
(* the fields on the level of the object: [p |-> flattened fields passed, f |-> field, id |-> class] *)
RECURSIVE Leaves(_, _, _)
Leaves(En, t, p) ==
    FlattenSeq_([i \in 1..Len(SchemaOf(En, Un(t))) |->
        LET f == SchemaOf(En, Un(t))[i] IN IF f.flat THEN Leaves(En, f.t, Append(p, f.n)) ELSE << [p |-> p, f |-> f, id |-> Un(t)[2]] >>])
NamesIn(f) == IF Marked(f, "Alias") THEN AnnSetting(f.t, "Alias")[3] ELSE <<f.n>>
IsRem(l) == Marked(l.f, "Remainder")
(* (unless a key that one field writes is a name of another)                       *)
Apart(ls) == \A i, j \in 1..Len(ls) : i # j => RangeOf(NamesIn(ls[i].f)) \cap RangeOf(NamesIn(ls[j].f)) = {}
Sound(x, R) == x.dir = "dump" /\ R.st = "ok" /\ HasTypeD(Env(cl), x.v, ST, FALSE) /\ Apart(Leaves(Env(cl), ST, <<>>))
Next == /\ c = <<>>
        /\ \E En \in {Env(cl)} : \E dir \in RangeOf(U.dirs) : \E v \in (IF dir = "load" THEN Payloads ELSE Instances(En, cl)) \cup NoObjects :
           \E x \in {C0(cl, dir, v)} : \E R \in {Conv(En, x)} :
              /\ c' = x
              /\ r' = R
              /\ Emit => PrintT(<<"CASE", ToJson(<<cl, dir, v, R, Sound(x, R)>>)>>)
        /\ UNCHANGED cl
Spec == Init /\ [][Next]_vars

(* -- what the properties say -----------------------------------------------------*)
Done == c # <<>> /\ r.st # "nofact"
FirstIn(f, d) == SelectSeq(NamesIn(f), LAMBDA a : HasPair(Kids(d), Str(a)))       \* those in the payload d
RECURSIVE AtP(_, _)
AtP(v, p) == IF p = <<>> THEN v ELSE AtP(GetPair(Kids(v), IF IsMap(v) THEN Str(Head(p)) ELSE Head(p)), Tail(p))
Sub(f, v) == Conv(Env(cl), [c EXCEPT !.v = v, !.t = f.t])
GlobOrClass(l, kind) ==      \* the setting in effect for the object that has the field (all of the same priority)
    LET mine == SelectSeq(Env(cl).cls[l.id].settings, LAMBDA s : s[1] = kind)
        glob == SelectSeq(U.gset[cl[4]], LAMBDA s : s[1] = kind)
        ann == IF l.p = <<>> THEN SelectSeq(U.aset[cl[5]], LAMBDA s : s[1] = kind) ELSE <<>>
    IN IF ann # <<>> THEN ann[Len(ann)] ELSE IF mine # <<>> THEN mine[Len(mine)] ELSE IF glob # <<>> THEN glob[Len(glob)] ELSE NoSetting
Extra == GlobOrClass([id |-> "S", p |-> <<>>], "ExtraKeys")

(* loading: C07, C08, C09, C10 *)
Load == Done /\ c.dir = "load" =>
    IF ~IsMap(c.v) THEN r.st = "err"
    ELSE LET En == Env(cl)
             ls == Leaves(En, ST, <<>>)
             normal == SelectSeq(ls, LAMBDA l : ~IsRem(l))
             rems == SelectSeq(ls, LAMBDA l : IsRem(l))
             used == UNION {LET a == FirstIn(normal[i].f, c.v) IN IF a = <<>> THEN {} ELSE {Str(a[1])} : i \in 1..Len(normal)}
             un == SelectSeq(Kids(c.v), LAMBDA kv : kv[1] \notin used)
             fits(l) == LET a == FirstIn(l.f, c.v) IN IF a = <<>> THEN ~l.f.req ELSE Sub(l.f, GetPair(Kids(c.v), Str(a[1]))).st = "ok"
             restFits == IF rems # <<>> THEN Sub(rems[1].f, DictV(un)).st = "ok" ELSE un = <<>> \/ (Extra # NoSetting /\ Extra[3][1])
             told == SelectSeq(r.log, LAMBDA x : x[1] = "extra" /\ x[3] = c.p)
         IN /\ (r.st = "ok") = ((\A i \in 1..Len(normal) : fits(normal[i])) /\ restFits)
            /\ r.st = "ok" =>
                 /\ \A i \in 1..Len(normal) :
                      LET f == normal[i].f
                          a == FirstIn(f, c.v)
                          o == AtP(r.v, normal[i].p)
                          k == IF IsMap(o) THEN Str(f.n) ELSE f.n
                      IN IF a # <<>> THEN GetPair(Kids(o), k) = Sub(f, GetPair(Kids(c.v), Str(a[1]))).v
                         ELSE IF f.has THEN GetPair(Kids(o), k) = f.d
                         ELSE ~HasPair(Kids(o), k)
                 /\ rems # <<>> => GetPair(Kids(AtP(r.v, rems[1].p)), rems[1].f.n) = Sub(rems[1].f, DictV(un)).v
                 /\ told = IF rems # <<>> \/ un = <<>> \/ Extra[3][2] = "" THEN <<>> ELSE << <<"extra", Extra[3][2], c.p, {un[i][1] : i \in 1..Len(un)}>> >>
                 \* the same without the keys that were allowed
                 /\ rems = <<>> => Conv(En, [c EXCEPT !.v = DictV(SelectSeq(Kids(c.v), LAMBDA kv : kv[1] \in used))]).v = r.v

(* dumping: C08, C10, C23 *)
Dump == Done /\ c.dir = "dump" =>
    LET En == Env(cl)
        ls == Leaves(En, ST, <<>>)
        valid == IF IsTD(En, ST) THEN IsMap(c.v) ELSE Tag(c.v) = "obj" /\ Tok(c.v) = "S"
        owner(l) == AtP(c.v, l.p)
        there(l) == HasPair(Kids(owner(l)), IF IsMap(c.v) THEN Str(l.f.n) ELSE l.f.n)
        val(l) == GetPair(Kids(owner(l)), IF IsMap(c.v) THEN Str(l.f.n) ELSE l.f.n)
        sd(l) == LET s == GlobOrClass(l, "SerializeDefaults") IN s = NoSetting \/ Enabled(s)
        omitted(l) == ~there(l) \/ (~sd(l) /\ l.f.has /\ ~l.f.req /\ ~IsRem(l) /\ PyEq(val(l), l.f.d))
        key(l) == Str(NamesIn(l.f)[1])
        pairs(l) == IF omitted(l) THEN {} ELSE IF IsRem(l) THEN RangeOf(Kids(Sub(l.f, val(l)).v)) ELSE {<<key(l), Sub(l.f, val(l)).v>>}
    IN IF ~valid THEN r.st = "err"
       ELSE r.st = "ok" =>
            /\ \A i \in 1..Len(ls) : IF there(ls[i]) THEN omitted(ls[i]) \/ Sub(ls[i].f, val(ls[i])).st = "ok" ELSE ~ls[i].f.req
            /\ RangeOf(Kids(r.v)) = UNION {pairs(ls[i]) : i \in 1..Len(ls)}                  \* neither lost nor added
            /\ Cardinality(PairKeys(Kids(r.v))) = Len(Kids(r.v))
            /\ \A i, j \in 1..Len(ls) : i # j => {x[1] : x \in pairs(ls[i])} \cap {x[1] : x \in pairs(ls[j])} = {}     \* nor confused

(* what is dumped can be loaded again, whatever was left out: C04, C10, C23 *)
Round == Done /\ c.dir = "dump" /\ Sound(c, r) =>
    LET En == Env(cl)
        b == Conv(En, C0(cl, "load", r.v))
    IN b.st = "ok" /\ (SameValue(b.v, c.v) \/ PyEq(b.v, c.v)) /\ SameValue(Conv(En, C0(cl, "dump", b.v)).v, r.v)
(* without flattened and remainder fields a name is only taken twice if aliases collide *)
Accepts == Done /\ c.dir = "dump" /\ HasTypeD(Env(cl), c.v, ST, FALSE) /\ r.st # "ok" =>
    LET ls == Leaves(Env(cl), ST, <<>>)
        names(l) == {Str(a) : a \in RangeOf(NamesIn(l.f))}
    IN \/ \E i, j \in 1..Len(ls) : i # j /\ names(ls[i]) \cap names(ls[j]) # {}
       \/ \E i, j \in 1..Len(ls) : IsRem(ls[i]) /\ PairKeys(Kids(GetPair(Kids(AtP(c.v, ls[i].p)), ls[i].f.n))) \cap names(ls[j]) # {}

(* -- introspection: the schema of every class ---------------------------------------*)
Describe == /\ c = <<>>
            /\ \E y \in {SchemaSaid(Env(cl), Root(cl))} :
                 /\ c' = Root(cl)
                 /\ r' = y
                 /\ Emit => PrintT(<<"CASE", ToJson(<<cl, y>>)>>)
            /\ UNCHANGED cl
ISpec == Init /\ [][Describe]_vars
Told == c # <<>> /\ cl[1] # "nt"
FullOf(ls) == DictV([i \in 1..Len(ls) |-> <<Str(NamesIn(ls[i].f)[1]), IF IsOptional(Un(ls[i].f.t)) THEN None ELSE CHOOSE v \in RangeOf(Vals[1]) : Conv(Env(cl), Ctx("load", v, ls[i].f.t, <<>>, S0(cl), JsonMapper)).st = "ok">>])
Without(d, k) == DictV(SelectSeq(Kids(d), LAMBDA p : p[1] # k))
(* what the schema calls required is what a payload cannot do without, below flattened fields as well *)
SaysRequired ==
    Told => LET En == Env(cl)
                ls == SelectSeq(Leaves(En, ST, <<>>), LAMBDA l : ~IsRem(l))
                d == FullOf(ls)
            IN Apart(ls) /\ ~Clash(En, ST) => /\ Conv(En, C0(cl, "load", d)).st = "ok"
                            /\ \A i \in 1..Len(ls) : (Conv(En, C0(cl, "load", Without(d, Kids(d)[i][1]))).st = "err") = ls[i].f.req
(* the fields below a flattened field are those whose keys are on the level of the object *)
SaysExpanded ==
    Told /\ r.exp # {<<"clash", {}>>} =>
        LET ls == Leaves(Env(cl), ST, <<>>)
        IN /\ {x[1] : x \in r.exp} = {f.n : f \in {g \in r.fields : g.flat}}
           /\ \A x \in r.exp : {y[1] : y \in x[2]} = {ls[i].f.n : i \in {k \in 1..Len(ls) : ls[k].p # <<>> /\ Head(ls[k].p) = x[1]}}
SaysNames == Told => {f.n : f \in r.fields} = {f.n : f \in RangeOf(OwnOf(cl))} /\ r.ann = U.aset[cl[5]]
=============================================================================
