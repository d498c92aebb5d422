----------------------------- MODULE DataclassExt ---------------------------
(* Classes decorated with databind.core.dataclasses.dataclass: construction   *)
(* of the class, of its objects, and the generated methods.  The same module  *)
(* describes the standard decorator if E.strict holds: then a positional      *)
(* field without a default must not follow one with a default.                *)
(*   value = <<"i", <<n>>>> | <<"l", <<n, ..>>>> | <<"n", <<>>>> (None)        *)
(*   class = [kind in {"dc","plain"}, std, mro, opts, own, attrs, post]       *)
(*   field = [n, role in {"field","initvar","classvar","marker"}, src in      *)
(*            {"bare","field"}, def in {"none","value","factory"}, v, init,   *)
(*            kw in {"","yes","no"}, cmp, repr, hash in {"","yes","no"},      *)
(*            meta = <<key, text>> pairs]                                     *)
EXTENDS Values

DC(E, c) == E.cls[c].kind = "dc"
Mro(E, c) == E.cls[c].mro
Opt(E, c, o) == o \in RangeOf(E.cls[c].opts)      \* frozen noeq order slots kwonly unsafe norepr noinit nomatch

RECURSIVE MergeFields(_, _)
MergeFields(acc, fs) == IF fs = <<>> THEN acc ELSE MergeFields(PutPair(acc, Head(fs)[1], Head(fs)[2]), Tail(fs))

(* -- fields and class attributes ------------------------------------------- *)
RECURSIVE Fields(_, _), MergeBases(_, _, _), ClassAttr(_, _, _), OwnFields(_, _), DefaultOf(_, _, _)
(* all fields of a class, as <<name, field>> pairs *)
Fields(E, c) ==
    IF DC(E, c) THEN MergeFields(MergeBases(E, <<>>, Tail(Mro(E, c))), OwnFields(E, c))
    ELSE LET ds == SelectSeq(Tail(Mro(E, c)), LAMBDA b : DC(E, b)) IN IF ds = <<>> THEN <<>> ELSE Fields(E, ds[1])
(* mro without the class itself: the most derived base comes first, it is merged last *)
MergeBases(E, acc, mro) ==
    IF mro = <<>> THEN acc
    ELSE LET b == mro[Len(mro)] IN MergeBases(E, MergeFields(acc, Fields(E, b)), SubSeq(mro, 1, Len(mro) - 1))
OwnFields(E, c) ==
    LET own == E.cls[c].own
        isf(f) == f.role # "marker"
        KwAt(i) == Opt(E, c, "kwonly") \/ \E j \in 1..(i - 1) : own[j].role = "marker"
        res == [i \in 1..Len(own) |->
                  <<own[i].n, [n |-> own[i].n, role |-> own[i].role, d |-> DefaultOf(E, c, own[i]), init |-> own[i].init,
                               kw |-> (own[i].kw = "yes" \/ (own[i].kw = "" /\ KwAt(i))), cmp |-> own[i].cmp, repr |-> own[i].repr, hash |-> own[i].hash, meta |-> own[i].meta]>>]
    IN SelectSeq(res, LAMBDA p : isf(p[2]))
DefaultOf(E, c, f) ==
    IF f.def # "none" THEN <<f.def, f.v>>
    ELSE IF f.src = "field" THEN <<"none", <<"i", <<0>>>>>>
    ELSE LET a == ClassAttr(E, Tail(Mro(E, c)), f.n)
         IN IF a[1] = "value" THEN a ELSE <<"none", <<"i", <<0>>>>>>

FieldNames(E, c) == LET fs == Fields(E, c) IN {fs[i][1] : i \in {j \in 1..Len(fs) : fs[j][2].role = "field"}}
SlotNames(E, c) == IF DC(E, c) /\ Opt(E, c, "slots") THEN FieldNames(E, c) ELSE {}
OwnSlots(E, c) == SlotNames(E, c) \ UNION {SlotNames(E, b) : b \in RangeOf(Tail(Mro(E, c)))}
(* the attribute of the first class of mro that has it: <<"none"|"desc"|"value", v>> *)
ClassAttr(E, mro, n) ==
    IF mro = <<>> THEN <<"none", <<"i", <<0>>>>>>
    ELSE LET c == Head(mro)
             rec == E.cls[c]
             next == ClassAttr(E, Tail(mro), n)
             own == SelectSeq(rec.own, LAMBDA f : f.n = n)
         IN IF n \in OwnSlots(E, c) THEN <<"desc", <<"i", <<0>>>>>>
            ELSE IF n \in SlotNames(E, c) THEN next
            ELSE IF own # <<>> THEN (IF own[1].def = "value" THEN <<"value", own[1].v>> ELSE next)
            ELSE IF HasPair(rec.attrs, n) THEN <<"value", GetPair(rec.attrs, n)>> ELSE next

(* -- construction of a class ------------------------------------------------ *)
InitParams(E, c) ==
    LET fs == Fields(E, c)
        all == SelectSeq(fs, LAMBDA p : p[2].role \in {"field", "initvar"} /\ p[2].init)
    IN SelectSeq(all, LAMBDA p : ~p[2].kw) \o SelectSeq(all, LAMBDA p : p[2].kw)
PosParams(E, c) == SelectSeq(InitParams(E, c), LAMBDA p : ~p[2].kw)
Unordered(ps) == \E i, j \in 1..Len(ps) : i < j /\ ps[i][2].d[1] # "none" /\ ps[j][2].d[1] = "none"

Refused(E, c) ==
    LET rec == E.cls[c]
        of == OwnFields(E, c)
        bases == {b \in RangeOf(Tail(Mro(E, c))) : DC(E, b)}
        frozenBase == \E b \in RangeOf(Tail(Mro(E, c))) : DC(E, b) /\ Opt(E, b, "frozen")
    IN /\ rec.kind = "dc"
       /\ \/ \E i \in 1..Len(of) : of[i][2].role = "field" /\ of[i][2].d[1] = "value" /\ of[i][2].d[2][1] = "l"
          \/ \E i \in 1..Len(of) : of[i][2].role # "field" /\ of[i][2].d[1] = "factory"
          \/ \E i \in 1..Len(rec.own) : rec.own[i].role = "classvar" /\ rec.own[i].kw # ""
          \/ Cardinality({i \in 1..Len(rec.own) : rec.own[i].role = "marker"}) > 1
          \/ (Opt(E, c, "order") /\ Opt(E, c, "noeq"))
          \/ (bases # {} /\ frozenBase # Opt(E, c, "frozen"))
          \/ ((E.strict \/ rec.std) /\ ~Opt(E, c, "noinit") /\ Unordered(PosParams(E, c)))

(* -- construction of an object ----------------------------------------------- *)
(* args = [pos |-> values, kw |-> <<name, value>> pairs]; result: [st, attrs, log] *)
Owner(E, c, P(_)) == LET ds == SelectSeq(Mro(E, c), LAMBDA b : DC(E, b) /\ P(b)) IN IF ds = <<>> THEN "" ELSE ds[1]
InitOwner(E, c) == Owner(E, c, LAMBDA b : ~Opt(E, b, "noinit"))
Fail == [st |-> "err", attrs |-> <<>>, log |-> <<>>]

RECURSIVE RunPost(_, _, _, _)
(* the post-init functions that run: the first of the mro, and those it calls *)
RunPost(E, mro, args, acc) ==
    LET ps == SelectSeq(mro, LAMBDA b : E.cls[b].post # "")
    IN IF ps = <<>> THEN acc
       ELSE LET b == ps[1]
                acc1 == [acc EXCEPT !.log = Append(@, <<b, args>>), !.attrs = IF E.cls[b].post = "set" THEN PutPair(@, "w", <<"i", <<77>>>>) ELSE @]
                k == IndexOf(mro, LAMBDA x : x = b)
            IN IF E.cls[b].post = "super" THEN RunPost(E, SubSeq(mro, k + 1, Len(mro)), args, acc1) ELSE acc1

HasDict(E, c) == \E b \in RangeOf(Mro(E, c)) : ~(DC(E, b) /\ Opt(E, b, "slots"))
(* can an attribute of that name be stored? *)
Assignable(E, c, n) == HasDict(E, c) \/ ClassAttr(E, Mro(E, c), n)[1] = "desc"
New(E, c, a) ==
    LET io == InitOwner(E, c)
        ps == InitParams(E, io)
        pos == PosParams(E, io)
        names == {ps[i][1] : i \in 1..Len(ps)}
        given(n) == (\E i \in 1..Len(a.pos) : pos[i][1] = n) \/ HasPair(a.kw, n)
        value(n) == IF HasPair(a.kw, n) THEN GetPair(a.kw, n) ELSE a.pos[IndexOf(pos, LAMBDA p : p[1] = n)]
        arg(p) == IF given(p[1]) THEN value(p[1]) ELSE p[2].d[2]
        fs == Fields(E, io)
        set == SelectSeq(fs, LAMBDA p : p[2].role = "field" /\ (p[2].init \/ p[2].d[1] = "factory" \/ (Opt(E, io, "slots") /\ p[2].d[1] # "none")))
        ivs == SelectSeq(fs, LAMBDA p : p[2].role = "initvar")
        hasPost == \E b \in RangeOf(Mro(E, io)) : E.cls[b].post # ""
        base == [st |-> "ok", attrs |-> [i \in 1..Len(set) |-> <<set[i][1], IF set[i][2].init THEN arg(set[i]) ELSE set[i][2].d[2]>>], log |-> <<>>]
    IN IF io = "" THEN (IF a.pos = <<>> /\ a.kw = <<>> THEN [st |-> "ok", attrs |-> <<>>, log |-> <<>>] ELSE Fail)
       ELSE IF Len(a.pos) > Len(pos) THEN Fail
       ELSE IF \E i \in 1..Len(a.kw) : a.kw[i][1] \notin names \/ \E j \in 1..Len(a.pos) : pos[j][1] = a.kw[i][1] THEN Fail
       ELSE IF \E i \in 1..Len(ps) : ~given(ps[i][1]) /\ ps[i][2].d[1] = "none" THEN Fail
       ELSE IF \E i \in 1..Len(set) : ~Assignable(E, c, set[i][1]) THEN [Fail EXCEPT !.st = "free"]
       ELSE IF hasPost THEN RunPost(E, Mro(E, c), [i \in 1..Len(ivs) |-> arg(ivs[i])], base) ELSE base

(* -- objects: o = [c, attrs] ---------------------------------------------------- *)
(* in a slots class the descriptor hides class attributes *)
Get(E, o, n) ==
    IF HasPair(o.attrs, n) THEN <<"value", GetPair(o.attrs, n)>> ELSE ClassAttr(E, Mro(E, o.c), n)
Has(E, o, n) == Get(E, o, n)[1] = "value"
Tuple(E, o, fs) == [i \in 1..Len(fs) |-> Get(E, o, fs[i][1])[2]]
AllSet(E, o, fs) == \A i \in 1..Len(fs) : Has(E, o, fs[i][1])
RealFields(E, c) == SelectSeq(Fields(E, c), LAMBDA p : p[2].role = "field")
Compared(E, c) == SelectSeq(RealFields(E, c), LAMBDA p : p[2].cmp)
Hashed(E, c) == SelectSeq(RealFields(E, c), LAMBDA p : IF p[2].hash = "" THEN p[2].cmp ELSE p[2].hash = "yes")

R(st, v) == [st |-> st, v |-> v]
Ok(v) == R("ok", v)
Error == R("err", <<>>)
Unsaid == R("free", <<>>)
B(b) == IF b THEN Ok(<<"true">>) ELSE Ok(<<"false">>)

Equal(E, o1, o2, same) ==
    LET w == Owner(E, o1.c, LAMBDA b : ~Opt(E, b, "noeq"))
        fs == Compared(E, w)
    IN IF w = "" \/ o1.c # o2.c THEN B(same)
       ELSE IF ~AllSet(E, o1, fs) \/ ~AllSet(E, o2, fs) THEN Error
       ELSE B(Tuple(E, o1, fs) = Tuple(E, o2, fs))

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF a = <<>> THEN b # <<>>
    ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) = Head(b) THEN LexLess(Tail(a), Tail(b)) ELSE Head(a)[2][1] < Head(b)[2][1]
Less(E, o1, o2, how) ==
    LET w == Owner(E, o1.c, LAMBDA b : Opt(E, b, "order"))
        fs == Compared(E, w)
        a == Tuple(E, o1, fs)
        b == Tuple(E, o2, fs)
    IN IF w = "" \/ o1.c # o2.c THEN Error
       ELSE IF ~AllSet(E, o1, fs) \/ ~AllSet(E, o2, fs) THEN Error
       ELSE IF \E i \in 1..Len(fs) : a[i][1] # "i" \/ b[i][1] # "i" THEN Unsaid
       ELSE CASE how = "lt" -> B(LexLess(a, b))
              [] how = "le" -> B(a = b \/ LexLess(a, b))
              [] how = "gt" -> B(LexLess(b, a))
              [] OTHER -> B(a = b \/ LexLess(b, a))

HashOwner(E, c) == Owner(E, c, LAMBDA b : Opt(E, b, "unsafe") \/ ~Opt(E, b, "noeq"))
Unhashable(E, o) ==
    LET w == HashOwner(E, o.c)
        fs == Hashed(E, w)
    IN w # "" /\ (\/ (~Opt(E, w, "unsafe") /\ ~Opt(E, w, "frozen"))
                  \/ ~AllSet(E, o, fs)
                  \/ \E i \in 1..Len(fs) : Get(E, o, fs[i][1])[2][1] = "l")
(* are the hashes equal? *)
SameHash(E, o1, o2, same) ==
    LET w == HashOwner(E, o1.c)
        fs == Hashed(E, w)
    IN IF Unhashable(E, o1) \/ Unhashable(E, o2) THEN Error
       ELSE IF same THEN B(TRUE)
       ELSE IF w # "" /\ HashOwner(E, o2.c) = w /\ Tuple(E, o1, fs) = Tuple(E, o2, fs) THEN B(TRUE)
       ELSE Unsaid

RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
Show(v) == IF v[1] = "n" THEN "None" ELSE IF v[1] = "i" THEN ToString(v[2][1]) ELSE "[" \o Joined([i \in 1..Len(v[2]) |-> ToString(v[2][i])], ", ") \o "]"
Repr(E, o) ==
    LET w == Owner(E, o.c, LAMBDA b : ~Opt(E, b, "norepr"))
        fs == SelectSeq(RealFields(E, w), LAMBDA p : p[2].repr)
    IN IF w = "" THEN Unsaid
       ELSE IF ~AllSet(E, o, fs) THEN Error
       ELSE Ok(<<o.c \o "(" \o Joined([i \in 1..Len(fs) |-> fs[i][1] \o "=" \o Show(Get(E, o, fs[i][1])[2])], ", ") \o ")">>)

Immutable(E, c, n) == \E b \in RangeOf(Mro(E, c)) : DC(E, b) /\ Opt(E, b, "frozen") /\ ((b = c /\ ~Opt(E, b, "slots")) \/ n \in FieldNames(E, b))
Settable(E, c, n) == ~Immutable(E, c, n) /\ Assignable(E, c, n)

IsDC(E, c) == \E b \in RangeOf(Mro(E, c)) : DC(E, b)
AsDict(E, o) ==
    LET fs == RealFields(E, o.c)
    IN IF ~IsDC(E, o.c) \/ ~AllSet(E, o, fs) THEN Error ELSE Ok([i \in 1..Len(fs) |-> <<fs[i][1], Get(E, o, fs[i][1])[2]>>])
AsTuple(E, o) == LET r == AsDict(E, o) IN IF r.st = "ok" THEN Ok([i \in 1..Len(r.v) |-> r.v[i][2]]) ELSE r

Replace(E, o, ch) ==
    LET fs == Fields(E, o.c)
        rel == SelectSeq(fs, LAMBDA p : p[2].role # "classvar")
        fixed == SelectSeq(rel, LAMBDA p : ~p[2].init)
        kept == SelectSeq(rel, LAMBDA p : p[2].init /\ ~HasPair(ch, p[1]))
    IN IF ~IsDC(E, o.c) THEN Fail
       ELSE IF \E i \in 1..Len(fixed) : HasPair(ch, fixed[i][1]) THEN Fail
       ELSE IF \E i \in 1..Len(kept) : (kept[i][2].role = "initvar" /\ kept[i][2].d[1] = "none") \/ ~Has(E, o, kept[i][1]) THEN Fail
       ELSE New(E, o.c, [pos |-> <<>>, kw |-> ch \o [i \in 1..Len(kept) |-> <<kept[i][1], Get(E, o, kept[i][1])[2]>>]])

(* -- introspection --------------------------------------------------------------- *)
YesNo(b) == IF b THEN "yes" ELSE "no"
FieldList(E, c) ==
    LET fs == RealFields(E, c)
    IN Ok([i \in 1..Len(fs) |-> <<fs[i][1], YesNo(fs[i][2].init), YesNo(fs[i][2].repr), YesNo(fs[i][2].cmp), fs[i][2].hash, YesNo(fs[i][2].kw), fs[i][2].d[1]>>])
MetaList(E, c) == LET fs == RealFields(E, c) IN Ok([i \in 1..Len(fs) |-> <<fs[i][1], fs[i][2].meta>>])
MatchArgs(E, c) ==
    LET w == Owner(E, c, LAMBDA b : ~Opt(E, b, "nomatch"))
        ps == PosParams(E, w)
    IN IF w = "" THEN Error ELSE Ok([i \in 1..Len(ps) |-> ps[i][1]])
Signature(E, c) ==
    LET w == InitOwner(E, c)
        ps == InitParams(E, w)
    IN IF w = "" THEN Ok(<<>>) ELSE Ok([i \in 1..Len(ps) |-> <<ps[i][1], YesNo(ps[i][2].kw)>>])

(* -- databind.json.load of a class whose fields all are arguments ---------------- *)
Load(E, c, kv) ==
    LET ps == InitParams(E, c)
        names == {ps[i][1] : i \in 1..Len(ps)}
    IN IF \E i \in 1..Len(kv) : kv[i][1] \notin names THEN Fail
       ELSE New(E, c, [pos |-> <<>>, kw |-> kv])

(* -- programs: s = objects that exist, <<name, [c, attrs]>> pairs ---------------- *)
Visible(E, o, names) == SelectSeq([i \in 1..Len(names) |-> <<names[i], Get(E, o, names[i])[2]>>], LAMBDA p : Has(E, o, p[1]))
Made(E, s, name, c, r) ==
    IF r.st = "free" THEN [res |-> Unsaid, log |-> <<>>, s |-> DropPair(s, name)]
    ELSE IF r.st # "ok" THEN [res |-> Error, log |-> r.log, s |-> s]
    ELSE LET o == [c |-> c, attrs |-> r.attrs] IN [res |-> Ok(Visible(E, o, E.names)), log |-> r.log, s |-> PutPair(s, name, o)]
Say(s, r) == [res |-> r, log |-> <<>>, s |-> s]
Do(E, s, op) ==
    CASE ("x" \in DOMAIN op /\ ~HasPair(s, op.x)) \/ ("y" \in DOMAIN op /\ ~HasPair(s, op.y)) -> Say(s, Unsaid)
      [] op.op = "class" -> Say(s, IF Refused(E, op.c) THEN Error ELSE Ok(<<>>))
      [] op.op = "new" -> Made(E, s, op.o, op.c, New(E, op.c, op))
      [] op.op = "load" -> Made(E, s, op.o, op.c, Load(E, op.c, op.kw))
      [] op.op = "replace" -> Made(E, s, op.o, GetPair(s, op.x).c, Replace(E, GetPair(s, op.x), op.kw))
      [] op.op = "eq" -> Say(s, Equal(E, GetPair(s, op.x), GetPair(s, op.y), op.x = op.y))
      [] op.op = "hash" -> Say(s, SameHash(E, GetPair(s, op.x), GetPair(s, op.y), op.x = op.y))
      [] op.op \in {"lt", "le", "gt", "ge"} -> Say(s, Less(E, GetPair(s, op.x), GetPair(s, op.y), op.op))
      [] op.op = "repr" -> Say(s, Repr(E, GetPair(s, op.x)))
      [] op.op = "asdict" -> Say(s, AsDict(E, GetPair(s, op.x)))
      [] op.op = "astuple" -> Say(s, AsTuple(E, GetPair(s, op.x)))
      [] op.op = "set" ->
            LET o == GetPair(s, op.x)
            \* CPython: the __setattr__ of a frozen class with slots calls super() with the class that the slots replaced
            IN IF op.n \notin FieldNames(E, o.c) /\ ~(DC(E, o.c) /\ ~Opt(E, o.c, "slots")) /\ \E b \in RangeOf(Mro(E, o.c)) : DC(E, b) /\ Opt(E, b, "frozen") /\ Opt(E, b, "slots") THEN Say(DropPair(s, op.x), Unsaid)
               ELSE IF ~Settable(E, o.c, op.n) THEN Say(s, Error)
               ELSE LET o1 == [o EXCEPT !.attrs = PutPair(@, op.n, op.v)] IN [res |-> Ok(Visible(E, o1, E.names)), log |-> <<>>, s |-> PutPair(s, op.x, o1)]
      [] op.op = "fields" -> Say(s, IF IsDC(E, op.c) THEN FieldList(E, op.c) ELSE Error)
      [] op.op = "meta" -> Say(s, IF IsDC(E, op.c) THEN MetaList(E, op.c) ELSE Error)
      [] op.op = "match" -> Say(s, MatchArgs(E, op.c))
      [] op.op = "sig" -> Say(s, Signature(E, op.c))
      [] op.op = "attr" ->
            LET a == ClassAttr(E, Mro(E, op.c), op.n) IN Say(s, IF a[1] = "none" THEN Error ELSE IF a[1] = "desc" THEN Ok(<<"descriptor">>) ELSE Ok(a[2]))
      [] OTHER -> Say(s, Unsaid)

(* -- C18: what must hold of every construction ------------------------------------ *)
(* omitting an argument without a default is refused before anything runs; otherwise every field that is an argument is set *)
Sound(E, c, a) ==
    LET r == New(E, c, a)
        io == InitOwner(E, c)
        ps == InitParams(E, io)
        fs == SelectSeq(RealFields(E, io), LAMBDA p : p[2].init)
    IN io # "" =>
        /\ r.st = "err" => r.log = <<>>
        /\ r.st = "ok" => \A i \in 1..Len(fs) : HasPair(r.attrs, fs[i][1])
        /\ r.st = "ok" => \A i \in 1..Len(ps) : ps[i][2].d[1] = "none" => Len(a.pos) + Len(a.kw) > 0
=============================================================================
