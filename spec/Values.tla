------------------------------- MODULE Values -------------------------------
(* Python values as seen by databind, as triples <<tag, token, kids>>.  The   *)
(* tag comes first, so that TLC can compare any two values.                   *)
(*   <<"none","",<<>>>>   <<"bool","0"|"1",..>>   <<"int",dec,..>>             *)
(*   <<"float",t,..>>     t an exact rational "p" or "p/q", "-0","inf","nan"   *)
(*   <<"str",s,..>> <<"bytes",hex,..>> <<"dec",s,..>> <<"date"|"time"|         *)
(*   "datetime",iso,..>> <<"uuid",s,..>> <<"path"|"purepath",s,..>>            *)
(*   <<"duration",s,..>> <<"enum",cls,<<<<"str",member,<<>>>>>>>>              *)
(*   <<"seq",kind,items>> <<"set",kind,items>> <<"map",kind,<<key,value>>..>>  *)
(*   <<"obj",cls,<<name,value>> pairs>>   <<"other",what,<<>>>>                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

V(tag, tok)      == <<tag, tok, <<>>>>
None             == V("none", "")
Str(s)           == V("str", s)
Int(s)           == V("int", s)
Float(s)         == V("float", s)
Bool(b)          == V("bool", IF b THEN "1" ELSE "0")
ListV(items)     == <<"seq", "list", items>>
SeqV(kind, xs)   == <<"seq", kind, xs>>
SetV(kind, xs)   == <<"set", kind, xs>>
MapV(kind, ps)   == <<"map", kind, ps>>
DictV(ps)        == <<"map", "dict", ps>>
ObjV(cls, ps)    == <<"obj", cls, ps>>
EnumV(cls, m)    == <<"enum", cls, <<Str(m)>>>>

Tag(v)  == v[1]
Tok(v)  == v[2]
Kids(v) == v[3]

NumTags  == {"bool", "int", "float"}
NumTok(v) == IF Tok(v) = "-0" THEN "0" ELSE Tok(v)

IsMap(v) == Tag(v) = "map"
IsSeq(v) == Tag(v) = "seq"

(* -- sequences of pairs as ordered dictionaries -------------------------- *)
RangeOf(s)      == {s[i] : i \in 1..Len(s)}
PairKeys(ps)    == {ps[i][1] : i \in 1..Len(ps)}
HasPair(ps, k)  == \E i \in 1..Len(ps) : ps[i][1] = k
GetPair(ps, k)  == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]
PutPair(ps, k, v) ==
    IF HasPair(ps, k) THEN [i \in 1..Len(ps) |-> IF ps[i][1] = k THEN <<k, v>> ELSE ps[i]]
    ELSE Append(ps, <<k, v>>)
DropPair(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)

RECURSIVE FoldPairs(_, _)
FoldPairs(acc, ps) == IF ps = <<>> THEN acc ELSE FoldPairs(PutPair(acc, Head(ps)[1], Head(ps)[2]), Tail(ps))

RECURSIVE FlattenSeq_(_)
FlattenSeq_(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq_(Tail(ss))

IndexOf(s, P(_)) == CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])

(* -- Python's == ---------------------------------------------------------- *)
(* types whose instances compare equal *)
EqTag(tag) == CASE tag = "myuuid" -> "uuid" [] tag = "mydecimal" -> "decimal" [] tag \in {"purepath", "mypath"} -> "path" [] OTHER -> tag
RECURSIVE PyEq(_, _)
PyEq(a, b) ==
    CASE Tag(a) \in NumTags /\ Tag(b) \in NumTags -> Tok(a) # "nan" /\ NumTok(a) = NumTok(b)
      [] EqTag(Tag(a)) # EqTag(Tag(b)) -> FALSE
      [] Tag(a) = "set" ->
            /\ Len(Kids(a)) = Len(Kids(b))
            /\ \A i \in 1..Len(Kids(a)) : \E j \in 1..Len(Kids(b)) : PyEq(Kids(a)[i], Kids(b)[j])
      [] Tag(a) = "seq" ->
            /\ Tok(a) = Tok(b)
            /\ Len(Kids(a)) = Len(Kids(b))
            /\ \A i \in 1..Len(Kids(a)) : PyEq(Kids(a)[i], Kids(b)[i])
      [] Tag(a) = "map" ->
            /\ Len(Kids(a)) = Len(Kids(b))
            /\ \A i \in 1..Len(Kids(a)) : \E j \in 1..Len(Kids(b)) :
                  PyEq(Kids(a)[i][1], Kids(b)[j][1]) /\ PyEq(Kids(a)[i][2], Kids(b)[j][2])
      [] Tag(a) = "obj" ->
            /\ Tok(a) = Tok(b)
            /\ Len(Kids(a)) = Len(Kids(b))
            /\ \A i \in 1..Len(Kids(a)) : Kids(a)[i][1] = Kids(b)[i][1] /\ PyEq(Kids(a)[i][2], Kids(b)[i][2])
      [] OTHER -> Tok(a) = Tok(b) /\ Kids(a) = Kids(b)

HasPyKey(ps, k) == \E i \in 1..Len(ps) : PyEq(ps[i][1], k)
PutPy(ps, k, v) ==
    IF HasPyKey(ps, k)
    THEN [i \in 1..Len(ps) |-> IF PyEq(ps[i][1], k) THEN <<ps[i][1], v>> ELSE ps[i]]
    ELSE Append(ps, <<k, v>>)
RECURSIVE DictOf(_, _)
DictOf(acc, ps) == IF ps = <<>> THEN acc ELSE DictOf(PutPy(acc, Head(ps)[1], Head(ps)[2]), Tail(ps))
RECURSIVE Dedup(_, _)
Dedup(acc, xs) ==
    IF xs = <<>> THEN acc
    ELSE Dedup(IF \E i \in 1..Len(acc) : PyEq(acc[i], Head(xs)) THEN acc ELSE Append(acc, Head(xs)), Tail(xs))

(* -- canonical form: sets and dictionaries without an order ---------------- *)
RECURSIVE Norm(_)
Norm(v) ==
    CASE Tag(v) = "set" -> <<"set", Tok(v), {Norm(Kids(v)[i]) : i \in 1..Len(Kids(v))}>>
      [] Tag(v) = "seq" -> <<"seq", Tok(v), [i \in 1..Len(Kids(v)) |-> Norm(Kids(v)[i])]>>
      [] Tag(v) = "map" -> <<"map", Tok(v), {<<Norm(Kids(v)[i][1]), Norm(Kids(v)[i][2])>> : i \in 1..Len(Kids(v))}>>
      [] Tag(v) = "obj" -> <<"obj", Tok(v), {<<Kids(v)[i][1], Norm(Kids(v)[i][2])>> : i \in 1..Len(Kids(v))}>>
      [] OTHER -> v

SameValue(a, b) == Norm(a) = Norm(b)

(* the same, but for the order of the items of lists *)
RECURSIVE NormBag(_)
NormBag(v) ==
    CASE Tag(v) = "seq" -> LET xs == [i \in 1..Len(Kids(v)) |-> NormBag(Kids(v)[i])]
                           IN <<"seq", Tok(v), {<<x, Cardinality({i \in 1..Len(xs) : xs[i] = x})>> : x \in RangeOf(xs)}>>
      [] Tag(v) = "map" -> <<"map", Tok(v), {<<Norm(Kids(v)[i][1]), NormBag(Kids(v)[i][2])>> : i \in 1..Len(Kids(v))}>>
      [] OTHER -> Norm(v)
RECURSIVE HasSet(_)
HasSet(v) ==
    CASE Tag(v) = "set" -> TRUE
      [] Tag(v) = "seq" -> \E i \in 1..Len(Kids(v)) : HasSet(Kids(v)[i])
      [] Tag(v) \in {"map", "obj"} -> \E i \in 1..Len(Kids(v)) : HasSet(Kids(v)[i][2])
      [] OTHER -> FALSE

(* -- JSON data --------------------------------------------------------------*)
RECURSIVE IsJson(_)
IsJson(v) ==
    CASE Tag(v) \in {"none", "bool", "int", "float", "str"} -> TRUE
      [] Tag(v) = "seq" -> Tok(v) = "list" /\ \A i \in 1..Len(Kids(v)) : IsJson(Kids(v)[i])
      [] Tag(v) = "map" -> Tok(v) = "dict" /\ \A i \in 1..Len(Kids(v)) : IsJson(Kids(v)[i][1]) /\ IsJson(Kids(v)[i][2])
      [] OTHER -> FALSE
=============================================================================
