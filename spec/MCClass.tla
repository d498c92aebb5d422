-------------------------------- MODULE MCClass --------------------------------
(* Bounded model of class hierarchies: up to N classes, each with or without a  *)
(* type parameter, any own fields of the given forms and any bases among the    *)
(* classes before it, with any type arguments.  The method resolution order is  *)
(* computed here (C3), as are the fields, and every class is loaded from         *)
(* payloads whose values are right or wrong for one field.                       *)
EXTENDS Introspect, Json, IOUtils
CONSTANTS N, Emit
U == JsonDeserialize(IOEnv.VERIF_UNIVERSE)
E0 == U.env
Id(i) == <<"K1", "K2", "K3", "K4">>[i]
IntT == <<"plain", "int", <<>>>>
StrT == <<"plain", "str", <<>>>>
T == <<"var", "T", <<>>>>
ListT(t) == <<"coll", "list", <<t>>>>

VARIABLES h, t, c, r      \* h: the classes, as [kind, gen, own (number of the form), bases]
vars == <<h, t, c, r>>

(* -- the method resolution order: C3 -------------------------------------------*)
RECURSIVE Merge(_)
Heads(ls) == {Head(ls[i]) : i \in {j \in 1..Len(ls) : ls[j] # <<>>}}
InTail(x, ls) == \E i \in 1..Len(ls) : ls[i] # <<>> /\ x \in RangeOf(Tail(ls[i]))
Fail == <<0>>      \* no class has this number
Merge(ls0) ==
    LET ls == SelectSeq(ls0, LAMBDA q : q # <<>>)
        good == SelectSeq(ls, LAMBDA q : ~InTail(Head(q), ls))
    IN IF ls = <<>> THEN <<>>
       ELSE IF good = <<>> THEN Fail
       ELSE LET x == Head(good[1])
            IN <<x>> \o Merge([i \in 1..Len(ls) |-> IF Head(ls[i]) = x THEN Tail(ls[i]) ELSE ls[i]])
RECURSIVE C3(_, _)
C3(hs, i) ==
    LET bs == [k \in 1..Len(hs[i].bases) |-> hs[i].bases[k][1]]
    IN <<i>> \o Merge([k \in 1..Len(bs) |-> C3(hs, bs[k])] \o <<bs>>)
Linear(hs, i) == \A x \in RangeOf(C3(hs, i)) : x \in 1..Len(hs)

(* -- hierarchies ------------------------------------------------------------------*)
OwnOf(k) == U.forms[k]
Generic(k) == U.generic[k]      \* whether the form needs the type parameter
Args(gen) == IF gen THEN <<T, ListT(T), IntT>> ELSE <<IntT, StrT>>
(* bases with type arguments: single ones and pairs *)
BasesFor(hs, gen) ==
    LET one(i) == IF hs[i].gen THEN [k \in 1..Len(Args(gen)) |-> <<i, <<Args(gen)[k]>>>>] ELSE << <<i, <<>>>> >>
        singles == FlattenSeq_([i \in 1..Len(hs) |-> one(i)])
    IN << <<>> >> \o [k \in 1..Len(singles) |-> <<singles[k]>>]
       \o IF ~U.pairs THEN <<>> ELSE
          FlattenSeq_([a \in 1..Len(singles) |->
             LET others == SelectSeq(singles, LAMBDA b : b[1] # singles[a][1]) IN [b \in 1..Len(others) |-> <<singles[a], others[b]>>]])
EnvOf_(hs) ==
    [E0 EXCEPT !.cls = [x \in DOMAIN E0.cls |->
        IF \E i \in 1..Len(hs) : Id(i) = x
        THEN LET i == CHOOSE j \in 1..Len(hs) : Id(j) = x
             IN [E0.cls[x] EXCEPT !.kind = IF hs[i].kind = "none" THEN "dc" ELSE IF hs[i].kind = "tdp" THEN "td" ELSE hs[i].kind, !.own = OwnOf(hs[i].own), !.params = IF hs[i].gen THEN <<"T">> ELSE <<>>, !.total = hs[i].kind # "tdp",
                                  !.mro = IF hs[i].kind = "dc" \/ hs[i].kind = "none" THEN [k \in 1..Len(C3(hs, i)) |-> Id(C3(hs, i)[k])] ELSE <<x>>,
                                  !.bases = [k \in 1..Len(hs[i].bases) |-> <<"cls", Id(hs[i].bases[k][1]), hs[i].bases[k][2]>>]]
        ELSE E0.cls[x]]]
(* a class reached over several paths of bases must be the same generic type on all of them *)
RECURSIVE Ancestors(_, _)
Ancestors(En, u) == LET pm == ParamMap(En, u)
                        bs == {Subst(b, pm) : b \in RangeOf(En.cls[u[2]].bases)}
                    IN bs \cup UNION {Ancestors(En, b) : b \in bs}
Consistent(hs, i) == LET as == Ancestors(EnvOf_(hs), <<"cls", Id(i), IF hs[i].gen THEN <<T>> ELSE <<>>>>)
                     IN \A a, b \in as : a[2] = b[2] => a = b
PyOrder(hs, i) ==    \* dataclass fields without a default do not follow fields with one
    hs[i].kind = "dc" =>
    LET En == EnvOf_(hs)
        names == DCF(En, Id(i))
        has(k) == OwnField(En, names[k][2], names[k][1]).dk # "no"
        init(k) == OwnField(En, names[k][2], names[k][1]).init
    IN \A a, b \in 1..Len(names) : a < b /\ has(a) /\ init(a) /\ init(b) => has(b)
Fits(hs) == LET i == Len(hs) IN
    /\ hs[i].kind \in {"td", "tdp"} => \A k \in 1..Len(hs[i].bases) : hs[hs[i].bases[k][1]].kind \in {"td", "tdp"}
    /\ hs[i].kind \in {"dc", "none"} => \A k \in 1..Len(hs[i].bases) : hs[hs[i].bases[k][1]].kind \in {"dc", "none"}
    /\ hs[i].kind = "none" => Len(hs[i].bases) = 1 /\ OwnOf(hs[i].own) = <<>>
    /\ hs[i].kind \in {"td", "tdp"} => \A f \in RangeOf(OwnOf(hs[i].own)) : f.dk = "no" /\ f.init
    /\ Generic(hs[i].own) => hs[i].gen
    /\ Linear(hs, i) /\ Consistent(hs, i) /\ PyOrder(hs, i)
    \* a parameter that occurs nowhere
    /\ hs[i].gen /\ hs[i].kind \notin {"td", "tdp"} => Generic(hs[i].own) \/ \E k \in 1..Len(hs[i].bases) : hs[i].bases[k][2] \in {<<T>>, <<ListT(T)>>}
    /\ hs[i].kind \in {"td", "tdp"} => ~hs[i].gen

(* -- payloads ---------------------------------------------------------------------*)
RECURSIVE Good(_)
Good(x) == LET u == Un(x) IN CASE u = IntT -> Int("1") [] u = StrT -> Str("s") [] u[1] = "coll" -> ListV(<<Good(u[3][1])>>) [] u[1] = "union" -> Good(u[3][1]) [] OTHER -> None
Tried == <<Int("1"), Str("s"), ListV(<<Int("1")>>), ListV(<<Str("s")>>), ListV(<<ListV(<<Int("1")>>)>>)>>
C0(dir, v, x) == Ctx(dir, v, x, <<>>, <<NoLayer>>, JsonMapper)
Payloads(En, x) ==
    LET fs == SchemaOf(En, x)
        full == [i \in 1..Len(fs) |-> <<Str(fs[i].n), Good(fs[i].t)>>]
    IN {DictV(full), DictV(Append(full, <<Str("e"), Int("1")>>))}      \* e: a field that is no argument of the constructor, or none
       \cup {DictV(DropPair(full, Str(fs[i].n))) : i \in 1..Len(fs)}
       \cup {DictV([full EXCEPT ![i][2] = w]) : i \in 1..Len(fs), w \in RangeOf(Tried)}

Init == h = <<>> /\ t = <<>> /\ c = <<>> /\ r = <<>>
Declare == /\ t = <<>> /\ Len(h) < N
           /\ \E k \in RangeOf(U.kinds), g \in {TRUE, FALSE}, o \in 1..Len(U.forms) :
              \E bs \in RangeOf(BasesFor(h, g)) :
              \E hs \in {Append(h, [kind |-> k, gen |-> g, own |-> o, bases |-> bs])} :
                 /\ Fits(hs)
                 /\ (Len(h) > 0 => bs # <<>>)            \* classes of their own are no matter here
                 /\ h' = hs
           /\ UNCHANGED <<t, c, r>>
Probe == /\ t = <<>> /\ h # <<>>
         /\ \E En \in {EnvOf_(h)} :
            \E x \in {<<"cls", Id(Len(h)), a>> : a \in IF h[Len(h)].gen THEN {<<IntT>>, <<StrT>>} ELSE {<<>>}} :
            \E v \in Payloads(En, x) : \E R \in {Conv(En, C0("load", v, x))} :
               /\ t' = x
               /\ c' = v
               /\ r' = R
               /\ Emit => PrintT(<<"CASE", ToJson(<<h, x, v, R>>)>>)
         /\ UNCHANGED h
Next == Declare \/ Probe
Spec == Init /\ [][Next]_vars

(* -- what the property says ---------------------------------------------------------*)
(* the order is monotonic and respects the order of bases *)
MroSound == \A i \in 1..Len(h) : LET m == C3(h, i) IN
              /\ Cardinality(RangeOf(m)) = Len(m)
              /\ \A k \in 1..Len(h[i].bases) : LET b == C3(h, h[i].bases[k][1]) IN
                    \A x, y \in 1..Len(b) : x < y => IndexOf(m, LAMBDA z : z = b[x]) < IndexOf(m, LAMBDA z : z = b[y])
              /\ \A x, y \in 1..Len(h[i].bases) : x < y => IndexOf(m, LAMBDA z : z = h[i].bases[x][1]) < IndexOf(m, LAMBDA z : z = h[i].bases[y][1])
(* the type of a field: the type that its declaration has, with the parameters that the class was given on the way down *)
Paths(En, u, id) == {a \in Ancestors(En, u) \cup {u} : a[2] = id}
Done == t # <<>>
Fields == Done => LET En == EnvOf_(h)
                      fs == SchemaOf(En, t)
                      dc == h[Len(h)].kind \in {"dc", "none"}
                      prov == DCF(En, t[2])
                  IN /\ Cardinality(FieldNames(fs)) = Len(fs)
                     /\ \A i \in 1..Len(fs) : dc =>
                          LET owner == GetPair(prov, fs[i].n)
                              u == CHOOSE a \in Paths(En, t, owner) : TRUE
                          IN fs[i].t = Subst(OwnField(En, owner, fs[i].n).t, ParamMap(En, u)) /\ OwnField(En, owner, fs[i].n).init
                     \* a class's own declaration wins over those of its bases
                     /\ \A f \in RangeOf(OwnOf(h[Len(h)].own)) : f.init => HasField(fs, f.n) /\ FieldOf(fs, f.n).t = Subst(f.t, ParamMap(En, t))
                     /\ dc => FieldNames(fs) = {prov[i][1] : i \in {j \in 1..Len(prov) : OwnField(En, prov[j][2], prov[j][1]).init}}
                     /\ ~dc => FieldNames(fs) = UNION {{f.n : f \in RangeOf(En.cls[a[2]].own)} : a \in Ancestors(En, t) \cup {t}}
(* what is accepted is a correctly typed instance *)
Sound == Done /\ r.st = "ok" => HasType(EnvOf_(h), r.v, t)      \* a default is what it is: one inherited by a redeclared field may be of the old type
(* and the payload written in terms of the fields is accepted *)
Accepted == Done /\ c = DictV([i \in 1..Len(SchemaOf(EnvOf_(h), t)) |-> <<Str(SchemaOf(EnvOf_(h), t)[i].n), Good(SchemaOf(EnvOf_(h), t)[i].t)>>]) => r.st = "ok"

(* -- introspection: the schema of every class ---------------------------------------*)
Describe == /\ t = <<>> /\ h # <<>>
            /\ \E En \in {EnvOf_(h)} :
               \E x \in {<<"cls", Id(Len(h)), a>> : a \in IF h[Len(h)].gen THEN {<<IntT>>, <<StrT>>, <<>>} ELSE {<<>>}} :
               \E y \in {SchemaSaid(En, x)} :
                  /\ t' = x
                  /\ r' = y
                  /\ Emit => PrintT(<<"CASE", ToJson(<<h, x, y>>)>>)
            /\ UNCHANGED <<h, c>>
ISpec == Init /\ [][Declare \/ Describe]_vars
Ground(x) == ~(x[1] = "var") /\ (x[1] # "ann" => \A i \in 1..Len(x[3]) : x[3][i][1] # "var")
(* with all parameters given, no field of a class refers to one *)
SaysGround == Done /\ Len(t[3]) = Len(EnvOf_(h).cls[t[2]].params) => \A f \in r.fields : Ground(f.t)
=============================================================================
