-------------------------------- MODULE MCHist --------------------------------
(* Bounded model of histories: every sequence of up to Depth of the given     *)
(* operations on settings, mappers, modules and classes, each at most Times   *)
(* times.  After every operation the results of all probes (conversions) are  *)
(* looked at: what changed, and what did not.                                 *)
EXTENDS Session, Json, IOUtils
CONSTANTS Depth, Times, Emit
U == JsonDeserialize(IOEnv.VERIF_UNIVERSE)
E == U.env
Ops == U.ops
Probes == U.probes

VARIABLES s, hist, out
vars == <<s, hist, out>>

(* -- which operations make sense ----------------------------------------------------*)
RECURSIVE Below(_, _)
Below(st, k) ==     \* the modules within a module or mapper
    LET items == IF HasPair(st.mod, k) THEN GetPair(st.mod, k) ELSE GetPair(st.map, k).conv
        subs == {items[i][2] : i \in {j \in 1..Len(items) : items[j][1] = "modref"}}
    IN {k} \cup UNION {Below(st, x) : x \in subs}
Known(st, k) == HasPair(st.mod, k) \/ HasPair(st.map, k)
Live(st, p) == (p.m = "" \/ HasPair(st.map, p.m)) /\ (p["with"][1] = "prov" => HasPair(st.set, p["with"][2]))
Possible(st, op) ==
    CASE op.op = "settings" -> ~HasPair(st.set, op.s) /\ (op.parent = "" \/ HasPair(st.set, op.parent))
      [] op.op = "copysettings" -> ~HasPair(st.set, op.s) /\ HasPair(st.set, op["from"])
      [] op.op \in {"addglobal", "addlocal", "addcond", "addprov"} -> HasPair(st.set, op.s)
      [] op.op = "mapper" -> ~HasPair(st.map, op.m)
      [] op.op = "copymapper" -> HasPair(st.map, op["from"]) /\ ~HasPair(st.map, op.m) /\ ~HasPair(st.set, op.s)
      [] op.op = "module" -> ~HasPair(st.mod, op.k)
      [] op.op = "register" -> /\ Known(st, op.k)
                               /\ op.item[1] = "modref" => HasPair(st.mod, op.item[2]) /\ op.k \notin Below(st, op.item[2])
      [] op.op = "probe" -> Live(st, Probes[op.i])
      [] OTHER -> TRUE

(* -- behaviours ---------------------------------------------------------------------*)
RECURSIVE ApplyAll(_, _)
ApplyAll(st, ops) == IF ops = <<>> THEN st ELSE ApplyAll(Apply(st, Head(ops)), Tail(ops))
Dead == [st |-> "dead"]
Results(st) == [i \in 1..Len(Probes) |-> IF Live(st, Probes[i]) THEN Conv(EnvOf(E, st), ContextOf(st, Probes[i], Probes[i].dir, Probes[i].v)) ELSE Dead]
Start == ApplyAll(EmptyState, U.prelude)
Init == s = Start /\ hist = <<>> /\ out = Results(Start) /\ (Emit => PrintT(<<"CASE", ToJson(<<<<>>, out>>)>>))
Uses(k) == Cardinality({i \in 1..Len(hist) : hist[i] = k})
Next == /\ Len(hist) < Depth
        /\ \E k \in 1..Len(Ops) :
             /\ Uses(k) < Times
             /\ Possible(s, Ops[k])
             /\ \E t \in {Apply(s, Ops[k])} : \E R \in {Results(t)} :
                  /\ s' = t
                  /\ out' = R
                  /\ hist' = Append(hist, k)
                  \* only what changed is printed
                  /\ Emit => PrintT(<<"CASE", ToJson(<<Append(hist, k), [i \in 1..Len(R) |-> IF R[i] = out[i] THEN 0 ELSE R[i]]>>)>>)
Spec == Init /\ [][Next]_vars

(* -- what the properties say ----------------------------------------------------------*)
RECURSIVE Chain(_, _)
Chain(st, sid) == {sid} \cup (IF GetPair(st.set, sid).parent = "" THEN {} ELSE Chain(st, GetPair(st.set, sid).parent))
RECURSIVE ClassesIn(_)
ClassesIn(t) == IF t[1] = "ann" THEN ClassesIn(Un(t)) ELSE (IF t[1] = "cls" THEN {t[2]} \cup UNION {ClassesIn(E.cls[t[2]].own[i].t) : i \in 1..Len(E.cls[t[2]].own)} ELSE {}) \cup
                    IF t[1] = "lit" THEN {} ELSE UNION {ClassesIn(t[3][i]) : i \in 1..Len(t[3])}
(* all objects that a probe may depend on *)
Reach(st, p) == (IF p.m = "" THEN {} ELSE Below(st, p.m) \cup Chain(st, GetPair(st.map, p.m).set))
                \cup (IF p["with"][1] = "prov" THEN Chain(st, p["with"][2]) ELSE {}) \cup ClassesIn(p.t)
Touches(op) == CASE op.op \in {"addglobal", "addlocal", "addcond", "addprov"} -> {op.s}
                 [] op.op = "register" -> {op.k}
                 [] op.op = "decorate" -> {op.cls}
                 [] OTHER -> {}
Last == Ops[hist'[Len(hist')]]
(* C21, C22, C11: an operation has no effect on what does not refer to the object it is about; conversions have no effect *)
Local == [][\A i \in 1..Len(Probes) : Live(s, Probes[i]) /\ Touches(Last) \cap Reach(s, Probes[i]) = {} => out'[i] = out[i]]_vars
(* C21: a copy is like the original *)
CopyAlike == [][Last.op = "copymapper" => \A i, j \in 1..Len(Probes) :
                  Probes[i].m = Last["from"] /\ Probes[j].m = Last.m /\ [Probes[i] EXCEPT !.m = ""] = [Probes[j] EXCEPT !.m = ""] => out'[j] = out'[i]]_vars

(* C11: the setting in effect is one of the highest priority, and among these of the innermost source *)
Cx(i) == ContextOf(s, Probes[i], Probes[i].dir, Probes[i].v)
Candidates(En, c, kind) ==
    OfKind(AnnS(c.t) \o ClassSettings(En, c.t) \o FlattenSeq_([n \in 1..Len(c.S) |->
        LET L == c.S[n]
            loc == SelectSeq(L.loc, LAMBDA x : TypeKey(Un(c.t)) # "" /\ x[1] = TypeKey(Un(c.t)))
            prv == SelectSeq(L.prov, LAMBDA x : Pred(En, x[1], c))
        IN [k \in 1..Len(loc) |-> loc[k][2]] \o [k \in 1..Len(prv) |-> prv[k][2]] \o L.glob]), kind)
Effective == \A i \in 1..Len(Probes) : Live(s, Probes[i]) /\ Probes[i].kind = "tag" =>
    LET cs == Candidates(EnvOf(E, s), Cx(i), "Tag")
    IN IF cs = <<>> THEN out[i].v = Str("-")
       ELSE \E k \in 1..Len(cs) : /\ out[i].v = Str(cs[k][3][1])
                                  /\ \A j \in 1..Len(cs) : cs[j][2] < cs[k][2] \/ (cs[j][2] = cs[k][2] /\ j >= k)

(* C14, C15: the first converter in order that does not decline *)
FirstWins == \A i \in 1..Len(Probes) : Live(s, Probes[i]) =>
    LET c == Cx(i)
        ms == FlattenM(c.M)
        rs == [n \in 1..Len(ms) |-> Try(EnvOf(E, s), c, ms[n])]
        final == {n \in 1..Len(ms) : rs[n].st \notin {"skip", "err"}}
        errs == {n \in 1..Len(ms) : rs[n].st = "err"}
    IN IF final # {} THEN LET n == CHOOSE x \in final : \A y \in final : x <= y IN out[i].st = rs[n].st /\ out[i].v = rs[n].v
       ELSE out[i].st = "err" /\ (Cardinality(errs) = 1 => out[i].p = rs[CHOOSE n \in errs : TRUE].p) /\ (out[i].nm <=> Cardinality(errs) # 1 \/ rs[CHOOSE n \in errs : TRUE].nm)
(* C14: those registered first come before, in reverse order; the others after *)
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
Registered(k, first) == LET mine == SelectSeq(U.prelude \o [i \in 1..Len(hist) |-> Ops[hist[i]]], LAMBDA op : op.op = "register" /\ op.k = k /\ op.first = first)
                        IN [i \in 1..Len(mine) |-> mine[i].item]
Copies == {Ops[i].m : i \in {j \in 1..Len(Ops) : Ops[j].op = "copymapper"}}
Order == /\ \A i \in 1..Len(s.mod) : s.mod[i][2] = Rev(Registered(s.mod[i][1], TRUE)) \o Registered(s.mod[i][1], FALSE)
         /\ \A i \in 1..Len(s.map) : s.map[i][1] \notin Copies =>
              \E base \in {<<>>, JsonMapper} : s.map[i][2].conv = Rev(Registered(s.map[i][1], TRUE)) \o base \o Registered(s.map[i][1], FALSE)
=============================================================================
