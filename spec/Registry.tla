------------------------------- MODULE Registry -----------------------------
(* Registries of union members (databind.core.union).  A type is <<"cls",n>>  *)
(* or <<"hint",n>>, a hint of a parametrization of the class n.  A provider   *)
(* is [lazy, t, uid]; uid identifies the function of a deferred member.       *)
(*   static: entries = <<id, provider>> pairs, in order of first registration *)
(*   chain:  parts = names of registries      import: resolves in E.tree      *)
(*   ep:     entries = <<id, type>> pairs of an entry point group             *)
(* seen is the set of <<registry, id, uid>> that have been evaluated since    *)
(* they were registered.                                                      *)
EXTENDS Values

Cls(n)  == <<"cls", n>>
EmptyRegs == [regs |-> <<>>, seen |-> {}]

Denotes(ref, q) == ref = q \/ (ref[1] = "hint" /\ q = Cls(ref[2]))

Res(st, v, s, ev) == [st |-> st, v |-> v, s |-> s, ev |-> ev]

(* -- qualified names of importable classes: a tree of modules and attributes  *)
(* node = [kind, t, kids]; kind in {"module", "class", "value"}                *)
RECURSIVE Walk(_, _)
Walk(kids, path) ==
    IF path = <<>> \/ ~HasPair(kids, Head(path)) THEN <<"none", "">>
    ELSE LET n == GetPair(kids, Head(path))
         IN IF Len(path) = 1 THEN (IF n.kind = "class" THEN Cls(n.t) ELSE <<"none", "">>) ELSE Walk(n.kids, Tail(path))

(* -- evaluation of a member -------------------------------------------------- *)
EvalMember(s, r, id) ==
    LET p == GetPair(GetPair(s.regs, r).entries, id)
        k == <<r, id, p.uid>>
    IN IF p.lazy /\ k \notin s.seen THEN Res("ok", p.t, [s EXCEPT !.seen = @ \cup {k}], <<p.uid>>) ELSE Res("ok", p.t, s, <<>>)

WithEv(r, ev) == [r EXCEPT !.ev = ev \o @]

RECURSIVE ById(_, _, _, _), ByIdParts(_, _, _, _), ByType(_, _, _, _), ByTypeIn(_, _, _, _), ByTypeParts(_, _, _, _), IdsOf(_, _, _)
ById(E, s, r, id) ==
    LET g == GetPair(s.regs, r)
    IN CASE g.kind = "static" -> IF HasPair(g.entries, id) THEN EvalMember(s, r, id) ELSE Res("err", "", s, <<>>)
         [] g.kind = "ep" -> IF HasPair(g.entries, id) THEN Res("ok", GetPair(g.entries, id), s, <<>>) ELSE Res("err", "", s, <<>>)
         [] g.kind = "import" ->
              LET t == IF HasPair(E.split, id) THEN Walk(E.tree, GetPair(E.split, id)) ELSE <<"none", "">>
              IN IF t[1] = "none" THEN Res("err", "", s, <<>>) ELSE Res("ok", t, s, <<>>)
         [] OTHER -> ByIdParts(E, s, g.parts, id)
ByIdParts(E, s, parts, id) ==
    IF parts = <<>> THEN Res("err", "", s, <<>>)
    ELSE LET r == ById(E, s, Head(parts), id)
         IN IF r.st = "ok" THEN r ELSE WithEv(ByIdParts(E, r.s, Tail(parts), id), r.ev)

ByTypeIn(s, r, entries, q) ==
    IF entries = <<>> THEN Res("err", "", s, <<>>)
    ELSE LET m == EvalMember(s, r, Head(entries)[1])
         IN IF Denotes(m.v, q) THEN Res("ok", Head(entries)[1], m.s, m.ev) ELSE WithEv(ByTypeIn(m.s, r, Tail(entries), q), m.ev)
ByType(E, s, r, q) ==
    LET g == GetPair(s.regs, r)
    IN CASE g.kind = "static" -> ByTypeIn(s, r, g.entries, q)
         [] g.kind = "ep" ->
              IF \E i \in 1..Len(g.entries) : g.entries[i][2] = q
              THEN Res("ok", g.entries[IndexOf(g.entries, LAMBDA x : x[2] = q)][1], s, <<>>) ELSE Res("err", "", s, <<>>)
         [] g.kind = "import" -> IF q[1] = "cls" /\ HasPair(E.names, q[2]) THEN Res("ok", GetPair(E.names, q[2]), s, <<>>) ELSE Res("err", "", s, <<>>)
         [] OTHER -> ByTypeParts(E, s, g.parts, q)
ByTypeParts(E, s, parts, q) ==
    IF parts = <<>> THEN Res("err", "", s, <<>>)
    ELSE LET r == ByType(E, s, Head(parts), q)
         IN IF r.st = "ok" THEN r ELSE WithEv(ByTypeParts(E, r.s, Tail(parts), q), r.ev)

RECURSIVE Distinct(_, _)
Distinct(acc, xs) == IF xs = <<>> THEN acc ELSE Distinct(IF Head(xs) \in RangeOf(acc) THEN acc ELSE Append(acc, Head(xs)), Tail(xs))
Firsts(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
(* the IDs, or <<"?">> if the registry cannot list them *)
IdsOf(E, s, r) ==
    LET g == GetPair(s.regs, r)
    IN CASE g.kind \in {"static", "ep"} -> <<"ok", Firsts(g.entries)>>
         [] g.kind = "import" -> <<"ni", <<>>>>
         [] OTHER -> <<"ok", Distinct(<<>>, FlattenSeq_([i \in 1..Len(g.parts) |-> IdsOf(E, s, g.parts[i])[2]]))>>

(* -- operations --------------------------------------------------------------- *)
Forget(seen, r, id) == {k \in seen : ~(k[1] = r /\ k[2] = id)}
Register(s, r, id, p) ==
    [s EXCEPT !.regs = PutPair(@, r, [GetPair(@, r) EXCEPT !.entries = PutPair(@, id, p)]), !.seen = Forget(@, r, id)]
Remove(s, r, id) ==
    [s EXCEPT !.regs = PutPair(@, r, [GetPair(@, r) EXCEPT !.entries = DropPair(@, id)]), !.seen = Forget(@, r, id)]

(* the outcome of an operation, with the state after it *)
Do(E, s, op) ==
    CASE op.op = "new" -> Res("ok", "", [s EXCEPT !.regs = PutPair(@, op.r, op.g)], <<>>)
      [] op.op = "reg" -> Res("ok", "", Register(s, op.r, op.id, op.p), <<>>)
      [] op.op = "del" -> IF HasPair(GetPair(s.regs, op.r).entries, op.id) THEN Res("ok", "", Remove(s, op.r, op.id), <<>>) ELSE Res("err", "", s, <<>>)
      [] op.op = "byid" -> ById(E, s, op.r, op.id)
      [] op.op = "byty" -> ByType(E, s, op.r, op.t)
      [] OTHER -> LET x == IdsOf(E, s, op.r) IN Res(x[1], x[2], s, <<>>)

(* -- what the property says about any state --------------------------------- *)
(* a lookup by ID answers with what was registered last, a lookup by type with  *)
(* the first ID that denotes the type, and the two agree                        *)
Consistent(E, s, ids, types) ==
    \A k \in 1..Len(s.regs) :
        LET r == s.regs[k][1]
            list == IdsOf(E, s, r)
        IN /\ list[1] = "ok" => \A i, j \in 1..Len(list[2]) : i # j => list[2][i] # list[2][j]
           /\ list[1] = "ok" => \A id \in ids : (id \in RangeOf(list[2])) <=> ById(E, s, r, id).st = "ok"
           /\ \A t \in types :
                LET a == ByType(E, s, r, t)
                IN IF a.st = "ok" THEN s.regs[k][2].kind = "chain" \/ Denotes(ById(E, s, r, a.v).v, t)
                   ELSE list[1] = "ok" => \A id \in RangeOf(list[2]) : s.regs[k][2].kind = "chain" \/ ~Denotes(ById(E, s, r, id).v, t)
=============================================================================
