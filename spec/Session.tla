------------------------------- MODULE Session ------------------------------
(* Programs: settings objects, mappers, modules and class decorations evolve  *)
(* by operations; a conversion looks at their current state.                  *)
EXTENDS Props

EmptyState == [set |-> <<>>, map |-> <<>>, mod |-> <<>>, cls |-> <<>>]

NewSettings(parent, glob) == [parent |-> parent, loc |-> <<>>, prov |-> <<>>, glob |-> glob]

RECURSIVE LayersOf(_, _)
LayersOf(s, sid) ==
    LET r == GetPair(s.set, sid)
    IN <<[loc |-> r.loc, prov |-> r.prov, glob |-> r.glob]>> \o (IF r.parent = "" THEN <<>> ELSE LayersOf(s, r.parent))

RECURSIVE ItemsResolved(_, _)
ItemsResolved(s, items) ==
    [i \in 1..Len(items) |-> IF items[i][1] = "modref" THEN <<"mod", ItemsResolved(s, GetPair(s.mod, items[i][2]))>> ELSE items[i]]

(* the environment with the class settings that were added *)
EnvOf(E, s) ==
    IF s.cls = <<>> THEN E
    ELSE [E EXCEPT !.cls = [id \in DOMAIN E.cls |->
            [E.cls[id] EXCEPT !.settings = @ \o LET mine == SelectSeq(s.cls, LAMBDA x : x[1] = id)
                                                 IN [i \in 1..Len(mine) |-> mine[i][2]]]]]

ContextOf(s, op, dir, v) ==
    LET base == IF op.m = "" THEN <<NoLayer>> ELSE LayersOf(s, GetPair(s.map, op.m).set)
        S == CASE op["with"][1] = "list" -> <<[NoLayer EXCEPT !.glob = op["with"][2]]>> \o base
               [] op["with"][1] = "prov" -> LayersOf(s, op["with"][2])
               [] OTHER -> base
        M == IF op.m = "" THEN JsonMapper ELSE ItemsResolved(s, GetPair(s.map, op.m).conv)
    IN Ctx(dir, v, op.t, <<>>, S, M)

Upd(s, sid, r) == [s EXCEPT !.set = PutPair(@, sid, r)]
Insert(items, it, first) == IF first THEN <<it>> \o items ELSE Append(items, it)

Apply(s, op) ==
    CASE op.op = "settings" -> Upd(s, op.s, NewSettings(op.parent, op.glob))
      [] op.op = "copysettings" -> Upd(s, op.s, GetPair(s.set, op["from"]))
      [] op.op = "addglobal" -> LET r == GetPair(s.set, op.s) IN Upd(s, op.s, [r EXCEPT !.glob = Append(@, op.x)])
      [] op.op = "addlocal" -> LET r == GetPair(s.set, op.s) IN Upd(s, op.s, [r EXCEPT !.loc = Append(@, <<op.key, op.x>>)])
      [] op.op = "addcond" -> LET r == GetPair(s.set, op.s) IN Upd(s, op.s, [r EXCEPT !.prov = Append(@, <<op.pred, op.x>>)])
      [] op.op = "addprov" -> LET r == GetPair(s.set, op.s)
                              IN Upd(s, op.s, [r EXCEPT !.prov = @ \o [i \in 1..Len(op.xs) |-> <<op.pred, op.xs[i]>>]])
      [] op.op = "mapper" ->
            LET s1 == IF HasPair(s.set, op.s) THEN s ELSE Upd(s, op.s, NewSettings("", <<>>))
            IN [s1 EXCEPT !.map = PutPair(@, op.m, [set |-> op.s, conv |-> IF op.json THEN JsonMapper ELSE <<>>])]
      [] op.op = "copymapper" ->
            LET r == GetPair(s.map, op["from"])
                s1 == Upd(s, op.s, GetPair(s.set, r.set))
            IN [s1 EXCEPT !.map = PutPair(@, op.m, [r EXCEPT !.set = op.s])]
      [] op.op = "module" -> [s EXCEPT !.mod = PutPair(@, op.k, <<>>)]
      [] op.op = "register" ->
            IF HasPair(s.mod, op.k) THEN [s EXCEPT !.mod = PutPair(@, op.k, Insert(GetPair(@, op.k), op.item, op.first))]
            ELSE LET r == GetPair(s.map, op.k) IN [s EXCEPT !.map = PutPair(@, op.k, [r EXCEPT !.conv = Insert(@, op.item, op.first)])]
      [] op.op = "decorate" -> [s EXCEPT !.cls = Append(@, <<op.cls, op.x>>)]
      [] OTHER -> s                                   \* conversions change nothing
=============================================================================
