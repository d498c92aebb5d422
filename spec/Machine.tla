-------------------------------- MODULE Machine -------------------------------
(* A conversion in small steps: a process with a stack of frames, which goes   *)
(* from one call of user code to the next.  What processes share is what their *)
(* contexts refer to: the environment E.  MCThreads shows that in any          *)
(* interleaving each process ends with the outcome Conv gives it alone.        *)
EXTENDS Session

(* k: what the frame does.  "disp": consults the converters ms about c (errs   *)
(* are the errors so far); the others convert the parts of c one by one:       *)
(* "items" cs -> got, "pairs" cs (value, key, value, ..) -> got, "any" of ts,  *)
(* "one" member, "pass" (what the part yields), "wrap" (a custom converter     *)
(* that delegates), "dump" and "load" the fields fs.                           *)
Frame0 == [k |-> "", c |-> <<>>, u |-> <<>>, ms |-> <<>>, errs |-> <<>>, cs |-> <<>>, got |-> <<>>, w |-> None, ts |-> <<>>, id |-> "", fs |-> <<>>, acc |-> <<>>]
Disp(c) == [Frame0 EXCEPT !.k = "disp", !.c = c, !.ms = FlattenM(c.M)]
None_ == [st |-> "none"]
(* a process: stack (the innermost frame first), ret (what the last frame      *)
(* yielded), log (the calls of user code), r (its outcome)                     *)
Process(c) == [stack |-> <<Disp(c)>>, ret |-> None_, log |-> <<>>, r |-> None_]
Ended(P) == P.r # None_
Bare(r) == [r EXCEPT !.log = <<>>]

Top(P) == Head(P.stack)
Push(P, f) == [P EXCEPT !.stack = <<f>> \o @, !.ret = None_]
Set(P, f) == [P EXCEPT !.stack = <<f>> \o Tail(@), !.ret = None_]
SetPush(P, f, g) == [P EXCEPT !.stack = <<g, f>> \o Tail(@), !.ret = None_]
(* the top frame is done *)
Return(P, r) == LET Q == [P EXCEPT !.stack = Tail(@), !.log = @ \o r.log] IN
                IF Q.stack = <<>> THEN [Q EXCEPT !.r = Bare(r), !.ret = None_] ELSE [Q EXCEPT !.ret = Bare(r)]
Yield(P, r) == [P EXCEPT !.ret = Bare(r), !.log = @ \o r.log]        \* of a converter that converts no part

(* -- what converter m does with c: the frame for its parts, or "leaf" ----------*)
Delegates(E, c, m) ==      \* the custom converter that m stands for converts a part
    LET s == Resolve(E, "JsonConverter", c)
        id == IF m[1] = "user" THEN m[2] ELSE s[3][1]
        cv == E.conv[id]
    IN IF m[1] = "setting" /\ s = NoSetting THEN ""
       ELSE IF cv.kind \in {"deleg", "reent"} /\ (cv.when = "" \/ cv.when = TypeKey(Un(c.t))) /\ (cv.dir = "" \/ cv.dir = c.dir) THEN id ELSE ""
Leaf == [Frame0 EXCEPT !.k = "leaf"]
Parts(E, c, m) ==
    LET u == Un(c.t)
        id == Delegates(E, c, m)
        s == Resolve(E, "DeserializeAs", c)
        d == IF s = NoSetting THEN u ELSE Un(s[3][1])
        object(T, x) == IF SchemaPre(E, x, T).st # "go" THEN Leaf
                        ELSE [Frame0 EXCEPT !.k = c.dir, !.c = x, !.u = T, !.fs = SchemaOf(E, T), !.acc = IF c.dir = "dump" THEN DumpAcc(E, x, T) ELSE LoadAcc]
    IN CASE m[1] \in {"user", "setting"} ->
              IF id = "" THEN Leaf
              ELSE [Frame0 EXCEPT !.k = "wrap", !.id = id,
                      !.cs = <<IF E.conv[id].kind = "deleg" THEN Spawn(c, c.v, E.conv[id].as, KStr(id)) ELSE Ctx(c.dir, c.v, E.conv[id].as, <<>>, <<NoLayer>>, JsonMapper)>>]
         [] m[1] = "coll" ->
              IF IsNT(E, u) THEN object(u, c)
              ELSE IF (u[1] \in {"coll", "vtuple", "tuple"} \/ IsUColl(E, u)) /\ CollPre(E, c, u).st = "go"
              THEN [Frame0 EXCEPT !.k = "items", !.c = With(c, m), !.u = u, !.cs = CollKids(E, c, u)]
              ELSE Leaf
         [] m[1] = "map" ->
              IF (u[1] = "map" \/ IsUMap(E, u)) /\ MapPre(E, c, u).st = "go"
              THEN [Frame0 EXCEPT !.k = "pairs", !.c = With(c, m), !.u = u,
                      !.cs = LET ks == MapKids(E, c, u) IN FlattenSeq_([i \in 1..Len(ks) |-> <<ks[i][2], ks[i][1]>>])]
              ELSE Leaf
         [] m[1] = "optional" -> IF IsOptional(u) /\ c.v # None THEN [Frame0 EXCEPT !.k = "pass", !.cs = <<Inside(c, u)>>] ELSE Leaf
         [] m[1] = "union" ->
              LET p == UnionPlan(E, c, u)
              IN IF p.k = "out" THEN Leaf
                 ELSE IF p.k = "any" THEN [Frame0 EXCEPT !.k = "any", !.c = c, !.ts = p.ts]
                 ELSE [Frame0 EXCEPT !.k = "one", !.c = c, !.cs = <<p.c>>, !.id = p.id]
         [] m[1] = "schema" -> IF Schematic(E, m, d) THEN object(d, With(c, m)) ELSE Leaf
         [] OTHER -> Leaf
CallOf(E, c, f) == IF f.k = "wrap" /\ E.conv[f.id].log THEN << <<"call", f.id, c.dir, c.p>> >> ELSE <<>>

(* -- one step -------------------------------------------------------------------*)
StepDisp(E, P, f) ==
    LET r == P.ret
        g == Parts(E, f.c, Head(f.ms))
    IN IF r # None_
       THEN CASE r.st = "skip" -> Set(P, [f EXCEPT !.ms = Tail(@)])
              [] r.st = "err"  -> Set(P, [f EXCEPT !.ms = Tail(@), !.errs = Append(@, r)])
              [] OTHER -> Return(P, r)
       ELSE IF f.ms = <<>> THEN Return(P, IF Len(f.errs) = 1 THEN f.errs[1] ELSE NoMatch(f.c, f.errs, <<>>))
       ELSE IF g.k = "leaf" THEN Yield(P, Try(E, f.c, Head(f.ms)))
       ELSE [Push(P, g) EXCEPT !.log = @ \o CallOf(E, f.c, g)]
StepItems(E, P, f) ==
    IF P.ret = None_
    THEN IF f.cs = <<>> THEN Return(P, CollDone(E, f.c, f.u, Ok(ListV(f.got)))) ELSE Push(P, Disp(Head(f.cs)))
    ELSE IF P.ret.st # "ok" THEN Return(P, P.ret) ELSE Set(P, [f EXCEPT !.cs = Tail(@), !.got = Append(@, P.ret.v)])
StepPairs(E, P, f) ==
    IF P.ret = None_
    THEN IF f.cs = <<>> THEN Return(P, MapDone(E, f.c, f.u, Ok(DictV(f.got)))) ELSE Push(P, Disp(Head(f.cs)))
    ELSE IF P.ret.st # "ok" THEN Return(P, P.ret)
    ELSE IF Len(f.cs) % 2 = 0 THEN Set(P, [f EXCEPT !.cs = Tail(@), !.w = P.ret.v])
    ELSE IF ~Hashable(E, P.ret.v) THEN Return(P, Err(Head(f.cs)))
    ELSE Set(P, [f EXCEPT !.cs = Tail(@), !.got = PutPy(@, P.ret.v, f.w)])
StepAny(E, P, f) ==
    IF P.ret = None_
    THEN IF f.ts = <<>> THEN Return(P, [Err(f.c) EXCEPT !.errs = f.errs]) ELSE Push(P, Disp(Spawn(f.c, f.c.v, Head(f.ts), KNone)))
    ELSE IF P.ret.st = "err" THEN Set(P, [f EXCEPT !.ts = Tail(@), !.errs = Append(@, P.ret)]) ELSE Return(P, P.ret)
StepOne(E, P, f) ==
    IF P.ret = None_ THEN Push(P, Disp(f.cs[1]))
    ELSE CASE f.k = "pass" -> Return(P, P.ret)
           [] f.k = "one" -> Return(P, UnionWrap(E, f.c, f.id, P.ret))
           [] f.k = "wrap" -> Return(P, IF P.ret.st = "ok" THEN [P.ret EXCEPT !.v = ListV(<<Str(f.id), P.ret.v>>)] ELSE P.ret)
StepDump(E, P, f) ==
    LET p == DumpPlan(E, f.c, Head(f.fs), f.acc)
        a == DumpTake(E, f.c, Head(f.fs), f.acc, P.ret)
    IN IF f.fs = <<>> THEN Return(P, DumpEnd(E, f.c, f.acc))
       ELSE IF P.ret # None_ THEN IF IsOutcome(a) THEN Return(P, a) ELSE Set(P, [f EXCEPT !.fs = Tail(@), !.acc = a])
       ELSE CASE p.k = "out" -> Return(P, p.r)
              [] p.k = "skip" -> Set(P, [f EXCEPT !.fs = Tail(@), !.acc = p.a])
              [] p.k = "conv" -> Push(P, Disp(p.c))
(* id: the field that is being converted; "" before it is looked up *)
StepLoad(E, P, f) ==
    LET p == IF f.fs = <<>> THEN LoadEnd(E, f.c, f.acc) ELSE LoadPlan(E, f.c, Head(f.fs), f.acc)
        a == LoadTake(f.acc, f.id, P.ret)
        done(x) == LoadDone(E, f.u, x)
        rest == IF f.fs = <<>> THEN <<>> ELSE Tail(f.fs)
    IN IF P.ret # None_
       THEN IF IsOutcome(a) THEN Return(P, a)
            ELSE IF f.fs = <<>> THEN Return(P, done(a))
            ELSE Set(P, [f EXCEPT !.fs = rest, !.acc = a, !.id = ""])
       ELSE CASE p.k = "out" -> Return(P, p.r)
              [] p.k = "skip" -> IF f.fs = <<>> THEN Return(P, done(p.a)) ELSE Set(P, [f EXCEPT !.fs = rest, !.acc = p.a])
              [] p.k = "conv" -> SetPush(P, IF f.fs = <<>> THEN [f EXCEPT !.id = p.n] ELSE [f EXCEPT !.id = Head(f.fs).n, !.acc = p.a], Disp(p.c))
Step(E, P) ==
    LET f == Top(P)
    IN CASE f.k = "disp" -> StepDisp(E, P, f)
         [] f.k = "items" -> StepItems(E, P, f)
         [] f.k = "pairs" -> StepPairs(E, P, f)
         [] f.k = "any" -> StepAny(E, P, f)
         [] f.k \in {"one", "pass", "wrap"} -> StepOne(E, P, f)
         [] f.k = "dump" -> StepDump(E, P, f)
         [] f.k = "load" -> StepLoad(E, P, f)
(* up to and including the next call of user code, or to the end *)
RECURSIVE Run(_, _)
Run(E, P) == LET Q == Step(E, P) IN IF Ended(Q) \/ Len(Q.log) > Len(P.log) THEN Q ELSE Run(E, Q)
(* without the log, which only the process has in the right order *)
RECURSIVE Plain(_)
Plain(r) == [r EXCEPT !.log = <<>>, !.errs = [i \in 1..Len(r.errs) |-> Plain(r.errs[i])]]
RECURSIVE RunToEnd(_, _)
RunToEnd(E, P) == IF Ended(P) THEN [P.r EXCEPT !.log = P.log] ELSE RunToEnd(E, Run(E, P))
=============================================================================
