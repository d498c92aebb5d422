"""The random programs, settings, values and payloads that each property is checked with.

A profile makes a session (a program and operations on it) from a random.Random.  The outcome that each operation has
to have is decided by the specification, never here."""

from gen import *
from gen import Gen
import model
from model import *
from model import un

# everything off; a profile switches on what it needs
OFF = dict(strict=False, scal=(), any=False, colls=False, maps=False, tuples=False, unions=False, opts=False, lits=False,
           enums=False, ann=False, alias=False, defaults=False, required=False, flatten=False, remainder=False, extra=False,
           disc=False, tds=False, nts=False, ucolls=False, generics=False, inherit=False, das=False, sd=False, dateformat=False,
           precision=False, init_false=False)


def only(**kw):
    return {**OFF, **kw}


def other_maps(r, v, p):
    """The value with some of its dictionaries as mappings of another kind."""
    if v[0] == "map":
        kids = tuple((k, other_maps(r, w, p)) for k, w in v[2])
        return ("map", r.choice(["UserDict", "mappingproxy", "OrderedDict"]) if v[1] == "dict" and r.random() < p else v[1], kids)
    if v[0] == "seq":
        return (v[0], v[1], tuple(other_maps(r, w, p) for w in v[2]))
    if v[0] == "obj":
        return (v[0], v[1], tuple((k, other_maps(r, w, p)) for k, w in v[2]))
    return v


def OPT(t):
    return canon(model.UNION(t, model.NONET))


def UNION(*ts):
    return canon(model.UNION(*ts))


def echoes(g, ops):
    """Conversions of the session once more, with other settings than the first time: by the mapper of another
    conversion, or with the settings of another conversion or none at all.  What one conversion has found out about a
    type has no influence on another one."""
    convs = [o for o in ops if o["op"] == "convert"]
    out = []
    for o in g.r.sample(convs, min(len(convs), 3)):
        other = g.pick(convs)
        o = dict(o)
        if g.p(0.6):
            o["with"] = other["with"] if g.p(0.4) else ("none",)
        if g.p(0.6):
            o["m"] = other["m"] if g.p(0.4) else ""
        if g.p(0.1):
            o["dir"] = "dump" if o["dir"] == "load" else "load"
        out.append(o)
    return out


def session(g, ops, **kw):
    if g.p(0.12):
        ops = [dict(o, v=other_maps(g.r, o["v"], 0.4)) if o["op"] == "convert" else o for o in ops]
    if g.p(0.3):
        ops = ops + echoes(g, ops)
    if g.p(0.25):
        kw["namesakes"] = True
    return dict(prog=Program(g.decls, g.convs, **kw), ops=ops)


def prog_opts(g):
    """How the program is written down: string annotations, PEP 585 generics, ..."""
    r = g.r
    kw = {}
    if r.random() < 0.15:
        kw["future"] = {k for k in range(g.o["modules"]) if r.random() < 0.7}
    if r.random() < 0.2:
        kw["quote"] = {(i, f["n"]) for i, d in g.decls.items() if d["kind"] in ("dc", "td") for f in d["own"] if r.random() < 0.4}
    if r.random() < 0.3:
        kw["pep585"] = True
    return kw


def conv_op(d, t, v, m="", with_=("none",), filename=None):
    op = dict(op="convert", m=m, dir=d, v=v, t=t)
    op["with"] = with_
    if filename is not None:
        op["filename"] = filename
    return op


def load_op(t, v, **kw):
    return conv_op("load", t, v, **kw)


def dump_op(t, v, **kw):
    return conv_op("dump", t, v, **kw)


def round_op(t, v, m="", with_=("none",), json=False):
    op = dict(op="roundtrip", m=m, v=v, t=t, json=json)
    op["with"] = with_
    return op


def maybe_payload(g, t, bad=0.4, weird=0.2):
    v = g.payload(t)
    if v is None:
        return None
    while g.p(bad):
        v = g.mutate(v, g.p(weird))
        bad *= 0.4
    return v


def maybe_value(g, t, bad=0.3, weird=0.2):
    v = g.value(t)
    if v is None:
        return None
    if g.p(bad):
        v = g.mutate(v, g.p(weird))
    return v


# -- keys -----------------------------------------------------------------------------------------------------------


def all_aliases(g):
    out = []
    for r in g.decls.values():
        for f in r["own"]:
            out.append(f["n"])
            out += [a for a in g.aliases(f) if a not in out]
    return out


def perturb_keys(g, v, names, amount=0.5, values=None):
    """Adds, removes, renames and reorders keys of the mappings inside of v."""
    if v[0] in ("seq", "set"):
        return (v[0], v[1], tuple(perturb_keys(g, x, names, amount, values) for x in v[2]))
    if v[0] != "map":
        return v
    ps = [(k, perturb_keys(g, w, names, amount, values)) for k, w in v[2]]
    while g.p(amount):
        c = g.r.random()
        if ps and c < 0.25:
            del ps[g.r.randrange(len(ps))]
        elif ps and c < 0.45:
            k = g.r.randrange(len(ps))
            ps[k] = (S(g.pick(names)), ps[k][1])
        elif ps and c < 0.55:
            k = g.r.randrange(len(ps))
            ps[k] = (ps[k][0], NONE)
        elif ps and c < 0.85:
            ps.insert(g.r.randint(0, len(ps)), (S(g.pick(names)), g.pick(ps)[1]))
        else:
            ps.insert(g.r.randint(0, len(ps)), (S(g.pick(names)), values() if values else g.any_value(1)))
    if g.p(0.3):
        g.r.shuffle(ps)
    return ("map", v[1], tuple(dedup_pairs(ps)))


# -- where settings come from ------------------------------------------------------------------------------------------


def place(g, ops, settings, m="m", extra_key=None):
    """Operations that make the settings take effect for conversions of mapper *m* (or of a call), in one of the ways
    that there are; returns (m, with)."""
    style = g.pick(["list", "list", "mapper", "parent", "cond", "prov", "none-mapper"])
    if style == "list" or not settings:
        return "", ("list", tuple(settings)) if settings else ("none",)
    if style == "none-mapper":
        ops.append(dict(op="mapper", m=m, s="s0", json=True))
        return m, ("list", tuple(settings))
    if style == "mapper":
        ops.append(dict(op="settings", s="s0", parent="", glob=()))
        for x in settings:
            ops.append(dict(op="addglobal", s="s0", x=x))
        ops.append(dict(op="mapper", m=m, s="s0", json=True))
        return m, ("none",)
    if style == "parent":
        ops.append(dict(op="settings", s="s0", parent="", glob=tuple(settings)))
        ops.append(dict(op="settings", s="s1", parent="s0", glob=()))
        ops.append(dict(op="mapper", m=m, s="s1", json=True))
        return m, ("none",)
    ops.append(dict(op="mapper", m=m, s="s0", json=True))
    for x in settings:
        if style == "cond":
            ops.append(dict(op="addcond", s="s0", pred=("always",), x=x))
    if style == "prov":
        ops.append(dict(op="addprov", s="s0", pred=("always",), xs=tuple(settings)))
    return m, ("none",)


# -- profiles ------------------------------------------------------------------------------------------------------------


def simple(opts, ops, n=5):
    def make(rng):
        g = Gen(rng, **opts).make_classes()
        out = []
        for _ in range(n):
            ops(g, out)
        return session(g, out, **prog_opts(g))

    return make


def ops_c01(g, out):
    t = g.type()
    x = g.r.random()
    if x < 0.15:
        v = g.payload(g.type())
    elif x < 0.2:
        v = g.value(t)
    elif x < 0.25:
        v = g.any_value(2, g.p(0.3))
    else:
        v = maybe_payload(g, t, 0.6, 0.15)
    if v is not None:
        out.append(load_op(t, v, with_=("list", (setting("Strict", (g.p(0.2),)),)) if g.p(0.4) else ("none",)))


P_C01 = simple(dict(nclasses=3, depth=2, p_key_ann=0.2), ops_c01)


def precs():
    return ["3:", "5:ROUND_UP", "2:ROUND_DOWN", "1:ROUND_HALF_EVEN", "28:", ":", ":ROUND_UP", "4::-2:3:", "::0:1:1", "6:ROUND_FLOOR::5:1", "3::-1::"]


def c02(rng):
    g = Gen(rng, **only(strict=True, scal=("decimal",), opts=True, colls=True, maps=True, abstract=False, precision=True, nclasses=2))
    g.make_classes() if g.p(0.3) else None
    ops = []
    kinds = ["int", "str", "float", "bool", "bytes", "decimal"]
    glob = []
    if g.p(0.5):
        glob.append(setting("Strict", (g.p(0.2),), g.pick([1, 1, 1, 2])))
    if g.p(0.3):
        glob.append(setting("Precision", (g.pick(precs()),)))
    if g.p(0.1):
        glob.append(setting("Strict", (g.p(0.5),), g.pick([0, 1, 2])))
    m, w = place(g, ops, glob)
    for _ in range(8):
        k = g.pick(kinds)
        t0 = SCAL("decimal") if k == "decimal" else ("plain", k, ())
        ss = []
        if g.p(0.3):
            ss.append(setting("Strict", (g.p(0.3),), g.pick([1, 1, 0, 2])))
        if k == "decimal" and g.p(0.4):
            ss.append(setting("Precision", (g.pick(precs()),)))
        t = ANN(t0, *ss) if ss else t0
        src = g.pick(kinds + ["str", "str", "int", "float"])
        x = g.r.random()
        if x < 0.5:
            v = g.scalar(src)
        elif x < 0.7:
            v = S(g.pick(NUMS + KW + B64 + SPELL))
        elif x < 0.85:
            v = num_value(g)
        elif x < 0.9:
            v = g.weird_value()
        else:
            v = g.scalar(k)
        wrap = g.r.random()
        if wrap < 0.15:
            t, v = LIST(t), L(v, g.scalar(k)) if g.p(0.5) else L(v)
        elif wrap < 0.25:
            t, v = MAP("dict", STR, t), D(("k", v))
        elif wrap < 0.35:
            t = OPT(t)
        elif wrap < 0.4 and hashable(v):
            t, v = MAP("dict", t, INT), ("map", "dict", ((v, I(1)),))
        ops.append(conv_op(g.pick(["load", "load", "load", "dump"]), t, v, m=m, with_=w))
    if g.decls:
        for _ in range(2):
            t = g.type()
            v = maybe_payload(g, t, 0.5)
            if v is not None:
                ops.append(load_op(t, v, m=m, with_=w))
    return session(g, ops)


SPELL = ["ENABLED", "Disabled", "oN", "yes ", " no", "enable", "n", "TRUE ", "0.0", "1.", ".5", "+5", "--1", "1e400", "-inf",
         "-nan", "0b1", "1__0", "½", "1e-5", "0x10", "\t3\n", "5e-324", "1.7976931348623157e308", "-0.0", "٣٤", "sNaN", "1E5",
         "True", "False", "1 2", "12345678901234567890", "1.0000000000000000000000000001"]


def num_value(g):
    """A number at the edge of something."""
    if g.p(0.5):
        return V("int", g.pick(["0", "-1", "9007199254740992", "9007199254740993", "-9007199254740993", "1" + "0" * 22,
                                "1" + "0" * 309, "18446744073709551616", str(2**1024), "-" + str(2**1024), str(10**400), "7"]))
    return FL(g.pick([0.0, -0.0, 1.0, 1e22, 1e308, 5e-324, 0.1, 1 / 3, float("inf"), float("-inf"), float("nan"), 2.0**53, -2.5, 123456789.0,
                      2.0**63, 1e15 + 0.5]))


def c03_ops(g, out):
    t = g.type()
    x = g.r.random()
    if x < 0.12:
        v = g.value(g.type())
    elif x < 0.16:
        v = g.any_value(2, True)
    else:
        v = maybe_value(g, t, 0.5, 0.3)
    if v is not None:
        out.append(dump_op(t, v, with_=("list", (setting("Strict", (False,)),)) if g.p(0.15) else ("none",)))


P_C03 = simple(dict(nclasses=3, junk=False, p_key_ann=0.2), c03_ops)


def c04(rng):
    g = Gen(rng, inverse=True, safe_union=True, abstract=False, json_keys=True, cms=True, any=False, dateformat=False, precision=False, unions=False, strict=False,
            scal=("decimal", "uuid", "path", "purepath", "date", "time", "datetime"), init_false=True, depth=2, required=True)
    g.make_classes()
    ops = []
    for _ in range(5):
        t = g.type()
        v = g.value(t)
        if v is None:
            continue
        glob = []
        if g.p(0.3):
            glob.append(setting("SerializeDefaults", (False,)))
        if g.p(0.1):
            glob.append(setting("ExtraKeys", (True, "")))
        with_ = ("list", tuple(glob)) if glob else ("none",)
        ops.append(round_op(t, v, with_=with_, json=True))
    return session(g, ops, **prog_opts(g))


def c05_ops(g, out):
    t = g.type() if not g.p(0.04) else g.pick([VAR("T"), LIST(VAR("T")), OPT(VAR("T")), MAP("dict", STR, VAR("T")), UNION(INT, VAR("T"))])
    glob = []
    if g.p(0.25):
        glob.append(setting("Strict", (False,)))
    if g.p(0.15):
        glob.append(g.extra_setting())
    if g.p(0.1):
        glob.append(setting("SerializeDefaults", (False,)))
    if g.p(0.1):
        glob.append(g.date_setting())
    with_ = ("list", tuple(glob)) if glob else ("none",)
    if g.p(0.55):
        x = g.r.random()
        if x < 0.2:
            v = g.weird_value(2)
        elif x < 0.3:
            v = g.any_value(2, True)
        elif x < 0.4:
            v = g.payload(g.type())
        elif x < 0.5:
            v = num_value(g)
        else:
            v = maybe_payload(g, t, 0.8, 0.6)
        d = "load"
    else:
        x = g.r.random()
        if x < 0.2:
            v = g.weird_value(2)
        elif x < 0.3:
            v = num_value(g)
        elif x < 0.4:
            v = g.value(g.type())
        else:
            v = maybe_value(g, t, 0.7, 0.6)
        d = "dump"
    if v is not None:
        out.append(conv_op(d, t, v, with_=with_))


P_C05 = simple(dict(check=True, cms=True, nclasses=3, junk=True, p_unbound=0.08), c05_ops, n=6)


def c06(rng):
    g = Gen(rng, best_match=False, alias=True, flatten=rng.random() < 0.4, extra=False, depth=2, p_key_ann=0.2)
    g.make_classes()
    ops = []
    for _ in range(6):
        t = g.type()
        d = g.pick(["load", "load", "dump"])
        v = g.payload(t) if d == "load" else g.value(t)
        if v is None:
            continue
        v = g.single_fault(v)
        glob = []
        if g.p(0.15):
            glob.append(setting("Strict", (False,)))
        ops.append(conv_op(d, t, v, with_=("list", tuple(glob)) if glob else ("none",), filename=g.pick([None, None, "f.json", "", "a b"])))
    return session(g, ops, **prog_opts(g))


def c07(rng):
    g = Gen(rng, defaults=True, required=True, p_required=0.35, p_default=0.5, opts=True, depth=1, p_alias=0.15, unions=False, lits=False,
            disc=False, nclasses=3, scal=("decimal", "date"), precision=False, dateformat=False, strict=False, flatten=rng.random() < 0.3,
            remainder=False, extra=False, p_opt_field=0.35, ucolls=False, p_td=2, p_nt=2)
    g.make_classes()
    ops = []
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td", "nt")]
    names = all_aliases(g)
    for _ in range(6):
        t = g.cls_type(g.pick(ids), 1) if ids else g.type()
        if g.p(0.2):
            t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t)])
        v = g.payload(t)
        if v is None:
            continue
        v = drop_keys(g, v)
        if g.p(0.15):
            v = perturb_keys(g, v, names, 0.3)
        if g.p(0.35):
            op = load_op(t, v)
            op["op"] = "twice"
            ops.append(op)
        else:
            ops.append(load_op(t, v))
    return session(g, ops, **prog_opts(g))


def drop_keys(g, v):
    """Removes keys from the mappings inside of v, or sets them to null."""
    if v[0] == "seq":
        return (v[0], v[1], tuple(drop_keys(g, x) for x in v[2]))
    if v[0] != "map":
        return v
    rate = g.pick([0, 0.2, 0.5, 1])
    ps = []
    for k, w in v[2]:
        if g.r.random() < rate:
            continue
        ps.append((k, NONE if g.p(0.12) else drop_keys(g, w)))
    return ("map", v[1], tuple(ps))


def c08(rng):
    g = Gen(rng, p_alias=0.6, depth=1, unions=False, lits=False, disc=False, nclasses=3, scal=(), scalars=("int", "str"), enums=False,
            flatten=rng.random() < 0.5, p_flat=0.3, remainder=False, extra=False, ucolls=False, maps=True, tuples=False, strict=False,
            abstract=False, alias_prio=True, any=False, nts=True, nt_alias=True)
    g.make_classes()
    ops = []
    names = all_aliases(g) + ["zz"]
    field_names = sorted({f["n"] for r in g.decls.values() for f in r["own"]})
    # aliases that come from elsewhere
    m, w = "", ("none",)
    style = g.pick(["none", "none", "cond", "cond", "glob", "list", "local"])
    if style == "glob":
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        ops.append(dict(op="addglobal", s="s0", x=setting("Alias", g.some(["g1", "g2"], 1, 2), g.pick([0, 1]))))
        m = "m"
    elif style == "list":
        w = ("list", (setting("Alias", g.some(["g1", "a", "g2"], 1, 2), g.pick([0, 1, 2])),))
    elif style == "cond":
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        for n in g.some(field_names, 1, 3):
            ops.append(dict(op="addcond", s="s0", pred=("keyIs", n), x=setting("Alias", g.some(["g" + n, n + "1", n, n + "3"], 1, 3), g.pick([0, 1, 1, 2]))))
        m = "m"
    elif style == "local":
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        ops.append(dict(op="addlocal", s="s0", key=g.pick(["int", "str"]), x=setting("Alias", g.some(["loc1", "loc2"], 1, 2), g.pick([0, 1, 2]))))
        m = "m"
    names += ["g1", "g2", "ga", "gb", "gc", "a3", "b3", "loc1", "loc2"]
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td", "nt")]
    for _ in range(6):
        t = g.cls_type(g.pick(ids), 1) if ids else g.type()
        if g.p(0.2):
            t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t)])
        if g.p(0.3):
            v = g.value(t)
            if v is not None:
                ops.append(dump_op(t, v, m=m, with_=w))
            continue
        v = g.payload(t)
        if v is None:
            continue
        v = rename_keys(g, v, style)
        v = perturb_keys(g, v, names, 0.4, lambda: g.scalar("int"))
        ww = w
        if g.p(0.6):
            ww = ("list", (w[1] if w[0] == "list" else ()) + (setting("ExtraKeys", (True, g.pick(["", "rec1"]))),))
        ops.append(load_op(t, v, m=m, with_=ww))
    return session(g, ops, **prog_opts(g))


def rename_keys(g, v, style):
    """Renames some keys to those of the aliases that c08 adds."""
    if v[0] == "seq":
        return (v[0], v[1], tuple(rename_keys(g, x, style) for x in v[2]))
    if v[0] != "map":
        return v
    ps = []
    for k, w in v[2]:
        if k[0] == "str" and style != "none" and g.p(0.4):
            n = k[1]
            cand = {"cond": ["g" + n, n + "1", n, n + "3"], "glob": ["g1", "g2"], "list": ["g1", "a", "g2"], "local": ["loc1", "loc2"]}[style]
            k = S(g.pick(cand))
        ps.append((k, rename_keys(g, w, style)))
    return ("map", v[1], tuple(dedup_pairs(ps)))


def c09(rng):
    g = Gen(rng, p_alias=0.2, depth=2, unions=False, lits=False, nclasses=3, scal=(), scalars=("int", "str"), enums=False,
            flatten=rng.random() < 0.4, p_flat=0.25, remainder=rng.random() < 0.2, extra=True, p_extra=0.35, p_extra_ann=0.5, ucolls=False,
            tuples=False, strict=False, abstract=False, any=False, extra_prio=True, disc=rng.random() < 0.3, p_cls_field=0.4)
    g.make_classes()
    ops = []
    names = all_aliases(g) + ["zz", "yy", "q1"]
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td")]
    glob = []
    m = ""
    style = g.pick(["none", "none", "glob", "list", "local", "cond"])
    w = ("none",)
    xk = lambda: g.extra_setting(g.pick([0, 1, 1, 1, 2, 3]))
    if style == "list":
        w = ("list", tuple(xk() for _ in range(g.r.randint(1, 2))))
    elif style != "none":
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        m = "m"
        for _ in range(g.r.randint(1, 2)):
            if style == "glob":
                ops.append(dict(op="addglobal", s="s0", x=xk()))
            elif style == "local" and ids:
                ops.append(dict(op="addlocal", s="s0", key=g.pick(ids), x=xk()))
            else:
                ops.append(dict(op="addcond", s="s0", pred=g.pick([("isRoot",), ("keyIs", g.pick(names)), ("always",)]), x=xk()))
    for _ in range(6):
        t = g.cls_type(g.pick(ids), 1) if ids and g.p(0.7) else g.type()
        if t[0] == "cls" and g.p(0.25):
            t = ANN(t, xk())
        if g.p(0.2):
            t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t)])
        v = g.payload(t)
        if v is None:
            continue
        v = add_extra(g, v, names)
        ops.append(load_op(t, v, m=m, with_=w))
    return session(g, ops, **prog_opts(g))


def add_extra(g, v, names):
    if v[0] == "seq":
        return (v[0], v[1], tuple(add_extra(g, x, names) for x in v[2]))
    if v[0] != "map":
        return v
    ps = [(k, add_extra(g, w, names)) for k, w in v[2]]
    while g.p(0.4):
        k = S(g.pick(names)) if g.p(0.93) else g.pick([I(1), NONE, TRUE])
        ps.insert(g.r.randint(0, len(ps)), (k, g.any_value(1)))
    return ("map", v[1], tuple(dedup_pairs(ps)))


def c10(rng):
    two = 0.4 if rng.random() < 0.15 else 0       # classes with two Remainder fields, which cannot be used
    g = Gen(rng, inverse=True, p_alias=0.2, depth=1, unions=False, lits=False, nclasses=5, scal=(), scalars=("int", "str"), enums=False,
            flatten=True, p_flat=0.4, remainder=True, p_rem=0.3, p_rem2=two, extra=rng.random() < 0.3, p_extra=0.2, ucolls=False, tuples=False, strict=False,
            abstract=False, any=True, disc=False, generics=False, forward=False, recursive=False, nts=False, kinds=("dc", "dc", "dc", "td"))
    g.make_classes()
    ops = []
    names = all_aliases(g) + ["zz", "q1", "q2", "1"]
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td")]
    ids = [i for i in ids if any(g.is_set(f["t"], "Flattened") or g.is_set(f["t"], "Remainder") for f in g.fields(CLS(i)))] or ids
    for _ in range(7):
        t = CLS(g.pick(ids))
        if g.p(0.2):
            t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t)])
        x = g.r.random()
        with_ = ("list", (setting("SerializeDefaults", (False,)),)) if g.p(0.15) else ("none",)
        if x < 0.45:
            v = g.payload(t)
            if v is not None:
                ops.append(load_op(t, perturb_keys(g, v, names, g.pick([0, 0.3, 0.5])), with_=with_))
        else:
            v = g.value(t)
            if v is None:
                continue
            if two or g.p(0.5):
                if g.p(0.4):
                    v = clash(g, v, names)
                ops.append(dump_op(t, v, with_=with_))
            else:
                if g.p(0.4):
                    v = clash_remainder(g, v, names)
                ops.append(round_op(t, v, with_=with_, json=False))
    return session(g, ops, **prog_opts(g))


def clash_remainder(g, v, names):
    """Puts other keys into remainder fields."""
    if v[0] == "obj":
        fs = {f["n"]: f["t"] for f in g.fields(CLS(v[1]))}
        sub = lambda k, w: clash(g, w, names) if g.is_set(fs[k], "Remainder") else clash_remainder(g, w, names)
        return (v[0], v[1], tuple((k, sub(k, w)) for k, w in v[2]))
    if v[0] == "seq":
        return (v[0], v[1], tuple(clash_remainder(g, w, names) for w in v[2]))
    return v


def clash(g, v, names):
    """Puts other keys into the mappings of a value."""
    if v[0] == "obj":
        return (v[0], v[1], tuple((k, clash(g, w, names)) for k, w in v[2]))
    if v[0] == "seq":
        return (v[0], v[1], tuple(clash(g, w, names) for w in v[2]))
    if v[0] == "map" and g.p(0.6):
        ps = list(v[2])
        sample = ps[0][1] if ps else I(1)
        ps.append((S(g.pick(names)), sample))
        return ("map", v[1], tuple(dedup_pairs(ps)))
    return v


# -- C11 -------------------------------------------------------------------------------------------------------------------


def c11(rng):
    g = Gen(rng, depth=2, nclasses=3, enums=False, junk=False, das=False)
    g.decls, g.done = {}, []
    r = rng
    prios = lambda: g.pick([0, 1, 1, 1, 2, 3])
    tagn = iter(range(10**6))
    tag = lambda: setting("Tag", (f"t{next(tagn)}",), prios())
    g.convs["probe"] = conv("probe", when="")
    base = cls_record("dc", "Base", own=(F("x", INT),))
    g.decls["B"] = base
    g.decls["D"] = cls_record("dc", "Derived", own=(F("y", STR, "val", S("y")),), bases=(CLS("B"),))
    g.decls["E"] = cls_record("dc", "Third", own=(F("z", LIST(CLS("B")), "fac", L()), F("w", OPT(CLS("D")), "val", NONE)), bases=(CLS("D"),) if g.p(0.5) else ())
    for i in ("B", "D", "E"):
        if g.p(0.3):
            g.decls[i]["settings"] = tuple(tag() for _ in range(r.randint(1, 2)))
    g.done = ["B", "D", "E"]
    targets = [CLS("B"), CLS("D"), CLS("E"), INT, STR, SCAL("decimal"), LIST(INT), TUP(INT, STR), MAP("dict", STR, INT), OPT(CLS("B")), OPT(INT),
               LIT(I(1)), ANY, UNION(INT, STR), COLL("set", INT)]
    keys = ["B", "D", "E", "int", "str", "decimal", "list", "tuple", "dict", "object", "NoneType", "set"]
    ops = []
    prog_settings = []
    mappers, setts = [], []
    for step in range(r.randint(4, 12)):
        c = g.pick(["settings", "addglobal", "addglobal", "addlocal", "addlocal", "addcond", "addprov", "mapper", "decorate", "copysettings", "copymapper"])
        if c == "settings" or not setts:
            s = f"s{len(setts)}"
            ops.append(dict(op="settings", s=s, parent=g.pick([""] + setts), glob=tuple(tag() for _ in range(r.randint(0, 2)))))
            setts.append(s)
        elif c == "copysettings":
            s = f"s{len(setts)}"
            ops.append({"op": "copysettings", "s": s, "from": g.pick(setts)})
            setts.append(s)
        elif c == "addglobal":
            ops.append(dict(op="addglobal", s=g.pick(setts), x=tag()))
        elif c == "addlocal":
            ops.append(dict(op="addlocal", s=g.pick(setts), key=g.pick(keys), x=tag()))
        elif c in ("addcond", "addprov"):
            pr = g.pick([("always",), ("never",), ("keyIs", g.pick(["x", "y", "z", "w"])), ("typeIs", g.pick(keys)), ("isRoot",), ("dirIs", g.pick(["load", "dump"]))])
            if c == "addcond":
                ops.append(dict(op="addcond", s=g.pick(setts), pred=pr, x=tag()))
            else:
                ops.append(dict(op="addprov", s=g.pick(setts), pred=pr, xs=tuple(tag() for _ in range(r.randint(0, 3)))))
        elif c == "mapper":
            mm = f"m{len(mappers)}"
            ops.append(dict(op="mapper", m=mm, s=g.pick(setts), json=False))
            ops.append(dict(op="register", k=mm, item=("user", "probe"), first=False))
            mappers.append(mm)
        elif c == "copymapper" and mappers:
            mm, s = f"m{len(mappers)}", f"s{len(setts)}"
            ops.append({"op": "copymapper", "m": mm, "from": g.pick(mappers), "s": s})
            mappers.append(mm)
            setts.append(s)
        elif c == "decorate":
            ops.append(dict(op="decorate", cls=g.pick(["B", "D", "E"]), x=tag()))
    if not mappers:
        mm = "m0"
        ops.append(dict(op="mapper", m=mm, s=g.pick(setts), json=False))
        ops.append(dict(op="register", k=mm, item=("user", "probe"), first=False))
        mappers.append(mm)
    g.convs["fields"] = conv("echo")
    for _ in range(8):
        t = g.pick(targets)
        if g.p(0.4):
            t = ANN(t, *[tag() for _ in range(r.randint(1, 2))])
        w = ("none",)
        x = g.r.random()
        if x < 0.3:
            w = ("list", tuple(tag() for _ in range(r.randint(1, 3))))
        elif x < 0.45:
            w = ("prov", g.pick(setts))
        ops.append(conv_op(g.pick(["load", "dump"]), t, I(1), m=g.pick(mappers), with_=w))
    # the same inside of objects: only ints are probed, everything else is converted as usual
    mm = "mj"
    g.convs["pint"] = conv("probe", when=g.pick(["int", "B", "str", "D"]))
    ops.append(dict(op="mapper", m=mm, s=g.pick(setts), json=True))
    ops.append(dict(op="register", k=mm, item=("user", "pint"), first=True))
    for _ in range(3):
        t = g.pick([CLS("B"), CLS("D"), CLS("E"), LIST(CLS("D")), MAP("dict", STR, CLS("B"))])
        v = g.payload(t)
        w = ("list", (tag(),)) if g.p(0.4) else ("none",)
        if v is not None:
            ops.append(load_op(t, v, m=mm, with_=w))
    # a real setting with all of its sources
    mm = "mk"
    ops.append(dict(op="mapper", m=mm, s="sk", json=True))
    strict = lambda: setting("Strict", (g.p(0.5),), prios())
    for _ in range(r.randint(0, 3)):
        c = g.pick(["addglobal", "addlocal", "addcond"])
        op = dict(op=c, s="sk", x=strict())
        if c == "addlocal":
            op["key"] = g.pick(["int", "str", "float"])
        if c == "addcond":
            op["pred"] = g.pick([("typeIs", "int"), ("always",), ("isRoot",)])
        ops.append(op)
    for _ in range(3):
        t = INT
        if g.p(0.5):
            t = ANN(t, *[strict() for _ in range(r.randint(1, 2))])
        ops.append(load_op(t, S("7"), m=mm, with_=("list", (strict(),)) if g.p(0.4) else ("none",)))
    return session(g, ops)


# -- C12, C13 ---------------------------------------------------------------------------------------------------------------


def c12(rng):
    g = Gen(rng, disc=True, p_disc=10, depth=2, unions=False, nclasses=5, scal=(), scalars=("int", "str"), lits=False, enums=False, any=False, ucolls=False,
            best_match=False, strict=False, abstract=False, p_inherit=0.6, generics=False, extra=rng.random() < 0.3, p_default=0.6, decorated_unions=True, nonobj_members=True)
    g.make_classes()
    ops = []
    for _ in range(7):
        t = g.disc_union()
        if t is None:
            continue
        us = g.union_setting(t)
        style, disc, nest, ms = us[2]
        own = False
        wrap = g.pick([lambda t: t, lambda t: t, lambda t: t, LIST, lambda t: MAP("dict", STR, t), g.opt_ann])
        x = g.r.random()
        if x < 0.55:
            v = g.payload(t)
            if v is None:
                continue
            if g.p(0.55):
                v = disc_fault(g, v, us)
            d = "load"
        else:
            if g.p(0.25):  # any object, also that of a class outside of the union or a subclass of a member
                v = g.value(CLS(g.pick(g.dcs()))) if g.dcs() else None
            elif g.p(0.1):
                v = g.any_value(1, True)
            else:
                v = g.value(t)
                own = True
            if v is None:
                continue
            d = "dump"
        tt = wrap(t)
        if un(tt)[0] == "coll":
            v = L(v)
        elif un(tt)[0] == "map":
            v = D(("k", v))
        if d == "dump" and own and g.p(0.6):
            ops.append(round_op(tt, v))
        else:
            ops.append(conv_op(d, tt, v))
    return session(g, ops, **prog_opts(g))


def disc_fault(g, v, us):
    """Another discriminator, another shape, ..."""
    style, disc, nest, ms = us[2]
    if v[0] != "map":
        return v
    ps = list(v[2])
    c = g.r.random()
    ids = [S(i) for i, _ in ms] + [S("nope"), S(""), I(1), NONE, L(), D(), S(disc), S("data"), S("type")]
    if style == "keyed":
        if c < 0.4:
            ps = [(k if not g.p(0.8) else g.pick(ids), w) for k, w in ps]
        elif c < 0.6:
            ps.append((g.pick(ids), g.pick(ps)[1] if ps else NONE))
        elif c < 0.8:
            ps = []
        else:
            return g.pick([L(v), S("x"), NONE, I(1)])
    else:
        k = [j for j, (a, _) in enumerate(ps) if a == S(disc)]
        if c < 0.35 and k:
            ps[k[0]] = (S(disc), g.pick(ids))
        elif c < 0.5 and k:
            del ps[k[0]]
        elif c < 0.6:
            ps = [(a, w) for a, w in ps if a == S(disc)]
        elif c < 0.75 and len(ps) > 1:
            j = g.pick([i for i in range(len(ps)) if i not in k] or [0])
            ps[j] = (g.pick(ids + [S("zz")]), ps[j][1])
        elif c < 0.9:
            ps.append((g.pick(ids + [S("zz")]), g.pick(ps)[1] if ps else NONE))
        else:
            return g.pick([L(v), S("x"), NONE, I(1)])
    return ("map", "dict", tuple(dedup_pairs([(a if hashable(a) else S("zz"), w) for a, w in ps])))


def c13(rng):
    g = Gen(rng, unions=True, p_union=8, p_opt=5, depth=2, nclasses=3, disc=True, only_best=True, strict=rng.random() < 0.4, scal=("uuid", "date", "decimal", "path"),
            junk=False, forward=rng.random() < 0.3)
    g.make_classes()
    ops = []
    strict = ("list", (setting("Strict", (False,)),))
    for _ in range(7):
        x = g.r.random()
        t = g.union(1) if x < 0.5 else (g.opt(g.type(1)) if x < 0.75 else (g.disc_union("best_match") or g.union(1)))
        if t[0] == "union" and g.p(0.15):
            t = g.opt(t)
        if g.p(0.2):
            t = g.pick([LIST(t), MAP("dict", STR, t), TUP(t, INT)])
        w = strict if g.p(0.3) else ("none",)
        if g.p(0.55):
            v = maybe_payload(g, t, 0.35, 0.15)
            d = "load"
        else:
            v = maybe_value(g, t, 0.3, 0.2)
            d = "dump"
        if v is not None:
            ops.append(conv_op(d, t, v, with_=w))
    return session(g, ops, **prog_opts(g))


# -- C14 -------------------------------------------------------------------------------------------------------------------


def c14(rng):
    g = Gen(rng, **only(nclasses=1))
    r = rng
    g.decls["A"] = cls_record("dc", "A", own=(F("x", INT), F("y", LIST(STR), "fac", L())))
    g.done = ["A"]
    kinds = ["const", "echo", "tag", "decline", "decline", "fail", "fail", "raise", "deleg", "decline"]
    whens = ["", "", "", "int", "str", "list", "A", "dict"]
    n = r.randint(2, 6)
    for k in range(n):
        kind = g.pick(kinds)
        g.convs[f"c{k}"] = conv(kind, when=g.pick(whens), dir=g.pick(["", "", "", "load", "dump"]), log=True,
                                **({"as": g.pick([STR, LIST(INT), INT, FLOAT])} if kind == "deleg" else {}))
        if kind == "deleg" and type_key(g.convs[f"c{k}"]["as"]) == g.convs[f"c{k}"]["when"]:
            g.convs[f"c{k}"]["kind"] = "tag"
        if kind == "deleg" and not g.convs[f"c{k}"]["when"]:
            g.convs[f"c{k}"]["when"] = "bool"
    # delegations must not go round in circles
    dels = [k for k, c in g.convs.items() if c["kind"] == "deleg"]
    for k in dels[1:]:
        g.convs[k]["kind"] = "tag"
    ops = []
    mods, maps = [], []
    json = r.random() < 0.4
    ops.append(dict(op="mapper", m="m0", s="s0", json=json))
    maps.append("m0")
    nested = {}
    if g.p(0.4):
        c14_tree(g, ops, mods, nested, "m0", r.randint(1, 4))
    for _ in range(r.randint(3, 10)):
        c = r.random()
        if c < 0.2:
            k = f"k{len(mods)}"
            ops.append(dict(op="module", k=k))
            mods.append(k)
        elif c < 0.3:
            mm, s = f"m{len(maps)}", f"s{len(maps)}"
            ops.append({"op": "copymapper", "m": mm, "from": g.pick(maps), "s": s})
            maps.append(mm)
        else:
            tgt = g.pick(maps + mods)
            x = r.random()
            if x < 0.65 or not mods:
                item = ("user", g.pick(list(g.convs)))
            elif x < 0.75:
                item = ("json", "")
            else:
                item = ("modref", g.pick(mods))
                if item[1] == tgt or reach(nested, item[1], tgt):
                    item = ("user", g.pick(list(g.convs)))
                else:
                    nested.setdefault(tgt, []).append(item[1])
            ops.append(dict(op="register", k=tgt, item=item, first=g.p(0.4)))
        if g.p(0.3):
            c14_convert(g, ops, maps)
    for _ in range(3):
        c14_convert(g, ops, maps)
    return session(g, ops)


def c14_tree(g, ops, mods, nested, tgt, depth):
    """Modules within modules, each with a few converters."""
    n = g.r.randint(1, 3)
    sub = g.r.randrange(n) if depth else -1
    for i in range(n):
        if i == sub or depth and g.p(0.15):
            k = f"k{len(mods)}"
            mods.append(k)
            ops.append(dict(op="module", k=k))
            late = g.p(0.3)
            if not late:
                c14_tree(g, ops, mods, nested, k, depth - 1)
            ops.append(dict(op="register", k=tgt, item=("modref", k), first=g.p(0.3)))
            nested.setdefault(tgt, []).append(k)
            if late:
                c14_tree(g, ops, mods, nested, k, depth - 1)
        else:
            ops.append(dict(op="register", k=tgt, item=("user", g.pick(list(g.convs))), first=g.p(0.3)))


def reach(nested, a, b):
    return any(x == b or reach(nested, x, b) for x in nested.get(a, ()))


def c14_convert(g, ops, maps):
    t = g.pick([INT, STR, LIST(INT), CLS("A"), MAP("dict", STR, INT), BOOL, LIST(LIST(INT)), FLOAT, BYTES])
    x = g.r.random()
    d = g.pick(["load", "load", "dump"])
    v = g.any_value(1) if x < 0.25 else (g.payload(t) if d == "load" else g.value(t))
    if v is not None and single_level(v):
        ops.append(conv_op(d, t, v, m=g.pick(maps)))


def single_level(v):
    return True


# -- C15 -------------------------------------------------------------------------------------------------------------------


def c15(rng):
    g = Gen(rng, depth=2, unions=True, lits=False, nclasses=4, scal=("uuid", "decimal"), enums=True, strict=False, cms=True, p_cms=0.6, disc=True, p_disc=0.5,
            ucolls=False, p_cls_field=0.4, generics=False, abstract=False, best_match=False)
    for k in range(3):
        kind = g.pick(["cm", "cm", "tag", "const", "echo", "decline", "fail"])
        if kind == "cm":
            g.convs[f"c{k}"] = conv("cm", ser=g.pick(["", "first", "list"]), des=g.pick(["", "first", "list"]),
                                    styp=g.pick([(), ("int",), ("str",), ("list",), ("int", "list"), ("list", "dict"), ("int", "str")]))
        else:
            g.convs[f"c{k}"] = conv(kind, when=g.pick(["", "", "int", "C2", "C3", "str"]), dir=g.pick(["", "", "load", "dump"]), log=g.p(0.7))
    g.make_classes()
    ops = []
    m, w = "", ("none",)
    x = rng.random()
    others = [k for k, c in g.convs.items() if c["kind"] != "cm"]
    if x < 0.3:
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        m = "m"
        c = g.pick(["addlocal", "addcond", "addglobal"])
        cid = g.pick(list(g.convs)) if c == "addlocal" else (g.pick(others) if others else None)
        ids = [i for i in g.done if g.decls[i]["kind"] == "dc" and g.decls[i]["methods"]]
        if cid and (g.convs[cid]["kind"] != "cm" or ids):
            op = dict(op=c, s="s0", x=setting("JsonConverter", (cid,)))
            if c == "addlocal":
                op["key"] = g.pick(ids) if g.convs[cid]["kind"] == "cm" else g.pick(ids + ["int", "list", "str", "dict"])
            if c == "addcond":
                op["pred"] = g.pick([("keyIs", g.pick("abc")), ("typeIs", g.pick(["int", "str", "list"])), ("isRoot",)])
            ops.append(op)
    elif x < 0.4 and others:
        w = ("list", (setting("JsonConverter", (g.pick(others),)),))
    for _ in range(7):
        t = g.type()
        cs = [i for i in g.done if g.decls[i]["kind"] == "dc"]
        if cs and g.p(0.5):
            t = g.cls_type(g.pick(cs))
            if g.p(0.3):
                t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t), UNION(t, INT)])
        if g.p(0.1) and others:
            t = ANN(t, setting("JsonConverter", (g.pick(others),)))
        if g.p(0.5):
            v = g.cm_payload(t) if g.p(0.7) else maybe_payload(g, t, 0.2)
            d = "load"
        else:
            v = maybe_value(g, t, 0.2)
            d = "dump"
        if v is not None:
            ops.append(conv_op(d, t, v, m=m, with_=w))
    return session(g, ops, **prog_opts(g))


# -- C16 -------------------------------------------------------------------------------------------------------------------


def c16(rng):
    g = Gen(rng, depth=1, nclasses=6, modules=3, p_inherit=0.7, p_generic=0.5, p_multi=0.4, scal=("decimal", "date"), lits=False, unions=rng.random() < 0.3,
            disc=False, strict=False, dateformat=False, precision=False, enums=rng.random() < 0.5, flatten=False, remainder=False, extra=False, p_alias=0.05,
            kinds=("dc",) * 7 + ("td", "td", "nt"), same_names=True, p_cls_field=0.35, p_redeclare=0.5, ucolls=rng.random() < 0.3, any=False, abstract=False,
            p_default=0.3, nested_args=True, p_unbound=0.08)
    g.make_classes()
    ops = []
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td", "nt")]
    for _ in range(8):
        t = g.cls_type(g.pick(ids), 1)
        if g.p(0.1):
            t = LIST(t)
        if g.p(0.75):
            v = maybe_payload(g, t, 0.25)
            d = "load"
        else:
            v = g.value(t)
            d = "dump"
        if v is not None:
            ops.append(conv_op(d, t, v))
    return session(g, ops, **prog_opts(g))


# -- C17 -------------------------------------------------------------------------------------------------------------------


def c17(rng):
    g = Gen(rng, **only(nclasses=1))
    ops = []
    glob = []
    if g.p(0.5):
        glob.append(g.date_setting())
    m, w = place(g, ops, glob)
    if g.p(0.3):
        if not m:
            m = "mm"
            ops.append(dict(op="mapper", m=m, s="smm", json=True))
            s = "smm"
        else:
            s = {"m": "s0"}[m]
        ops.append(dict(op="addlocal", s=s, key=g.pick(["date", "time", "datetime"]), x=g.date_setting()))
    for _ in range(9):
        k = g.pick(["date", "time", "datetime"])
        t = SCAL(k)
        if g.p(0.6):
            t = ANN(t, *[g.date_setting() for _ in range(1 if g.p(0.85) else 2)])
        x = g.r.random()
        if g.p(0.1):
            wrap, inner = g.pick([(LIST, L), (OPT, lambda v: v), (lambda t: MAP("dict", STR, t), lambda v: D(("k", v)))])
        else:
            wrap, inner = (lambda t: t), (lambda v: v)
        if x < 0.5:
            if g.p(0.35):
                v = S(g.pick(DATES + TIMES + DTS + g.texts() + g.texts()))
            elif g.p(0.1):
                v = g.pick([I(0), NONE, FL(1.5), L(), D(), g.scalar(g.pick(["date", "time", "datetime"]))])
            else:
                v = S(g.pick(g.texts(k)))
            ops.append(load_op(wrap(t), inner(v), m=m, with_=w))
        elif x < 0.8:
            v = g.scalar(k) if g.p(0.85) else g.scalar(g.pick(["date", "time", "datetime", "str", "none"]))
            ops.append(dump_op(wrap(t), inner(v), m=m, with_=w))
        else:
            # only formats that keep everything about the value
            full = {"date": ["%Y-%m-%d", "%d.%m.%Y", "D:%Y%m%d", ".ISO_8601"], "time": [".ISO_8601", "%H:%M:%S.%f"],
                    "datetime": [".ISO_8601", ".JAVA_OFFSET_DATETIME"]}[k]
            t = SCAL(k) if g.p(0.4) else ANN(SCAL(k), setting("DateFormat", (g.pick(full),)))
            ops.append(round_op(wrap(t), inner(g.scalar(k)), json=True))
    return session(g, ops)


# -- C20 -------------------------------------------------------------------------------------------------------------------


def c20(rng):
    base = dict(junk=True, p_junk=rng.choice([0.3, 0.6, 0.9]), nclasses=3, depth=2, cms=True)
    g = Gen(rng, **base)
    g.make_classes()
    ops = []
    for _ in range(6):
        t = g.type()
        x = g.r.random()
        if x < 0.35:
            # settings of an optional type
            t = g.type(1)
            t = un(t)
            if t[0] == "plain":
                ss = [setting("Strict", (g.p(0.3),))]
            elif t == SCAL("decimal"):
                ss = [g.pick([setting("Precision", ("3:",)), setting("Strict", (False,))])]
            elif t[0] == "scal" and t[1] in ("date", "time", "datetime"):
                ss = [g.date_setting()]
            elif t[0] == "cls" and g.decls[t[1]]["kind"] in ("dc", "td"):
                ss = [g.pick([g.extra_setting(), setting("SerializeDefaults", (False,))])]
            else:
                ss = [g.junk(t)]
            t = ANN(g.opt(t), *ss) if t != NONET else t
        with_ = ("list", (g.pick([setting("Strict", (False,)), g.extra_setting()]),)) if g.p(0.2) else ("none",)
        if g.p(0.55):
            v = maybe_payload(g, t, 0.3)
            d = "load"
        else:
            v = maybe_value(g, t, 0.25)
            d = "dump"
        if v is not None:
            ops.append(conv_op(d, t, v, with_=with_))
    return session(g, ops, **prog_opts(g))


# -- C21 -------------------------------------------------------------------------------------------------------------------


def c21(rng):
    g = Gen(rng, **only(nclasses=1))
    r = rng
    g.decls["A"] = cls_record("dc", "A", own=(F("x", INT), F("y", STR, "val", S("d"))))
    g.done = ["A"]
    tagn = iter(range(10**6))
    g.convs["cconst"] = conv("const", when="str")
    g.convs["ctag"] = conv("tag", when="bool")
    g.convs["cA"] = conv("const", when="A")
    g.convs["probe"] = conv("probe", when="bytes")
    kinds = g.some(["Strict", "ExtraKeys", "SerializeDefaults", "Tag"], 1, 4)
    prio = lambda: g.pick([0, 1, 1, 2, 2])
    sett = lambda: {"Strict": lambda: setting("Strict", (g.p(0.3),), prio()), "ExtraKeys": lambda: setting("ExtraKeys", (g.p(0.7), ""), prio()),
                    "SerializeDefaults": lambda: setting("SerializeDefaults", (g.p(0.4),), prio()), "Tag": lambda: setting("Tag", (f"t{next(tagn)}",), prio())}[g.pick(kinds)]()
    keys = g.some(["int", "A", "bytes", "str"], 1, 4)
    adds = ["addglobal", "addlocal", "addcond", "addprov"] if g.p(0.5) else [g.pick(["addglobal", "addlocal", "addcond", "addprov"])]
    ops = []
    setts, maps, mods = [], [], []

    def new_mapper():
        m, s = f"m{len(maps)}", f"s{len(setts)}"
        ops.append(dict(op="mapper", m=m, s=s if not setts or g.p(0.7) else g.pick(setts), json=True))
        if ops[-1]["s"] == s:
            setts.append(s)
        ops.append(dict(op="register", k=m, item=("user", "probe"), first=True))
        maps.append(m)

    new_mapper()
    for _ in range(r.randint(6, 16)):
        c = g.pick(["mapper", "copymapper", "copymapper", "copymapper", "copysettings", "settings", "add", "add", "add", "add", "reg", "reg", "reg", "conv", "conv", "module"])
        if c == "mapper":
            new_mapper()
        elif c == "copymapper":
            m, s = f"m{len(maps)}", f"s{len(setts)}"
            ops.append({"op": "copymapper", "m": m, "from": g.pick(maps), "s": s})
            maps.append(m)
            setts.append(s)
        elif c == "copysettings":
            s = f"s{len(setts)}"
            ops.append({"op": "copysettings", "s": s, "from": g.pick(setts)})
            setts.append(s)
        elif c == "settings":
            s = f"s{len(setts)}"
            ops.append(dict(op="settings", s=s, parent=g.pick(setts), glob=(sett(),) if g.p(0.4) else ()))
            setts.append(s)
        elif c == "add":
            s = g.pick(setts)
            k = g.pick(adds)
            op = dict(op=k, s=s)
            if k == "addprov":
                op["xs"] = (sett(), sett())
            else:
                op["x"] = sett()
            if k == "addlocal":
                op["key"] = g.pick(keys)
            if k in ("addcond", "addprov"):
                op["pred"] = g.pick([("always",), ("typeIs", g.pick(keys)), ("isRoot",)])
            ops.append(op)
        elif c == "reg":
            ops.append(dict(op="register", k=g.pick(maps), item=("user", g.pick(["cconst", "ctag", "cA"])), first=g.p(0.8)))
        elif c == "module" and len(mods) < 1:
            ops.append(dict(op="module", k="k0"))
            mods.append("k0")
            ops.append(dict(op="register", k=g.pick(maps), item=("modref", "k0"), first=True))
        elif c == "module":
            ops.append(dict(op="register", k="k0", item=("user", g.pick(["cconst", "ctag", "cA"])), first=g.p(0.5)))
        else:
            c21_conv(g, ops, maps, setts, sett)
    for m in maps + [""]:
        c21_conv(g, ops, [m], setts, sett)
        c21_conv(g, ops, [m], setts, sett)
    return session(g, ops)


def c21_conv(g, ops, maps, setts, sett):
    d, t, v = g.pick([("load", INT, S("7")), ("load", INT, S("7")), ("load", BYTES, S("YQ==")), ("load", BYTES, S("YQ==")), ("load", CLS("A"), D(("x", I(1)), ("zz", I(2)))),
                      ("load", CLS("A"), D(("x", S("3")))), ("dump", CLS("A"), OBJ("A", ("x", I(1)), ("y", S("d")))), ("dump", STR, S("x")),
                      ("load", BOOL, S("yes")), ("load", LIST(STR), L(S("u")))])
    x = g.r.random()
    w = ("none",)
    if x < 0.2:
        w = ("list", (sett(),))
    elif x < 0.3:
        w = ("prov", g.pick(setts))
    ops.append(conv_op(d, t, v, m=g.pick(maps + [""]), with_=w))


# -- C22 (sequential part) -----------------------------------------------------------------------------------------------------


def c22(rng):
    g = Gen(rng, nclasses=3, depth=2, cms=True, junk=False, check=rng.random() < 0.3)
    g.convs["re1"] = conv("reent", when=g.pick(["int", "str", "bool"]), **{"as": g.pick([ANY, STR, LIST(INT), INT])})
    g.make_classes()
    ops = []
    m = ""
    if g.p(0.3):
        m = "m"
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        ops.append(dict(op="register", k="m", item=("user", "re1"), first=True))
    base = []
    for _ in range(4):
        t = g.type()
        if g.p(0.6):
            v, d = maybe_payload(g, t, 0.35), "load"
        else:
            v, d = maybe_value(g, t, 0.3), "dump"
        if v is None:
            continue
        w = g.pick([("none",), ("none",), ("list", (setting("Strict", (False,)),)), ("list", (g.extra_setting(),)), ("list", (setting("SerializeDefaults", (False,)),))])
        base.append((d, t, v, w))
    for _ in range(8):
        if base:
            d, t, v, w = g.pick(base)
            if g.p(0.2):
                w = g.pick(base)[3]
            ops.append(conv_op(d, t, v, m=m, with_=w))
    return session(g, ops, **prog_opts(g))


# -- C23 -------------------------------------------------------------------------------------------------------------------


def c23(rng):
    g = Gen(rng, depth=1, nclasses=4, p_default=0.75, p_alias=0.25, sd=True, p_sd_ann=0.4, unions=False, lits=False, disc=rng.random() < 0.2, scal=("decimal",), precision=False,
            strict=False, extra=False, ucolls=False, p_cls_field=0.4, flatten=rng.random() < 0.3, remainder=rng.random() < 0.3, required=True, any=False, abstract=False,
            nts=True, tds=True, enums=rng.random() < 0.4, eq_defaults=True, enum_overlap=False)
    g.make_classes()
    ops = []
    sd = lambda: setting("SerializeDefaults", (g.p(0.25),), g.pick([1, 1, 1, 0, 2]))
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td", "nt")]
    m, w = "", ("none",)
    style = g.pick(["none", "list", "list", "glob", "local", "cond"])
    if style == "list":
        w = ("list", (sd(),))
    elif style != "none":
        ops.append(dict(op="mapper", m="m", s="s0", json=True))
        m = "m"
        for _ in range(g.r.randint(1, 2)):
            if style == "glob":
                ops.append(dict(op="addglobal", s="s0", x=sd()))
            elif style == "local" and ids:
                ops.append(dict(op="addlocal", s="s0", key=g.pick(ids), x=sd()))
            else:
                ops.append(dict(op="addcond", s="s0", pred=g.pick([("isRoot",), ("keyIs", g.pick("abcde")), ("always",), ("dirIs", "dump"), ("dirIs", "load")]), x=sd()))
    for _ in range(8):
        t = g.cls_type(g.pick(ids), 1) if ids else g.type()
        if g.p(0.3):
            t = ANN(t, sd())
        if g.p(0.2):
            t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t)])
        v = g.value(t)
        if v is None:
            continue
        v = near_defaults(g, v)
        if g.p(0.5):
            ops.append(dump_op(t, v, m=m, with_=w))
        else:
            ops.append(round_op(t, v, m=m, with_=w))
    return session(g, ops, **prog_opts(g))


def near_defaults(g, v):
    """Replaces fields by their defaults, or by something that is equal to it but of another type."""
    if v[0] == "seq":
        return (v[0], v[1], tuple(near_defaults(g, x) for x in v[2]))
    if v[0] == "map":
        return (v[0], v[1], tuple((k, near_defaults(g, x)) for k, x in v[2]))
    if v[0] != "obj":
        return v
    ps = []
    for n, w in v[2]:
        f = [f for f in g.decls[v[1]]["own"] if f["n"] == n]
        if any(x["n"] == n and not x["init"] for x in g.fields(CLS(v[1], *[VAR(p) for p in g.decls[v[1]]["params"]]))):
            pass
        elif f and f[0]["dk"] != "no" and f[0]["init"] and g.p(0.4):
            w = f[0]["d"]
            if w[0] == "int" and g.p(0.3):
                w = V("float", w[1]) if len(w[1]) < 5 else w
            elif w == TRUE and g.p(0.2):
                w = I(1)
            elif w[0] == "float" and w[1].lstrip("-").isdigit() and w[1] != "-0" and g.p(0.3):
                w = V("int", w[1])
        else:
            w = near_defaults(g, w)
        ps.append((n, w))
    return (v[0], v[1], tuple(ps))


# -- C24 -------------------------------------------------------------------------------------------------------------------


def c24(rng):
    g = Gen(rng, **only(nclasses=1, enums=True, lits=True))
    for _ in range(g.r.randint(1, 3)):
        g.new_enum(g.pick(["enum", "enum", "ienum"]))
    enums = list(g.done)
    ops = []
    names = ["RED", "GREEN", "BLUE", "a", "b", "r", "g", "x", "RED2", "b2", "a2", "red", "", "name", "value", "_value_", "__class__", "describe", "label", "first", "mro", "_generate_next_value_"]
    scal = [I(0), I(1), I(2), I(3), I(5), I(15), FL(1.0), FL(1.5), TRUE, FALSE, NONE, S("1"), S("a"), S("b"), S(""), FL(0.0), FL(float("nan")), V("bytes", "61")]
    for _ in range(10):
        if g.p(0.6):
            i = g.pick(enums)
            t = CLS(i)
            if g.p(0.5):
                ms = g.decls[i]["members"]
                v = g.pick([S(m["n"]) for m in ms] + [S(a) for m in ms for a in m["aliases"]] + [m["val"] for m in ms] + [S(g.pick(names)), g.pick(scal)])
                if g.p(0.1):
                    v = g.pick([L(v), D(), NONE])
                if v[0] == "bool" and g.decls[i]["kind"] == "ienum":
                    v = I(1)
                d = "load"
            else:
                j = g.pick(enums)
                v = ENUM(j if g.p(0.3) else i, None) if False else g.value(CLS(j if g.p(0.25) else i))
                if g.p(0.15):
                    v = g.pick(scal + [S(g.pick(names))])
                d = "dump"
            x = g.r.random()
            if x < 0.1:
                t, v = LIST(t), L(v)
            elif x < 0.2 and hashable(v):
                t, v = MAP("dict", t, INT), ("map", "dict", ((v, I(1)),))
            elif x < 0.25:
                t = OPT(t)
        else:
            vs = [S("a"), S("b"), S("1"), I(1), I(0), TRUE, FALSE, NONE, S(""), I(2), V("bytes", "61"), S("A")]
            t = LIT(*g.some(vs, 1, 4))
            v = g.pick(list(t[2])) if g.p(0.4) else g.pick(scal + [L(), D(), S("A"), I(-1)])
            d = g.pick(["load", "dump"])
            x = g.r.random()
            if x < 0.1:
                t, v = LIST(t), L(v)
            elif x < 0.2 and hashable(v):
                t, v = MAP("dict", t, INT), ("map", "dict", ((v, I(1)),))
        ops.append(conv_op(d, t, v))
        if d == "dump" and g.p(0.3) and t[0] == "cls" and no_overlap(g.decls[t[1]]):
            ops.append(round_op(t, v, json=True))
    return session(g, ops)


def no_overlap(r):
    names = [n for m in r["members"] for n in {m["n"], *m["aliases"]}]
    return len(names) == len(set(names))


# -- C25 -------------------------------------------------------------------------------------------------------------------


def c25(rng):
    g = Gen(rng, depth=2, nclasses=2, ucolls=True, p_ucoll=0.95, n_ucolls=3, scal=("uuid", "date"), lits=False, unions=False, disc=False, strict=rng.random() < 0.5, p_key_ann=0.3, p_unbound=0.1, p_coll=4, generics=True,
            flatten=False, remainder=False, extra=False, p_alias=0.05, enums=rng.random() < 0.5)
    g.make_classes()
    ops = []
    uc = [i for i in g.done if g.decls[i]["kind"] in ("ucoll", "umap")]
    for _ in range(8):
        x = g.r.random()
        if uc and x < 0.4:
            t = g.cls_type(g.pick(uc), 1)
        elif x < 0.5:
            t = g.pick([COLL("list"), COLL("set"), MAP_BARE("dict"), COLL("deque"), COLL("frozenset"), COLL("Sequence"), COLL("Collection"),
                        MAP_BARE("OrderedDict"), MAP_BARE("Mapping")])
        elif x < 0.65:
            t = TUP(*[g.type(1) for _ in range(g.r.randint(0, 4))])
        elif x < 0.75:
            t = VTUP(g.type(1))
        else:
            t = g.type()
        if g.p(0.55):
            v = maybe_payload(g, t, 0.3, 0.3)
            if g.p(0.12):
                v = g.pick([S("abc"), V("bytes", "61"), D(("a", I(1))), NONE, I(3), S(""), D(), L(), ("seq", "tuple", (I(1), I(2))), ("set", "set", (I(1),)), ("seq", "deque", (I(1),)),
                            V("other", g.pick(["bytearray", "bytearray", "memoryview", "generator"]))])
            elif v is not None and v[0] == "seq" and g.p(0.15):
                v = ("seq", g.pick(["tuple", "deque"]), v[2])
            elif v is not None and v[0] == "seq" and v[2] and g.p(0.3):
                xs = list(v[2]) + [g.pick(v[2])]
                g.r.shuffle(xs)
                v = ("seq", "list", tuple(xs))
            d = "load"
        else:
            v = maybe_value(g, t, 0.3, 0.3)
            d = "dump"
        if v is not None:
            ops.append(conv_op(d, t, v))
    return session(g, ops, **prog_opts(g))


# -- C26 -------------------------------------------------------------------------------------------------------------------


def text_op(d, t, v, with_=("none",), **kw):
    return dict(op="text", m="", dir=d, v=v, t=t, **{"with": with_}, **kw)


def textual(v):
    if v[0] in ("seq", "map"):
        return v[1] in ("list", "dict") and all(textual(x[1]) and x[0][0] == "str" if v[0] == "map" else textual(x) for x in v[2])
    return v[0] in ("none", "bool", "int", "float", "str")


def c26(rng):
    g = Gen(rng, nclasses=3, depth=2, json_keys=rng.random() < 0.8, clash=False, check=rng.random() < 0.15)
    g.make_classes()
    ops = []
    w = []
    if g.p(0.4):
        ops.append(dict(op="settings", s="s0", parent="", glob=tuple(g.pick([setting("Strict", (False,)), setting("SerializeDefaults", (False,)), g.extra_setting()]) for _ in range(g.r.randint(0, 2)))))
        if g.p(0.4):
            ops.append(dict(op="addlocal", s="s0", key=g.pick(["int", "str"] + [i for i in g.done if g.decls[i]["kind"] == "dc"]), x=setting("Strict", (False,))))
        w.append(("prov", "s0"))
    w += [("none",), ("none",), ("list", (setting("Strict", (False,)),)), ("list", (setting("SerializeDefaults", (False,)), g.extra_setting())), ("list", ())]
    for _ in range(7):
        t = g.type()
        if g.p(0.6):
            v = maybe_payload(g, t, 0.35)
            d = "load"
        else:
            v, d = maybe_value(g, t, 0.2), "dump"
        if v is None:
            continue
        if d == "load" and not textual(v):
            continue
        ops.append(text_op(d, t, v, g.pick(w), filename=g.pick([None, None, "f.json", ""]), indent=g.pick([None, None, 0, 2, "\t", " "]), sort=g.p(0.3), dup=g.p(0.2)))
    return session(g, ops, **prog_opts(g))


# -- C27 -------------------------------------------------------------------------------------------------------------------


def plain_classes(g, amount):
    """Turns data classes that nothing else inherits from into classes that need a convert_to_schema of their own."""
    bases = {b[1] for d in g.decls.values() for b in d["bases"]}
    for i, d in g.decls.items():
        if d["kind"] == "dc" and not (d["params"] or d["bases"] or d["settings"] or d["methods"] or i in bases or d["frozen"]) and d["deco"] in ("std", "db") and g.p(amount):
            d["twin"], d["deco"] = d["deco"], "pc"


def has_flat_plain(g):
    for d in g.decls.values():
        for f in d["own"]:
            u = un(f["t"])
            if f["t"][0] == "ann" and any(s[0] == "Flattened" for s in f["t"][2][1]) and u[0] == "cls" and g.decls[u[1]]["deco"] == "pc":
                return True
    return False


BUILTINS = [("setting", ""), ("str", "duration"), ("str", "path"), ("str", "purepath"), ("str", "uuid"), ("any", ""), ("coll",), ("datetime", ""),
            ("decimal",), ("enum", ""), ("map",), ("optional", ""), ("plain",), ("union", ""), ("schema",), ("literal", "")]


def builtin(g, it, pc):
    k = it[0]
    if len(it) > 1:
        return it
    if k in ("plain", "decimal"):
        return (k, g.pick(["", "lax"]))
    kind = g.pick(["", "", "tuple", "deque", "list"]) if k == "coll" else g.pick(["", "", "OrderedDict", "dict"])
    if k != "schema":
        return (k, kind)
    return (k, kind) + tuple(x for x in ("nodef", "pc") if (g.p(0.4) if x == "nodef" else pc))


def c27(rng):
    g = Gen(rng, depth=2, nclasses=4, p_flat=0.25, p_cls_field=0.35, junk=False, scal=("uuid", "decimal", "path", "purepath", "date"), p_inherit=0.25,
            generics=rng.random() < 0.3, check=rng.random() < 0.2)
    g.make_classes()
    texts = [i for i, d in g.decls.items() if d["kind"] == "dc"]
    if g.p(0.5):
        g.decls["W"] = cls_record("dc", "W", own=(F("w", STR),) + ((F("z", INT, "val", I(3)),) if g.p(0.5) else ()), deco="db" if g.db else "std")
        g.decls["WS"] = cls_record("dc", "WS", own=(), bases=(CLS("W"),), deco=g.decls["W"]["deco"], settings=())
        texts += ["W", "W", "WS"]
        g.done += ["W", "WS"]
    plain_classes(g, g.pick([0, 0.4, 0.9]))
    flat = has_flat_plain(g)
    for k in range(g.r.randint(0, 2)):
        ids = [i for i in texts if g.decls[i]["own"] and g.decls[i]["own"][0]["init"] and g.decls[i]["own"][0]["t"] == STR or i in ("W", "WS")]
        if ids:
            g.convs[f"x{k}"] = conv("decline", cls=g.pick(ids), des=g.pick(["", "", "make"]))
    ops = [dict(op="mapper", m="m", s="s0", json=False)]
    items = list(BUILTINS)
    x = g.r.random()
    if x < 0.5:
        g.r.shuffle(items)
    elif x < 0.8:
        a, b = g.r.randrange(len(items)), g.r.randrange(len(items))
        items.insert(a, items.pop(b))
    if g.p(0.4):
        items = [i for i in items if not g.p(0.15)]
    if g.p(0.3):
        items.insert(g.r.randrange(len(items) + 1), g.pick(items) if items else ("any", ""))
    items = [builtin(g, i, flat or g.p(0.6)) for i in items]
    for k in g.convs:
        if k[0] == "x":
            items.insert(g.r.randrange(len(items) + 1) if g.p(0.5) else 0, ("strfy", k))
    if not flat and g.p(0.25):
        items.insert(g.pick([0, len(items)]), ("json", ""))
    mods = []
    if g.p(0.4):
        for j in range(g.r.randint(1, 2)):
            mods.append(f"k{j}")
            ops.append(dict(op="module", k=f"k{j}"))
    late = []
    for i in items:
        ops.append(dict(op="register", k=g.pick(["m"] * 3 + mods), item=i, first=g.p(0.1)))
    for k in mods:
        ops.append(dict(op="register", k="m", item=("modref", k), first=g.p(0.5)))
    if g.p(0.3):
        ops.append(dict(op="addglobal", s="s0", x=g.pick([setting("Strict", (True,)), setting("Strict", (False,)), setting("SerializeDefaults", (True,)), setting("SerializeDefaults", (False,))])))
    for _ in range(8):
        t = g.type()
        ids = [i for i in g.done if g.decls[i]["kind"] == "dc" and (g.decls[i]["deco"] == "pc" or i in [c["cls"] for c in g.convs.values()])]
        if ids and g.p(0.4):
            t = g.cls_type(g.pick(ids))
            if g.p(0.4):
                t = g.pick([LIST(t), OPT(t), MAP("dict", STR, t), UNION(t, INT), t])
        if g.p(0.08):
            t = g.pick([SCAL("duration"), LIST(SCAL("duration")), OPT(SCAL("duration"))])
        x = g.r.random()
        if x < 0.5:
            v, d = maybe_payload(g, t, 0.25), "load"
            cv = [c["cls"] for c in g.convs.values() if c["cls"]]
            if un(t)[0] == "cls" and un(t)[1] in cv + ["WS"] and g.p(0.6):
                v = g.scalar("str")
        else:
            v, d = maybe_value(g, t, 0.15), "dump"
        if v is not None:
            ops.append(conv_op(d, t, v, m="m", with_=g.pick([("none",)] * 4 + [("list", (setting("Strict", (False,)),)), ("list", (setting("SerializeDefaults", (g.p(0.5),)),))])))
    return session(g, ops, **prog_opts(g))


# -- C28 -------------------------------------------------------------------------------------------------------------------


def c28(rng):
    clash = rng.random() < 0.1
    g = Gen(rng, depth=2, nclasses=6, modules=rng.choice([1, 1, 3]), p_inherit=0.5, p_generic=0.4, p_multi=0.3, p_flat=rng.choice([0, 0.3]), p_redeclare=rng.choice([0, 0.5]), p_alias=0.35, p_required=0.25,
            p_td=2, p_cls_field=0.35, alias_prio=True, nested_args=True, junk=rng.random() < 0.2, clash=clash, p_extra_ann=0.2, check=rng.random() < 0.2, p_unbound=0.06)
    g.make_classes()
    ops = []
    ids = [i for i in g.done if g.decls[i]["kind"] in ("dc", "td")]
    for _ in range(9):
        x = g.r.random()
        t = g.cls_type(g.pick(ids if ids and x < 0.85 else g.done), 1) if x < 0.93 else g.type()
        if g.p(0.25):
            ss = [g.pick([setting("Alias", ("q",)), setting("ExtraKeys", (True, "")), setting("Flattened", (True,)), setting("Required", (False,)), setting("SerializeDefaults", (False,)), setting("Tag", ("t",)), setting("Junk", (g.pick(["text", "num", "obj", "cls", "list"]),))]) for _ in range(g.r.randint(1, 3))]
            t = ANN(un(t), *ss, *ss[:g.pick([0, 0, 1])])
        elif g.p(0.1):
            t = g.pick([LIST(t), OPT(un(t)), TUP(t), MAP("dict", STR, t)])
        ops.append(dict(op="schema", t=t))
        if not clash and g.p(0.15):
            v = maybe_payload(g, t, 0.2)
            if v is not None:
                ops.append(load_op(t, v))
    return session(g, ops, **prog_opts(g))


# -- C29 -------------------------------------------------------------------------------------------------------------------


def c29(rng):
    # A setting for all objects makes a class with a flattened or Remainder field one that contains itself.
    anywhere = rng.random() < 0.3
    g = Gen(rng, depth=2, nclasses=5, flatten=not anywhere, remainder=not anywhere, p_inherit=0.7, p_das=9, p_multi=0.15, unions=False, disc=rng.random() < 0.15, scal=("decimal",), enums=rng.random() < 0.3, p_cls_field=0.1, p_alias=0.15, p_extra=0.2,
            p_opt_field=0.1, strict=False, cms=rng.random() < 0.2, lits=False, precision=False, p_default=0.3, enum_overlap=False)
    g.make_classes()
    ops = []
    for _ in range(8):
        t = g.das_type() if g.p(0.6) else g.type()
        if t is None:
            t = g.type()
        if g.p(0.4):
            t = g.pick([LIST(t), OPT(un(t)), TUP(t, t), MAP("dict", STR, t), TUP(t, un(t)), UNION(t, INT), ANN(OPT(un(t)), *t[2][1]) if t[0] == "ann" else LIST(t)])
        with_ = ("none",)
        if anywhere and g.p(0.35):
            with_ = ("list", (setting("DeserializeAs", (g.cls_type(g.pick([i for i in g.done if g.decls[i]["kind"] in ("dc", "td")] or g.done)),), g.pick([0, 1, 1, 2])),))
        elif g.p(0.1):
            with_ = ("list", (g.extra_setting(),))
        if g.p(0.6):
            v = maybe_payload(g, t, 0.3, 0.1)
            if v is not None:
                ops.append(load_op(t, v, with_=with_))
        else:
            v = maybe_value(g, t if g.p(0.8) else un(t), 0.2, 0.1)
            if v is not None:
                ops.append(dump_op(t, v, with_=with_))
                if g.p(0.3) and not g.convs and not (with_[0] == "list" and with_[1][0][0] == "DeserializeAs"):
                    ops.append(round_op(t, v, with_=with_))
    return session(g, ops, **prog_opts(g))


def MAP_BARE(n):
    return ("map", n, ())


PROFILES = {
    "C01": P_C01, "C02": c02, "C03": P_C03, "C04": c04, "C05": P_C05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
    "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29,
}
