"""Seeded generators of programs, types, values and payloads.

They only have to produce interesting inputs: what the outcome of a conversion has to be is decided by the
specification. All choices come from the random.Random that is passed in."""

import dataclasses

from model import *
from model import un

KW = ["yes", "No", "TRUE", "off", "Enabled", "disabled", "on", "false", "true", "YES", "y", "t", "1", "0"]
NUMS = ["1", "-3", "1.5", " 7 ", "1e3", "0x1", "nan", "inf", "1_000", "007", "-0", "1.0", "", "12.50", "NaN", "Infinity",
        "1,5", "3.14159", "123456789.123456789", "٣", "1e-7", "9.99e4", "-99999"]
WORDS = ["a", "b", "foo", "x y", "é", "None", "null", "A", "k1", "type", "some/path"]
B64 = ["YWJj", "YQ==", "", "YQ", "!!!!", "+/8=", "-_8=", "AAEC", "é", "YWJj\n"]
UUIDS = ["12345678-1234-5678-1234-567812345678", "{12345678123456781234567812345679}", "123"]
DURS = ["P1D", "PT5M", "P1Y2M3DT4H5M6S", "P", "1D", "PT0S", "P2W"]
DATES = ["2020-01-02", "20200102", "2020-13-01", "1999-12-31", "2020", "02.01.2020", " 2020-01-02", "2020-01-02 "]
TIMES = ["12:30:00", "12:30:00.123456", "25:00:00", "12:30", "T12:30:00", "01:02:03Z", " 12:30:00"]
DTS = ["2020-01-02T03:04:05", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678+02:00", "2020-01-02 03:04:05",
       "2020-01-02T03:04:05.000001", "2020-01-02T24:04:05", " 2020-01-02T03:04:05", "2020-01-02T03:04:05Z "]
INTS = ["0", "1", "2", "3", "-1", "7", "42", "100000000000000000000", "9007199254740993", "-9007199254740993"]
FLOATS = ["0", "1", "3/2", "-0", "-5/2", "nan", "inf", "-inf", "3", "1/4", "1" + "0" * 22, "7"]
BYTES_ = ["", "61", "616263", "00ff", "fbff", "3e3f3ebf"]
DECS = ["1", "1.50", "-3.14159", "0", "1E+3", "123.456"]
DATE_FORMATS = [".ISO_8601", "%Y-%m-%d", "%d.%m.%Y", "%H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%H:%M", "D:%Y%m%d", "T:%H-%M",
                "DT:%Y-%m-%d %H:%M:%S", "SET:ISO", "SET:JAVA", ".JAVA_OFFSET_DATETIME", "%Y-%m-%dT%H:%M:%S.%f%z", "%d/%m/%Y"]
ISO_VALUES = {
    "date": ["2020-01-02", "1999-12-31", "2024-02-29", "0999-05-06"],
    "time": ["12:30:00", "00:00:00", "23:59:59.123456", "01:02:03.000100"],
    "datetime": ["2020-01-02T03:04:05", "2020-01-02T03:04:05+00:00", "2020-01-02T03:04:05.678000+02:00",
                 "1999-12-31T23:59:59.000001", "2024-02-29T00:00:00-05:30"],
}
HASHABLE_SCALARS = ["int", "str", "float", "bool"]


# subclasses of scalar types; there is a value of MyDuration, but no way to load one
SUBS = {"uuid": ["myuuid"], "decimal": ["mydecimal"], "path": ["mypath"], "purepath": ["winpath", "winpath"], "duration": ["myduration"]}


class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(
            subs=True, strict=True, scalars=("int", "str", "float", "bool", "bytes"), scal=("decimal", "uuid", "path", "purepath", "date", "time", "datetime"),
            any=True, colls=True, maps=True, tuples=True, unions=True, opts=True, lits=True, classes=True, enums=True,
            ann=True, alias=True, defaults=True, required=True, flatten=True, remainder=True, extra=True, disc=True,
            tds=True, nts=True, ucolls=True, generics=True, inherit=True, junk=False, cms=False, das=True, depth=2,
            nclasses=3, modules=1, sd=True, abstract=True, check=False, init_false=True, dateformat=True, precision=True,
            json_keys=False, deco=True, nest_unions=True, forward=True, recursive=True, safe_union=False,
            best_match=True, inverse=False, only_best=False, p_alias=0.25, p_required=0.1, p_default=0.45, p_opt_field=0, p_td=1, p_nt=1, kinds=None,
            p_flat=0.12, p_rem=0.08, p_extra=0.12, p_extra_ann=0, extra_prio=False, p_cls_field=0, clash=False, alias_prio=False,
            nt_alias=False, p_disc=2, p_union=2, p_opt=3, p_inherit=0.45, p_generic=0.3, p_multi=0.25, p_redeclare=0, p_junk=0.3,
            p_cms=0.25, p_sd_ann=0, p_ucoll=0.4, n_ucolls=1, p_coll=3, decorated_unions=False, nonobj_members=False,
            nested_args=False, enum_overlap=True, eq_defaults=False, td_defaults=True, same_names=False, p_rem2=0, p_key_ann=0, p_unbound=0, p_das=0,
        )
        self.o.update(opt)
        self.decls = {}
        self.convs = {}
        self.done = []
        self.dummy = {}
        self.db = self.o["deco"] and self.r.random() < 0.5
        self.nid = 0
        self.names = {}

    # -- choices
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(list(xs))

    def some(self, xs, lo, hi):
        xs = list(xs)
        n = min(self.r.randint(lo, hi), len(xs))
        return self.r.sample(xs, n)

    # -- values ---------------------------------------------------------------------------------------------------------

    def scalar(self, tag):
        r = self.r
        if tag == "none":
            return NONE
        if tag == "bool":
            return self.pick([TRUE, FALSE])
        if tag == "int":
            return V("int", self.pick(INTS[:7] * 3 + INTS))
        if tag == "float":
            return V("float", self.pick(FLOATS))
        if tag == "str":
            return S(self.pick(self.pick([WORDS, WORDS, NUMS, KW, B64, UUIDS, DURS, DATES, TIMES, DTS])))
        if tag == "bytes":
            return V("bytes", self.pick(BYTES_))
        if tag in ("decimal", "mydecimal"):
            return V(tag, self.pick(DECS))
        if tag in ("uuid", "myuuid"):
            return V(tag, UUIDS[0])
        if tag in ("path", "purepath", "mypath"):
            return V(tag, self.pick(["a/b", "/x", "."]))
        if tag == "winpath":
            return V(tag, self.pick(["a\\b", "C:\\x", "."]))
        if tag in ("duration", "myduration"):
            return V("duration", self.pick(["P1D", "PT5M", "P"]))
        return V(tag, self.pick(ISO_VALUES[tag]))

    def any_value(self, depth=2, weird=False):
        """Some value, JSON data for the most part."""
        x = self.r.random()
        if depth > 0 and x < 0.2:
            return ("seq", "list", tuple(self.any_value(depth - 1, weird) for _ in range(self.r.randint(0, 3))))
        if depth > 0 and x < 0.45:
            keys = self.some(["a", "b", "c", "d", "x", "y", "type", "k"], 0, 3)
            return ("map", "dict", tuple((S(k), self.any_value(depth - 1, weird)) for k in keys))
        if weird and x < 0.75:
            return self.weird_value(depth)
        return self.scalar(self.pick(["none", "bool", "int", "int", "float", "str", "str"]))

    def weird_value(self, depth=1):
        """A value that no JSON payload contains."""
        x = self.r.random()
        if x < 0.25:
            return V("other", self.pick(sorted(OTHERS)))
        if x < 0.5:
            return self.scalar(self.pick(["bytes", "decimal", "uuid", "path", "purepath", "date", "time", "datetime", "myuuid", "mydecimal", "mypath", "winpath"]))
        if x < 0.6:
            return ("seq", self.pick(["tuple", "deque"]), tuple(self.any_value(0) for _ in range(self.r.randint(0, 2))))
        if x < 0.7:
            return ("set", self.pick(["set", "frozenset"]), tuple({self.scalar("int"): 1, S("a"): 1}))
        if x < 0.85:
            ks = self.some([I(1), FL(1.5), NONE, S("a"), V("bytes", "61"), TRUE], 1, 2)
            if I(1) in ks and TRUE in ks:
                ks.remove(TRUE)
            return ("map", self.pick(["dict", "OrderedDict"]), tuple((k, self.any_value(0)) for k in ks))
        objs = [i for i in self.done if self.decls[i]["kind"] in ("enum", "ienum", "dc", "nt") and not self.decls[i]["params"]]
        if objs:
            return self.value(CLS(self.pick(objs)), 1) or V("other", "object")
        return V("other", "object")

    # -- types ----------------------------------------------------------------------------------------------------------

    def key_type(self):
        ks = [STR, STR, STR]
        if not self.o["json_keys"]:
            ks += [INT, BOOL, FLOAT]
        if self.o["enums"]:
            ks += [CLS(i) for i in self.done if self.decls[i]["kind"] == "enum"]
        if self.o["lits"]:
            ks.append(LIT(S("a"), S("b")))
        if "uuid" in self.o["scal"]:
            ks.append(SCAL("uuid"))
        return self.ann_key(ks)

    def hashable_type(self):
        ts = [("plain", n, ()) for n in HASHABLE_SCALARS if n in self.o["scalars"]] or [STR]
        ts += [CLS(i) for i in self.done if self.decls[i]["kind"] in ("enum", "ienum")]
        ts += [SCAL(n) for n in self.o["scal"] if n in ("uuid", "date")]
        if self.o["tuples"]:
            ts.append(TUP(INT, STR))
        return self.ann_key(ts)

    def ann_key(self, ts):
        """one of the types of keys or items, with settings on some"""
        if not self.p(self.o["p_key_ann"]):
            return self.pick(ts)
        return self.annotated(self.pick(ts + [SCAL(n) for n in self.o["scal"] if n in ("date", "decimal")]))

    def type(self, depth=None, vars=(), forward=()):
        o, r = self.o, self.r
        depth = o["depth"] if depth is None else depth
        t = self._type(depth, vars, forward)
        if o["junk"] and self.p(o["p_junk"]):
            t = ANN(t, *[self.junk(t) for _ in range(r.randint(1, 2))])
        return t

    def junk(self, t):
        """Metadata that has no meaning for the conversion of t."""
        u = un(t)
        opts = [setting("Junk", (k,)) for k in ("text", "num", "obj", "cls", "tup", "list", "dict")]
        opts.append(setting("Tag", ("junk",)))
        if u[0] != "plain" and u != SCAL("decimal") and not (u[0] == "union"):
            opts.append(setting("Strict", (False,)))
        if u[0] not in ("cls", "union"):
            opts += [setting("ExtraKeys", (True, "")), setting("SerializeDefaults", (False,))]
        if u[0] == "plain":
            opts.append(setting("Precision", ("3:",)))
            opts.append(setting("DateFormat", ("%Y",)))
        return self.pick(opts)

    def _type(self, depth, vars, forward):
        o, r = self.o, self.r
        w = []

        def add(weight, f):
            w.append((weight, f))

        if o["scalars"]:
            add(6, lambda: ("plain", self.pick(o["scalars"]), ()))
        if o["scal"]:
            add(3, lambda: SCAL(self.pick(o["scal"])))
            subs = [x for b in o["scal"] for x in SUBS.get(b, ())]
            if subs and o["subs"]:
                add(0.7, lambda: SCAL(self.pick(subs)))
        if o["any"]:
            add(0.7, lambda: self.pick([ANY, ANY, OBJECT]))
        if o["lits"]:
            add(1, self.lit)
        if vars:
            add(6, lambda: VAR(self.pick(vars)))
        cls = [i for i in self.done if self.usable(i)]
        if cls and o["classes"]:
            add(6 + 20 * o["p_cls_field"], lambda: self.cls_type(self.pick(cls), depth - 1, vars))
        if forward and depth < o["depth"]:
            add(3, lambda: CLS(self.pick(forward)))
        if depth > 0:
            sub = lambda: self.type(depth - 1, vars, forward)
            if o["colls"]:
                ctors = ["list"] * 4 + ["deque"] + (["Sequence", "Collection", "MutableSequence"] if o["abstract"] else [])
                add(o["p_coll"], lambda: COLL(self.pick(ctors), sub()))
                sctors = ["set", "frozenset"] + (["Set", "MutableSet"] if o["abstract"] else [])
                add(1, lambda: COLL(self.pick(sctors), self.hashable_type()))
            if o["tuples"]:
                add(1, lambda: VTUP(sub()))
                add(1, lambda: TUP(*[sub() for _ in range(r.randint(0 if r.random() < 0.2 else 1, 3))]))
            if o["maps"]:
                mctors = ["dict"] * 4 + ["OrderedDict"] + (["Mapping", "MutableMapping", "defaultdict"] if o["abstract"] else [])
                add(2, lambda: MAP(self.pick(mctors), self.key_type(), sub()))
            if o["opts"]:
                add(o["p_opt"], lambda: self.opt(sub()))
            if o["unions"]:
                add(o["p_union"], lambda: self.union(depth - 1, vars, forward))
            if o["disc"]:
                add(o["p_disc"], lambda: self.disc_union())
            if o["p_das"]:
                add(o["p_das"], self.das_type)
            if o["ann"]:
                add(2 + 4 * (o["p_extra_ann"] + o["p_sd_ann"]), lambda: self.annotated(sub()))
        total = sum(x for x, _ in w)
        x = r.random() * total
        for weight, f in w:
            x -= weight
            if x <= 0:
                break
        t = f()
        return t if t is not None else STR

    def usable(self, i):
        return self.decls[i]["kind"] in ("dc", "td", "nt", "enum", "ienum", "ucoll", "umap")

    def cls_type(self, i, depth=0, vars=()):
        ps = self.decls[i]["params"]
        if ps and self.p(self.o["p_unbound"]):
            return CLS(i)
        if self.decls[i]["ctor"] in ("set", "frozenset"):
            return CLS(i, *[self.hashable_type() for _ in ps])
        return CLS(i, *[self.type(depth - 1, vars) if depth > -2 and not self.p(0.3) else self.pick([INT, STR]) for _ in ps])

    def lit(self):
        vs = [S("a"), S("b"), S("1"), I(1), I(2), TRUE, FALSE, NONE, S("")]
        xs = self.some(vs, 1, 3)
        return LIT(*xs)

    def opt(self, t):
        u = un(t)
        if t == NONET:
            return t
        if t[0] == "union":
            return t if NONET in t[2] else UNION(*(t[2] + (NONET,)))
        if t[0] == "lit" and NONE in t[2]:
            t = LIT(*[v for v in t[2] if v != NONE]) if len(t[2]) > 1 else STR
        if t == ANY or t == OBJECT:
            return OPT(t)
        return UNION(t, NONET) if self.p(0.8) else UNION(NONET, t)

    def union(self, depth, vars=(), forward=()):
        ms = []
        for _ in range(self.r.randint(2, 3)):
            t = self.type(depth, vars, forward)
            if t[0] == "union" or (t[0] == "cls" and t[1] in forward) or t in (ANY, OBJECT):
                t = self.pick([INT, STR, FLOAT, BOOL])
            if t not in ms and not any(same_py(t, m) for m in ms):
                ms.append(t)
        if len(ms) < 2:
            ms = [INT, STR]
        return UNION(*ms)

    def dcs(self):
        return [i for i in self.done if self.decls[i]["kind"] == "dc" and not self.decls[i]["params"]]

    def disc_union(self, style=None):
        ds_ = self.dcs()
        if not ds_:
            return None
        ms = self.some(ds_, 1, 3)
        styles = ["nested", "flat", "keyed", "nested"] + (["best_match"] if not self.o["safe_union"] and self.o["best_match"] else [])
        style = style or ("best_match" if self.o["only_best"] else self.pick(styles))
        disc = self.pick(["type", "type", "kind"])
        nest = self.pick(["", "", "data"]) if style == "nested" else ""
        members = []
        for i in ms:
            members.append((self.pick([self.decls[i]["name"], "m" + str(len(members))]) + str(len(members)), CLS(i)))
        if self.p(0.2):
            members.append(("dup", members[0][1]))
        if self.o["nonobj_members"] and self.p(0.25) and style != "flat":
            members.insert(self.r.randint(0, len(members)), ("lst", self.pick([INT, STR, BOOL])))
        st = setting("Union", (style, disc, nest, tuple(members)))
        base = UNION(*[CLS(i) for i in ms]) if len(ms) > 1 and self.p(0.5) else self.pick([OBJECT, ANY])
        if base in (OBJECT, ANY):
            # Any is handled before unions are; a common base class would do.
            base = UNION(*[CLS(i) for i in ms]) if len(ms) > 1 else CLS(ms[0])
        return ANN(base, st)

    def annotated(self, t):
        o = self.o
        opts = []
        u = un(t)
        if o["strict"]:
            opts += [setting("Strict", (self.p(0.3),))] * 3
        if o["precision"] and (u == SCAL("decimal")):
            opts += [setting("Precision", (self.pick(["3:", "5:ROUND_UP", "2:ROUND_DOWN"]),))] * 4
        if o["dateformat"] and u[0] == "scal" and u[1] in ("date", "time", "datetime"):
            opts += [self.date_setting()] * 4
        if u[0] == "cls" and u[1] in self.done and self.decls[u[1]]["kind"] in ("dc", "td", "nt"):
            if o["extra"]:
                opts += [self.extra_setting()] * 2
            if o["sd"]:
                opts += [setting("SerializeDefaults", (self.p(0.3),))] * 2
            if o["das"]:
                opts += [self.das_setting(u[1])] * 2
        if not opts:
            return t
        return ANN(t, *[self.pick(opts) for _ in range(1 if self.p(0.7) else 2)])

    def das_setting(self, i):
        """DeserializeAs for a class: rather a sub-class of it, now and then something else."""
        others = [j for j in self.done if self.decls[j]["kind"] in ("dc", "td")]
        below = [j for j in others if j != i and j in self.dummy and any(c.__name__ == i for c in self.dummy[j].__mro__[1:])]
        if not others or self.p(0.06):
            return setting("DeserializeAs", (self.pick([INT, STR, LIST(INT), SCAL("uuid")] + [CLS(j) for j in self.done if self.decls[j]["kind"] in ("enum", "nt")]),))
        return setting("DeserializeAs", (self.cls_type(self.pick(below if below and self.p(0.7) else others)),), self.pick([1, 1, 1, 2, 0]) if self.o["p_das"] else 1)

    def das_type(self):
        below = [i for i in self.done if self.decls[i]["kind"] in ("dc", "td")]
        if not below:
            return None
        i = self.pick(below)
        ss = [self.das_setting(i) for _ in range(1 if self.p(0.85) else 2)]
        if self.p(0.2):
            ss.append(self.extra_setting() if self.p(0.5) else setting("SerializeDefaults", (self.p(0.3),)))
            self.r.shuffle(ss)
        return ANN(self.cls_type(i), *ss)

    def date_setting(self):
        return setting("DateFormat", tuple(self.some(DATE_FORMATS, 1, 3)))

    def extra_setting(self, prio=None):
        return setting("ExtraKeys", (self.p(0.75), self.pick(["", "rec1", "rec2"])), prio if prio is not None else (self.pick([0, 1, 1, 1, 2]) if self.o["extra_prio"] else 1))

    # -- classes ---------------------------------------------------------------------------------------------------------

    def new_id(self, name=None):
        self.nid += 1
        return f"C{self.nid}"

    def make_classes(self):
        o = self.o
        n = self.r.randint(1, o["nclasses"])
        if o["enums"]:
            self.new_enum("ienum" if self.p(0.35) else "enum")
        for _ in range(o["n_ucolls"]):
            if o["ucolls"] and self.p(o["p_ucoll"]):
                self.new_ucoll()
        ids = [self.new_id() for _ in range(n)]
        self.planned = set(ids)
        for k, i in enumerate(ids):
            later = [j for j in ids[k + 1 :]] if o["forward"] else []
            self.new_class(i, forward=later[:1] + ([i] if o["recursive"] else []), later=ids[k:])
        if o["decorated_unions"] and self.p(0.6):
            self.new_decorated_union()
        # classes used as forward references must exist and have no parameters
        return self

    def new_enum(self, kind):
        i = self.new_id()
        names = self.some(["RED", "GREEN", "BLUE", "a", "b"], 1, 4)
        ms = []
        pool = ["r", "g", "x", "RED2", "b2", "a2"]
        self.r.shuffle(pool)
        for k, n in enumerate(names):
            al = []
            if kind == "enum" and self.p(0.4):
                al = [pool.pop() for _ in range(self.r.randint(1, 2)) if pool]
                if not (self.o["inverse"] or self.o["enum_overlap"] is False) and self.p(0.15) and len(names) > 1:
                    al.append(self.pick([x for x in names if x != n]))
            ms.append({"n": n, "aliases": tuple(al), "val": I(k + 1) if self.p(0.7) else I(10 * k + 5)})
        vals = [m["val"] for m in ms]
        if len(set(vals)) < len(vals):
            for k, m in enumerate(ms):
                m["val"] = I(k + 1)
        if kind == "enum" and self.p(0.2):
            for m in ms:
                m["val"] = self.pick([m["val"], S(m["n"].lower()), S("v" + m["n"])])
        if len(ms) > 1 and self.p(0.15):
            # another name for the same value
            k = self.r.randrange(1, len(ms))
            ms[k]["val"], ms[k]["aliases"] = ms[0]["val"], ()
        self.decls[i] = cls_record(kind, self.pick(["Color", "Pet", i]), members=tuple(ms), mod=self.mod())
        self.fix_name(i)
        self.done.append(i)
        return i

    def mod(self):
        return self.r.randrange(self.o["modules"])

    def fix_name(self, i):
        r = self.decls[i]
        while any(j != i and q["name"] == r["name"] and q["mod"] == r["mod"] for j, q in self.decls.items()):
            r["name"] += "_"

    def new_ucoll(self):
        i = self.new_id()
        gen = self.p(0.6)
        ps = ("T",) if gen else ()
        el = VAR("T") if gen else self.hashable_type()
        if self.p(0.3) and self.o["maps"]:
            ctor = "dict"
            base = MAP("dict", STR, el)
            kind = "umap"
        else:
            ctor = self.pick(["list", "list", "deque", "set", "frozenset"])
            base = COLL(ctor, el)
            kind = "ucoll"
        self.decls[i] = cls_record(kind, "Coll" + i, bases=(base,), params=ps, ctor=ctor, mod=self.mod(), generic=False)
        self.done.append(i)
        if self.p(0.4):
            j = self.new_id()
            ps2 = ("U",) if gen and self.p(0.5) else ()
            arg = (VAR("U") if ps2 else self.hashable_type(),) if gen else ()
            self.decls[j] = cls_record(kind, "Sub" + j, bases=(CLS(i, *arg),), params=ps2, ctor=ctor, mod=self.decls[i]["mod"], generic=False)
            self.done.append(j)
        return i

    def default_for(self, t):
        """dk, default value"""
        if not self.o["defaults"] or not self.p(self.o["p_default"]) or has_var(t):
            return "no", NONE
        if u_opt(t) and self.p(0.5):
            return "val", NONE
        if not classes_of(t) <= set(self.done):  # the class of the value is not complete yet
            return "no", NONE
        v = self.value(t, 1)
        if v is None:
            return "no", NONE
        return ("val" if immutable(v) else "fac"), v

    def new_class(self, i, forward=(), later=(), kind=None):
        o, r = self.o, self.r
        kinds = o["kinds"] or ["dc"] * 6 + (["td"] * o["p_td"] if o["tds"] else []) + (["nt"] * o["p_nt"] if o["nts"] else [])
        kind = kind or self.pick(kinds)
        rec = cls_record(kind, self.pick(["A", "B", "P", i]), mod=self.mod(), deco="db" if self.db else "std")
        self.decls[i] = rec
        self.fix_name(i)
        bases, params, inherited = (), (), []
        if kind == "dc":
            cands = self.dc_like()
            if o["inherit"] and cands and self.p(o["p_inherit"]):
                bs = [self.pick(cands)]
                if len(cands) > 1 and self.p(o["p_multi"]):
                    rel = [c for c in cands if c not in bs and c not in self.ancestors(bs[0]) and bs[0] not in self.ancestors(c)]
                    bs += [self.pick(rel)] if rel else []
                vs = ("T",) if o["generics"] and self.p(o["p_generic"]) else ()
                vs = ("T", "U") if vs and o["nested_args"] and self.p(0.4) else vs
                bases = tuple(CLS(b, *([] if self.p(o["p_unbound"]) else [self.base_arg(vs) for _ in self.decls[b]["params"]])) for b in bs)
                used = vars_in(bases)
                params = tuple(self.some(sorted(used), len(used), len(used))) if o["nested_args"] else tuple(sorted(used))
                params = params or vs
            elif o["generics"] and self.p(o["p_generic"]):
                params = ("T",) if self.p(0.7) else ("T", "U")
        elif kind == "td":
            cands = [j for j in self.done if self.decls[j]["kind"] == "td"]
            if cands and o["inherit"] and self.p(0.4):
                bases = (CLS(self.pick(cands)),)
            rec["total"] = self.p(0.6)
        rec["bases"], rec["params"] = bases, params
        inherited = [f["n"] for b in bases for f in self.fields(b)]
        # names below a flattened field of a base are taken
        below = {x["n"] for b in bases for f in self.fields(b) if self.is_set(f["t"], "Flattened") for x in self.expand(f["t"])}
        names = [n for n in self.some(["a", "b", "c", "d", "e"], 1, 4) if n not in below] or ["z" + i]
        if bases and self.p(0.5 - o["p_redeclare"] / 2):
            names = [n for n in names if n not in inherited] or names[:1]
        if kind == "td":
            names = [n for n in names if n not in inherited] or ["z" + i]
        if kind == "td" and self.p(0.15):
            names = [n for n in self.some(["a", "b", "items", "keys", "copy", "get"], 1, 4) if n not in inherited] or names
        own = []
        rem = any(self.is_set(f["t"], "Remainder") for b in bases for f in self.expand(b)) or not o["remainder"] or kind == "nt"
        flat_taken = set(inherited)
        for n in names:
            fw = [x for x in forward if kind != "nt"]
            t = self.type(None, params, fw)
            if kind == "td" and has_ann_required(t):
                t = STR
            if o["p_cls_field"] and kind != "nt" and self.p(o["p_cls_field"]):
                cs = [j for j in self.done if self.decls[j]["kind"] in ("dc", "td", "nt")]
                if cs:
                    t = self.cls_type(self.pick(cs), 0, params)
                    if self.p(0.25):
                        t = self.pick([LIST(t), self.opt(t)])
                    if self.p(o["p_extra_ann"] + o["p_sd_ann"]):
                        t = self.annotated(t)
            elif o["p_opt_field"] and self.p(o["p_opt_field"]):
                t = self.opt(t)
            if kind == "td" and has_ann_required(t):
                t = STR
            if kind == "dc" and (not rem or (o["remainder"] and self.p(o["p_rem2"]))) and self.p(o["p_rem"]):
                t = ANN(MAP("dict", STR, self.pick([ANY, INT, STR] if o["any"] else [INT, STR])), setting("Remainder", (True,)))
                rem = True
            elif kind == "dc" and o["flatten"] and self.p(o["p_flat"]):
                fl = self.flattenable(names, flat_taken, rem and not (o["p_rem2"] and self.p(o["p_rem2"])))
                if fl is not None:
                    t, taken = fl
                    flat_taken |= taken
                    rem = rem or any(self.is_set(f["t"], "Remainder") for f in self.expand(t))
            ss = []
            if o["alias"] and (kind != "nt" or o["nt_alias"]) and self.p(o["p_alias"]):
                ss.append(self.alias(n, names))
                if o["alias_prio"] and self.p(0.15):
                    ss.append(self.alias(n, names))
            if o["required"] and kind == "dc" and self.p(o["p_required"]) and not self.is_set(t, "Flattened") and not self.is_set(t, "Remainder"):
                ss.append(setting("Required", (self.p(0.5),)))
            if o["junk"] and self.p(0.2):
                ss.append(setting("Junk", ("text",)))
            if ss:
                t = ANN(t, *ss)
            flat = self.is_set(t, "Flattened")
            dk, d = ("no", NONE) if flat else self.default_for(t)
            if self.is_set(t, "Remainder") and dk != "no":
                d = self.rest(d)
            if kind == "td" and (dk == "fac" or not o["td_defaults"]):
                dk, d = "no", NONE
            if kind == "nt" and dk == "fac":
                dk, d = "no", NONE
            init = True
            if kind == "dc" and o["init_false"] and dk != "no" and not self.is_set(t, "Remainder") and self.p(0.08):
                init = False
            own.append(F(n, t, dk, d, init))
        if kind == "nt" or (kind == "dc" and not self.db):
            own.sort(key=lambda f: f["dk"] != "no")
        if kind == "dc" and not self.db and any(f["dk"] != "no" for b in bases for f in self.fields(b)):
            # defaults have to follow defaults
            fixed = []
            for f in own:
                if f["dk"] == "no":
                    v = self.value(f["t"], 1) if not has_var(f["t"]) and classes_of(f["t"]) <= set(self.done) else None
                    if v is None:
                        continue
                    if self.is_set(f["t"], "Remainder"):
                        v = self.rest(v)
                    f = dict(f, dk="val" if immutable(v) else "fac", d=v)
                fixed.append(f)
            own = fixed
        rec["own"] = tuple(own)
        if kind == "dc" and self.occurs_twice(i):
            rec["bases"] = ()
        if kind == "dc":
            self.inherit_defaults(i, rec)
        if kind == "dc" and not self.db and not self.order_ok(i):
            rec["own"] = tuple(sorted((dict(f, dk="no", d=NONE, init=True) if f["n"] in inherited else f for f in own), key=lambda f: f["dk"] != "no"))
            if not self.order_ok(i):
                rec["own"] = tuple(sorted((dict(f, dk="no", d=NONE, init=True) for f in own), key=lambda f: f["dk"] != "no"))
                rec["bases"] = ()
        if kind == "dc" and o["cms"] and self.p(o["p_cms"]) and not params:
            self.add_cm(i, own)
        elif kind == "dc" and o["extra"] and self.p(o["p_extra"]):
            rec["settings"] = (self.extra_setting(),)
        if kind == "dc" and o["check"] and own and self.p(0.3):
            fs = [f for f in own if un(f["t"]) in (INT, STR)]
            if fs:
                f = self.pick(fs)
                bad = I(3) if un(f["t"]) == INT else S("b")
                if f["d"] != bad:
                    rec["check"] = (f["n"], bad)
        if kind == "dc":
            self.inherit_defaults(i, rec)
        self.done.append(i)
        return i

    def inherit_defaults(self, i, rec):
        """A field without a default finds the default of a base class, which is a class attribute."""
        try:
            self.dummy[i] = type(i, tuple(self.dummy[b[1]] for b in rec["bases"] if b[1] in self.dummy), {})
        except TypeError as exc:
            raise BadProgram(str(exc))      # no consistent order of the bases
        own = []
        for f in rec["own"]:
            if f["dk"] == "no" and f["init"]:
                for c in self.dummy[i].__mro__[1:-1]:
                    g = next((g for g in self.decls[c.__name__]["own"] if g["n"] == f["n"] and g["dk"] == "val" and not g.get("implicit")), None)
                    if g:
                        f = dict(f, dk="val", d=g["d"], implicit=True)
                        break
            own.append(f)
        rec["own"] = tuple(own)

    def ancestors(self, i):
        return set().union(*[{b[1]} | self.ancestors(b[1]) for b in self.decls[i]["bases"] if b[0] == "cls"])

    def order_ok(self, i):
        """Fields without a default come first, as the standard library demands."""
        seen = False
        for f in self.fields(CLS(i, *[VAR(p) for p in self.decls[i]["params"]])):
            if f["init"]:
                if seen and f["dk"] == "no":
                    return False
                seen = seen or f["dk"] != "no"
        return True

    def names_clash(self, t, names, taken):
        return False

    def base_arg(self, vs):
        if not vs:
            return self.pick([INT, STR, LIST(INT), OPT(STR)] if self.o["nested_args"] else [INT, STR])
        x = self.r.random()
        if x < 0.6:
            return VAR(self.pick(vs))
        if x < 0.8 and self.o["nested_args"]:
            return self.pick([LIST, OPT, lambda t: MAP("dict", STR, t)])(VAR(self.pick(vs)))
        return self.pick([INT, STR])

    def add_cm(self, i, own):
        """A custom converter that calls methods of the class."""
        if not own:
            return
        k = f"cm{len(self.convs)}"
        given = [k for k, c in self.convs.items()]
        if given and self.p(0.7) and self.o["p_cms"] > 0.3:
            k = self.pick(given)
        else:
            ser = self.pick(["", "first", "list", "list"])
            self.convs[k] = conv("cm", ser=ser, des=self.pick(["", ser, ser, "first", "list"]), styp=self.pick([(), ("int",), ("str",), ("list",), ("int", "list"), ("list", "dict")]))
            if self.o["safe_union"]:  # it has to be possible to load what is dumped
                self.convs[k].update(des=ser, styp={"first": (), "list": ("list",)}.get(ser, ()))
        r = self.decls[i]
        if self.convs[k]["kind"] == "cm":
            r["methods"] = True
            fs = self.fields(CLS(i))
            if any(not f["init"] for f in fs) or len(fs) == 0 or any(self.is_set(f["t"], "Flattened") or self.is_set(f["t"], "Remainder") for f in fs):
                r["methods"] = False
                return
            if self.o["safe_union"]:
                simple = all(un(f["t"]) in (INT, STR, BOOL) for f in fs)
                if self.convs[k]["ser"] == "list" and not simple:
                    r["methods"] = False
                    return
                if self.convs[k]["ser"] == "first" and (len(fs) != 1 or not simple):
                    r["methods"] = False
                    return
            if "first" in (self.convs[k]["des"],) and (len(fs) > 1 and fs[1]["dk"] == "no" and any(f["dk"] == "no" for f in fs[1:])):
                r["methods"] = False
                return
        r["settings"] = (setting("JsonConverter", (k,)),)

    def new_decorated_union(self):
        """A plain base class that is decorated as a union of its subclasses."""

    def opt_ann(self, t):
        """Optional of an annotated union, with the annotation outside."""
        if t[0] == "ann" and un(t)[0] == "cls":
            return ANN(OPT(un(t)), *t[2][1])
        return OPT(t) if t[0] != "union" else t

    def cm_payload(self, t):
        """A payload as the class methods take it."""
        u = un(t)
        if u[0] == "union":
            return self.cm_payload(self.pick([m for m in u[2] if m != NONET] or [INT]))
        if u[0] == "coll" and u[2] and u[1] in ("list", "deque"):
            xs = [self.cm_payload(u[2][0]) for _ in range(self.r.randint(0, 3))]
            return L(*[x for x in xs if x is not None])
        if u[0] == "map" and u[2] and u[2][0] == STR:
            x = self.cm_payload(u[2][1])
            return D(("k", x)) if x is not None else D()
        if u[0] == "cls" and self.decls[u[1]]["kind"] == "dc" and self.p(0.8):
            fs = self.fields(u)
            x = self.r.random()
            if x < 0.5:
                vs = [self.value(f["t"], 0) for f in fs]
                return None if None in vs else L(*vs)
            if x < 0.8 and fs:
                return self.value(fs[0]["t"], 0)
            return self.any_value(1)
        return self.payload(t)

    def texts(self, kind=None):
        """Texts of dates and times in some of the formats."""
        import datetime
        from nr.date import date_format, datetime_format, time_format

        k = kind or self.pick(["date", "time", "datetime"])
        T = {"date": datetime.date, "time": datetime.time, "datetime": datetime.datetime}[k]
        out = []
        for f in self.some(DATE_FORMATS, 4, 8):
            f = f[f.index(":") + 1 :] if f[:2] in ("D:", "T:") or f[:3] == "DT:" else f
            if f[0] == "." or f.startswith("SET"):
                continue
            v = T.fromisoformat(self.pick(ISO_VALUES[k]))
            try:
                c = {"date": date_format, "time": time_format, "datetime": datetime_format}[k].compile(f)
                out.append(getattr(c, "format_" + k)(v))
            except Exception:
                pass
        out += [self.pick(ISO_VALUES[k]).replace("+00:00", "Z")]
        out += [self.pick({"date": DATES, "time": TIMES, "datetime": DTS}[k])]
        return [self.pick([" " + x, x + " ", x.lower(), x + "0"]) if self.p(0.06) else x for x in out]

    def single_fault(self, v):
        """Breaks v in one place (or leaves it alone)."""
        nodes = []

        def collect(x, path):
            nodes.append((path, x))
            if x[0] in ("seq", "set"):
                for k, y in enumerate(x[2]):
                    collect(y, path + (("i", k),))
            elif x[0] in ("map", "obj"):
                for k, (kk, y) in enumerate(x[2]):
                    collect(y, path + (("v", k),))

        collect(v, ())
        deep = max(len(p) for p, _ in nodes)
        path, x = self.pick([n for n in nodes if len(n[0]) == deep] if self.p(0.4) else nodes)
        c = self.r.random()
        if x[0] == "map" and x[1] == "dict" and c < 0.7:
            ps = list(x[2])
            if ps and c < 0.3:
                del ps[self.r.randrange(len(ps))]
            elif c < 0.5:
                ps.insert(self.r.randint(0, len(ps)), (S("zz"), I(1)))
            elif ps:
                k = self.r.randrange(len(ps))
                if ps[k][0][0] in ("int", "str", "float", "bool"):
                    ps[k] = (self.pick([V("bytes", "61"), NONE]), ps[k][1])
            y = ("map", x[1], tuple(dedup_pairs(ps)))
        elif x[0] == "seq" and c < 0.3:
            xs = list(x[2])
            if xs and c < 0.15:
                del xs[-1]
            else:
                xs.insert(self.r.randint(0, len(xs)), V("other", "object"))
            y = ("seq", x[1], tuple(xs))
        else:
            y = self.pick([V("other", "object"), V("other", "object"), V("bytes", "61"), NONE, S("?"), I(99), L(), V("other", "complex")])
        return replace(v, path, y)

    def dc_like(self):
        return [i for i in self.done if self.decls[i]["kind"] == "dc" and not any(x[0] == "Union" for x in self.decls[i]["settings"])]

    def alias(self, n, names):
        pool = [n + "1", n + "2", n + "_alias"] + ([n] if self.p(0.3) else [])
        al = self.some(pool, 1, 3)
        return setting("Alias", tuple(al), self.pick([0, 1, 1, 1, 2]) if self.o["alias_prio"] else 1)

    def flattenable(self, names, taken, rem=False):
        c = []
        for i in self.done:
            r = self.decls[i]
            if r["kind"] in ("dc", "td") and not r["params"] and not r["settings"]:
                t = CLS(i)
                try:
                    sub = {f["n"] for f in self.expand(t)}
                    keys = sub | {a for f in self.expand(t) for a in self.aliases(f)}
                except RecursionError:
                    continue
                if rem and any(self.is_set(f["t"], "Remainder") for f in self.expand(t)):
                    continue
                bad = set(names) | taken | {x + s for x in names for s in ("1", "2", "_alias")}
                if not keys & bad or (self.o["clash"] and not self.names_clash(t, names, taken)):
                    c.append((ANN(t, setting("Flattened", (True,))), keys))
        return self.pick(c) if c else None

    # -- looking at declarations (approximately what the schema is) ------------------------------------------------------

    def fields(self, t):
        t = un(t)
        r = self.decls[t[1]]
        pm = dict(zip(r["params"], t[2]))
        out = {}
        for b in reversed(r["bases"]):
            b = subst(b, pm)
            if b[0] == "cls":
                for f in self.fields(b):
                    out[f["n"]] = f
        for f in r["own"]:
            out[f["n"]] = dict(f, t=subst(f["t"], pm), total=r["total"])
        return list(out.values())

    def rest(self, v):
        """value of a Remainder field: its keys are not those of other fields"""
        return ("map", "dict", tuple((S(k), w) for k, w in zip(self.some(["q1", "q2", "q3"], 0, 2), [x[1] for x in v[2]])))

    def occurs_twice(self, i):
        """A flattened field has a field that the class, or another flattened field, also has."""
        fs = self.fields(CLS(i, *[VAR(p) for p in self.decls[i]["params"]]))
        names = {f["n"] for f in fs}
        seen = set()
        for f in fs:
            if self.is_set(f["t"], "Flattened"):
                sub = {g["n"] for g in self.expand(f["t"])} | {g["n"] for g in self.fields(f["t"])}
                if sub & (names - {f["n"]}) or sub & seen:
                    return True
                seen |= sub
        return False

    def expand(self, t):
        out = []
        for f in self.fields(t):
            if self.is_set(f["t"], "Flattened"):
                out += self.expand(f["t"])
            else:
                out.append(f)
        return out

    @staticmethod
    def is_set(t, kind):
        return t[0] == "ann" and any(s[0] == kind and s[2][0] for s in t[2][1])

    @staticmethod
    def aliases(f):
        t = f["t"]
        if t[0] == "ann":
            for s in t[2][1]:
                if s[0] == "Alias":
                    return list(s[2])
        return [f["n"]]

    def union_setting(self, t):
        for s in t[2][1] if t[0] == "ann" else ():
            if s[0] == "Union":
                return s
        u = un(t)
        if u[0] == "cls":
            for s in self.decls[u[1]]["settings"]:
                if s[0] == "Union":
                    return s
        return None

    # -- values and payloads of a type -------------------------------------------------------------------------------------

    def schema_type(self, t):
        """The type whose schema values of the type have: DeserializeAs."""
        u = un(t)
        if t[0] == "ann" and u[0] == "cls" and self.decls[u[1]]["kind"] in ("dc", "td"):
            das = [s for s in t[2][1] if s[0] == "DeserializeAs"]
            if das:
                return ANN(max(das, key=lambda s: s[1])[2][0], *[s for s in t[2][1] if s[0] != "DeserializeAs"])
        return t

    def value(self, t, depth=3):
        """A value of type t; None if there is no small one."""
        if depth < -6:
            return None
        t = self.schema_type(t)
        u = un(t)
        us = self.union_setting(t)
        if us is not None:
            ms = [m for m in us[2][3]]
            return self.value(self.pick(ms)[1], depth - 1)
        tag, name, args = u
        if tag in ("plain", "scal"):
            return self.scalar(name)
        if tag in ("any", "var"):
            return self.any_value(1)
        if tag == "nonetype":
            return NONE
        if tag == "lit":
            return self.pick(args)
        if tag == "union":
            ms = list(args)
            if NONET in ms and (depth <= 0 or self.p(0.3)):
                return NONE
            self.r.shuffle(ms)
            for m in ms:
                v = self.value(m, depth - 1)
                if v is not None:
                    return v
            return None
        if tag in ("coll", "vtuple") or (tag == "cls" and self.decls[name]["kind"] == "ucoll"):
            if tag == "coll":
                ctor, kind = name, name
                el = args[0] if args else ANY
            elif tag == "vtuple":
                ctor, kind, el = "tuple", "tuple", args[0]
            else:
                ctor, kind, el = self.decls[name]["ctor"], name, self.elem(u)
            n = 0 if depth <= 0 else self.r.randint(0, 3)
            items = []
            for _ in range(n):
                v = self.value(el, depth - 1)
                if v is not None:
                    items.append(v)
            if ctor in ("set", "frozenset", "Set", "MutableSet"):
                kind = {"Set": self.pick(["set", "frozenset"]), "MutableSet": "set"}.get(kind, kind)
                items = dedup([x for x in items if hashable(x)])
                return ("set", kind, tuple(items))
            kind = {"Sequence": self.pick(["list", "tuple", "deque"]), "MutableSequence": "list",
                    "Collection": self.pick(["list", "tuple", "list"])}.get(kind, kind)
            return ("seq", kind, tuple(items))
        if tag == "tuple":
            items = [self.value(a, depth - 1) for a in args]
            return None if None in items else ("seq", "tuple", tuple(items))
        if tag == "map" or (tag == "cls" and self.decls[name]["kind"] == "umap"):
            kt, vt = (args if args else (STR, ANY)) if tag == "map" else self.elem(u)
            kind = name if tag == "cls" else {"Mapping": "dict", "MutableMapping": "dict"}.get(name, name)
            ps = []
            for _ in range(0 if depth <= 0 else self.r.randint(0, 2)):
                k, v = self.value(kt, 0), self.value(vt, depth - 1)
                if k is not None and v is not None and k not in (V("float", "nan"),):
                    ps.append((k, v))
            return ("map", kind, tuple(dedup_pairs(ps)))
        r = self.decls[name]
        if r["kind"] in ("enum", "ienum"):
            val = self.pick(r["members"])["val"]
            return ENUM(name, next(m["n"] for m in r["members"] if m["val"] == val))
        if r["kind"] == "pc" or name not in self.done:
            return None
        ps = []
        for f in self.fields(u):
            opt = not f["init"] if r["kind"] == "dc" else False
            if opt:
                v = f["d"]
            elif f["dk"] != "no" and (depth <= 0 or self.p(0.3)):
                v = f["d"]
            else:
                v = self.value(f["t"], depth - 1)
                if v is None and f["dk"] != "no":
                    v = f["d"]
                if self.is_set(f["t"], "Remainder") and v is not None:
                    v = self.rest(v)
            if v is None:
                return None
            if r["check"] and f["n"] == r["check"][0] and v == r["check"][1]:
                v = I(2) if v[0] == "int" else S("ok")
            if r["kind"] == "td":
                fills = un(f["t"])[0] == "union" and NONET in un(f["t"])[2] or has_ann_required(f["t"])
                if not f.get("total", True) and self.p(0.4) and not (self.o["inverse"] and fills):
                    continue
                ps.append((S(f["n"]), v))
            else:
                ps.append((f["n"], v))
        if r["kind"] == "td":
            return ("map", "dict", tuple(ps))
        return OBJ(name, *ps)

    def elem(self, u):
        """item type of a user-defined collection, key/value types of a mapping"""
        seen = u
        while True:
            if seen[0] == "coll":
                return seen[2][0]
            if seen[0] == "map":
                return seen[2]
            r = self.decls[seen[1]]
            seen = subst(r["bases"][0], dict(zip(r["params"], seen[2])))

    def payload(self, t, depth=3):
        """A payload for t; it should load, though that is for the specification to say."""
        if depth < -6:
            return None
        t = self.schema_type(t)
        u = un(t)
        us = self.union_setting(t)
        if us is not None:
            if u[0] == "union" and NONET in u[2] and self.p(0.3):
                return NONE
            style, disc, nest, ms = us[2]
            if not ms:
                return D()
            mid, mt = self.pick(ms)
            pl = self.payload(mt, depth - 1)
            if pl is None:
                return None
            if style == "best_match":
                return pl
            if style == "nested":
                return D((disc, S(mid)), (nest or mid, pl))
            if style == "keyed":
                return D((mid, pl))
            if pl[0] != "map":
                return pl
            ps = list(pl[2])
            ps.insert(self.r.randint(0, len(ps)), (S(disc), S(mid)))
            return ("map", "dict", tuple(ps))
        tag, name, args = u
        if tag == "plain":
            if name == "bytes":
                return S(self.pick(B64[:3]))
            if name == "float" and self.p(0.3):
                return self.scalar("int")
            if name == "int" and self.p(0.15):
                return V("float", self.pick(["1", "3", "-0", "7"]))
            if self.p(0.12):
                return S(self.pick(NUMS + KW))
            return self.scalar(name)
        if tag == "scal":
            if name in ("decimal", "mydecimal"):
                return S(self.pick(DECS)) if self.p(0.8) else self.pick([I(3), FL(1.5), S("abc")])
            if name in ("uuid", "myuuid"):
                return S(self.pick(UUIDS[:2]))
            if name in ("path", "purepath", "mypath", "winpath"):
                return S(self.pick(["a/b", "/x", ".", "a//c"]))
            if name in ("duration", "myduration"):
                return S(self.pick(DURS))
            return S(self.pick({"date": DATES, "time": TIMES, "datetime": DTS}[name] * 2 + ISO_VALUES[name]))
        if tag in ("any", "var"):
            return self.any_value(1)
        if tag == "nonetype":
            return NONE
        if tag == "lit":
            return self.pick(args)
        if tag == "union":
            ms = list(args)
            if NONET in ms and (depth <= 0 or self.p(0.25)):
                return NONE
            self.r.shuffle(ms)
            for m in ms:
                v = self.payload(m, depth - 1)
                if v is not None:
                    return v
            return None
        if tag in ("coll", "vtuple") or (tag == "cls" and self.decls[name]["kind"] == "ucoll"):
            el = (args[0] if args else ANY) if tag != "cls" else self.elem(u)
            items = [self.payload(el, depth - 1) for _ in range(0 if depth <= 0 else self.r.randint(0, 3))]
            return ("seq", "list", tuple(x for x in items if x is not None))
        if tag == "tuple":
            items = [self.payload(a, depth - 1) for a in args]
            return None if None in items else ("seq", "list", tuple(items))
        if tag == "map" or (tag == "cls" and self.decls[name]["kind"] == "umap"):
            kt, vt = (args if args else (STR, ANY)) if tag == "map" else self.elem(u)
            ps = []
            for _ in range(0 if depth <= 0 else self.r.randint(0, 2)):
                k, v = self.payload(kt, 0), self.payload(vt, depth - 1)
                if k is not None and v is not None and k != V("float", "nan"):
                    ps.append((k, v))
            return ("map", "dict", tuple(dedup_pairs(ps)))
        r = self.decls[name]
        if r["kind"] == "ienum":
            return self.pick(r["members"])["val"]
        if r["kind"] == "enum":
            m = self.pick(r["members"])
            return S(self.pick([m["n"]] + list(m["aliases"])))
        if r["kind"] == "pc":
            return S("x")
        ps = {}
        ok = self.fill(ps, u, depth)
        if not ok:
            return None
        items = list(ps.items())
        if self.p(0.3):
            self.r.shuffle(items)
        return ("map", "dict", tuple((S(k), v) for k, v in items))

    def fill(self, ps, u, depth):
        r = self.decls[u[1]]
        for f in self.fields(u):
            if not f["init"] and r["kind"] == "dc":
                continue
            t = f["t"]
            if self.is_set(t, "Flattened"):
                if not self.fill(ps, un(t), depth - 1):
                    return False
                continue
            if self.is_set(t, "Remainder"):
                for k in self.some(["q1", "q2"], 0, 2):
                    v = self.payload(un(t)[2][1], depth - 1) if un(t)[0] == "map" and un(t)[2] else self.any_value(1)
                    if v is not None:
                        ps[k] = v
                continue
            optional = f["dk"] != "no" or (un(t)[0] == "union" and NONET in un(t)[2]) or (r["kind"] == "td" and not f.get("total", True))
            if optional and (depth <= 0 or self.p(0.35)):
                continue
            v = self.payload(t, depth - 1)
            if v is None:
                if optional:
                    continue
                return False
            al = self.aliases(f)
            ps[self.pick(al) if self.p(0.5) else al[0]] = v
            if len(al) > 1 and self.p(0.1):
                v2 = self.payload(t, 0)
                if v2 is not None:
                    ps[self.pick(al)] = v2
        return True

    # -- faults ------------------------------------------------------------------------------------------------------------

    def mutate(self, v, weird=False):
        """Replaces, adds or removes something somewhere in v."""
        nodes = []

        def collect(x, path):
            nodes.append((path, x))
            if x[0] in ("seq", "set"):
                for k, y in enumerate(x[2]):
                    collect(y, path + (("i", k),))
            elif x[0] in ("map", "obj"):
                for k, (kk, y) in enumerate(x[2]):
                    collect(y, path + (("v", k),))

        collect(v, ())
        path, x = self.pick(nodes)
        y = self.fault(x, weird)
        return replace(v, path, y)

    def fault(self, x, weird):
        c = self.r.random()
        if x[0] == "map" and c < 0.6:
            ps = list(x[2])
            if ps and c < 0.2:
                del ps[self.r.randrange(len(ps))]
            elif ps and c < 0.35:
                k = self.r.randrange(len(ps))
                ps[k] = (self.pick([S("zz"), S("a1"), S("a"), I(1)] if weird else [S("zz"), S("a1"), S("a")]), ps[k][1])
            elif ps and c < 0.42:
                k = self.r.randrange(len(ps))
                ps[k] = (ps[k][0], NONE)
            else:
                ps.append((S(self.pick(["zz", "q1", "b", "a1"])), self.any_value(1, weird)))
            return ("map", x[1], tuple(dedup_pairs(ps)))
        if x[0] == "seq" and c < 0.4:
            xs = list(x[2])
            if xs and c < 0.15:
                del xs[self.r.randrange(len(xs))]
            elif xs and c < 0.25:
                xs.append(xs[0])
            else:
                xs.append(self.any_value(0, weird))
            return ("seq", x[1], tuple(xs))
        if x[0] == "obj" and c < 0.3:
            others = [i for i in self.dcs() if i != x[1]]
            if others:
                w = self.value(CLS(self.pick(others)), 1)
                if w is not None:
                    return w
        return self.any_value(1, weird)


# ---------------------------------------------------------------------------------------------------------------------


def replace(v, path, y):
    if not path:
        return y
    (kind, k), rest = path[0], path[1:]
    xs = list(v[2])
    if kind == "i":
        xs[k] = replace(xs[k], rest, y)
        if v[0] == "set":
            if not hashable(xs[k]):
                return v
            xs = dedup(xs)
    else:
        xs[k] = (xs[k][0], replace(xs[k][1], rest, y))
    return (v[0], v[1], tuple(xs))


def hashable(v):
    return v[0] not in ("map", "set", "obj", "other") and (v[0] != "seq" or (v[1] == "tuple" and all(hashable(x) for x in v[2])))


def immutable(v):
    if v[0] in ("map", "obj", "other"):
        return False
    if v[0] == "set":
        return v[1] == "frozenset"
    if v[0] == "seq":
        return v[1] == "tuple" and all(immutable(x) for x in v[2])
    return True


def num_key(v):
    if v[0] in ("int", "float", "bool"):
        return ("num", "0" if v[1] == "-0" else v[1])
    if v[0] == "seq":
        return ("seq", v[1], tuple(num_key(x) for x in v[2]))
    return v


def dedup(xs):
    out, seen = [], set()
    for x in xs:
        k = num_key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def dedup_pairs(ps):
    out, seen = [], set()
    for k, v in ps:
        kk = num_key(k)
        if kk not in seen:
            seen.add(kk)
            out.append((k, v))
    return out


def vars_in(ts):
    out = set()
    for t in ts:
        if t[0] == "var":
            out.add(t[1])
        elif t[0] == "ann":
            out |= vars_in(t[2][:1])
        elif t[0] != "lit":
            out |= vars_in(t[2])
    return out


def u_opt(t):
    u = un(t)
    return u[0] == "union" and NONET in u[2]


def classes_of(t):
    if t[0] == "cls":
        return {t[1]}.union(*[classes_of(a) for a in t[2]])
    if t[0] == "ann":
        out = classes_of(t[2][0])
        for s in t[2][1]:
            if s[0] == "Union":
                out = out.union(*[classes_of(m) for _, m in s[2][3]])
            if s[0] == "DeserializeAs":
                out |= classes_of(s[2][0])
        return out
    if t[0] == "lit":
        return set()
    return set().union(*[classes_of(a) for a in t[2]])


def has_var(t):
    if t[0] == "var":
        return True
    if t[0] == "ann":
        return has_var(t[2][0])
    if t[0] == "lit":
        return False
    return any(has_var(a) for a in t[2])


def has_ann_required(t):
    return t[0] == "ann" and any(s[0] == "Required" for s in t[2][1])


def subst(t, pm):
    if t[0] == "var":
        return pm.get(t[1], t)
    if t[0] == "ann":
        return ANN(subst(t[2][0], pm), *t[2][1])
    if t[0] in ("lit",):
        return t
    r = (t[0], t[1], tuple(subst(a, pm) for a in t[2]))
    return canon(r)


def canon(t):
    """Unions as Python represents them."""
    if t[0] != "union":
        return t
    ms = []
    for m in t[2]:
        for x in m[2] if m[0] == "union" else (m,):
            if not any(same_py(x, y) for y in ms):
                ms.append(x)
    return ms[0] if len(ms) == 1 else ("union", "", tuple(ms))


def same_py(a, b):
    """Python considers the types equal."""
    if a[0] == "lit" and b[0] == "lit":
        return set(a[2]) == set(b[2])
    return a == b
