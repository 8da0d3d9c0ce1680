"""F01: values of different frequency classes are never confused."""
from ..program import walk, strip
from ..absint import K, is_k, sub, add, eq0, tnot, TRUE, ZERO, ONE, subterms, State, base_type, tshow
from ..events import Recorder, conj
from ..strings import StringEval, text, only
from ..bounds import implies

LEVEL = "other"
TECHNIQUE = ("symbolic evaluation: the text and class text every frequency class prints are evaluated as symbolic strings and read back through the "
             "library's own parser, class by class; every downcast and every binary operation is checked for a preceding class test on its path")
NOTE = ("For every frequency class and all field values: what Frequency::Parse (and ParseList) constructs from the printed text and class text is an "
        "object of the type and class that printed them, with the fields the class uses equal to the originals. CompareTo and Minus of every class "
        "return only after CheckClassEquality on both operands, which refuses unless classes and class texts agree; every other downcast of a "
        "frequency tests the type itself or is reached only under a test of its class. Characters inside the items of a list are assumed not to contain the separators "
        "(semicolon, the prefix out_item:); numbers are assumed to print as digits.")
EXPLANATION = NOTE

SRC, OUT = ("p", "source"), ("p", "out")


def derived(P):
    out = {}
    for r in P.records.values():
        if "ldt::Frequency" in [b if isinstance(b, str) else b.get("n") for b in r.get("bases") or []]:
            out[r["n"]] = r
    return out


def enumerators(P):
    e = P.enums.get("ldt::FrequencyClass")
    vs = e.get("v") or e.get("e") or e.get("vals") or e
    if isinstance(vs, dict):
        return {k: v for k, v in vs.items() if isinstance(v, int)}
    return {x["n"]: x["v"] for x in vs} if vs and isinstance(vs[0], dict) else {a: b for a, b in vs}


class FreqEval(StringEval):
    """symbolic strings, with the library's own conversions inside"""

    def __init__(self, P, types, alphabets=None):
        super().__init__(P)
        self.types = types
        self.alphabets = alphabets or {}
        self.reads = set()
        self.created = {}
        self.sets = None

    def on_store(self, loc, val, node, st, fr):
        super().on_store(loc, val, node, st, fr)
        if self.sets is not None and loc == ("fld", OUT, "mClass"):
            self.sets.append((val, st.facts))

    def chars(self, p):
        if p[0] == "cls":
            return self.alphabets.get("cls")
        if p[0] == "val":
            return self.alphabets.get("val")
        return super().chars(p)

    def starts(self, x, lit):
        # an item of a list: its text is free (stated in the note)
        if x[1] and not isinstance(x[1][0], str) and x[1][0][0] == "text":
            return False
        return super().starts(x, lit)

    def read_al(self, loc, st):
        if loc[0] == "fld" and isinstance(loc[2], str):
            self.reads.add((loc[1], loc[2]))
        return super().read_al(loc, st)

    def want_inline(self, fkey, node, frame):
        f = self.P.funcs.get(fkey)
        return bool(f and f.get("body") and ((f.get("c") or "") in self.types or (f.get("c") or "") in ("ldt::Frequency", "ldt::DayOfWeekRange")))

    def on_new(self, node, cls, args, obj, st, fr):
        super().on_new(node, cls, args, obj, st, fr)
        self.created.setdefault(obj, cls)

    def model_call(self, e, name, obj, args, st, fr):
        q, oc = e.get("q") or "", base_type(e.get("oc") or "")
        R = [self.rv(a, st) for a in args]
        if name == "ToClassString" and obj is not None and obj[0] == "F":
            return ("S", (("cls", obj),))
        if name == "ToString" and obj is not None and obj[0] == "F" and oc in self.types:
            return ("S", (("val", obj),))
        if name == "ToString" and oc == "ldt::DayOfWeekRange" and obj is not None:
            return ("S", (("range", obj),))
        if q == "ldt::DayOfWeekRange::Parse" and R:
            return only(R[0], "range")
        if q == "ldt::ToString" and R and "DayOfWeek" in " ".join(e.get("pt") or []):
            return ("S", (("dow", R[0]),))
        if name == "FromString_DayOfWeek" and R:
            return only(R[0], "dow")
        if q == "ldt::Frequency::GetClass" and R:
            m = only(R[0], "cls")
            if m is not None:
                return ("ap", "classof", m)
        if name == "Join" and R:
            return ("S", (("items", R[0]),))
        if name == "Parse0" and len(R) >= 3:
            m = only(R[0], "val")
            if m is not None and only(R[1], "cls") == m and R[2] == ("ap", "classof", m):
                dst = args[-1]
                if dst[0] == "loc":
                    dst = self.loc_obj(dst[1])
                g = self.P.funcs.get(e.get("f"))
                if g and (g.get("c") or "") == self.member_type(m):
                    self.copy_obj(m, dst, st)
                    return K(None)
        return super().model_call(e, name, obj, args, st, fr)

    def member_type(self, m):
        for r in self.types.values():
            for x in r.get("fields", []):
                if x["n"] == m[2]:
                    return base_type(x["t"])
        return None


def printed(P, types, f, obj, cls, facts=(), params=()):
    """what a printing method returns for a class; None when it refuses"""
    e = FreqEval(P, types)
    st = State()
    st.env[("fld", obj, "mClass")] = K(cls)
    st, v = e.run(f["f"], this=obj, args=list(params), state=st, facts=facts)
    if st is None or v is None or v == ("dead",):
        return None, e
    v = e.rv(v, st)
    return text(v) or ("S", (("text", v),)), e


def run(P, rep):
    types = derived(P)
    rep.need("frequency types", 6, len(types))
    classes = enumerators(P)
    rep.need("frequency classes", 18, len(classes))
    byname = {}
    for f in P.funcs.values():
        if f.get("body") and ((f.get("c") or "") in types or (f.get("c") or "") == "ldt::Frequency"):
            byname.setdefault((f["c"], f["n"]), []).append(f)
    one = lambda c, n: (byname.get((c, n)) or [None])[0]

    # ---------------------------------------------------------- who prints what
    serves = {}
    for t in sorted(types):
        g = one(t, "ToClassString")
        if not rep.ob("a frequency type prints its class", g is not None, P.where(g, g) if g else t, t, key=t):
            continue
        for n, v in sorted(classes.items()):
            if "List<" in t or t.endswith("CrossSection"):
                if v != own_class(P, types, t, byname):
                    continue
            s, _ = printed(P, types, g, SRC, v, params=[K(False)])
            if s is not None:
                serves.setdefault(v, []).append((t, s))
    alphabet = {"cls": set(), "val": set("0123456789")}
    week = [s for v in serves for t, s in serves[v] if t.endswith("WeekBased")]
    ok = bool(week)
    for s in week:
        for p in s[1]:
            cs = set(p) if isinstance(p, str) else StringEval(P).chars(p)
            if cs is None:
                ok = False
            else:
                alphabet["cls"] |= cs
    names = {v: n for n, v in classes.items()}
    for n, v in sorted(classes.items()):
        who = serves.get(v) or []
        rep.ob("exactly one frequency type has the class", len(who) == 1, "include/frequency.h", "%s: %s" % (n, ", ".join(t for t, _ in who) or "none"), key=n)
    rep.ob("the class texts of week-based frequencies are known", ok, "src/frequency/f_week_based.cpp", "characters %s" % "".join(sorted(alphabet["cls"])), key="alphabet")
    seen = {}
    for v, who in serves.items():
        for t, s in who:
            k = shape(s)
            rep.ob("no two classes print the same class text", k not in seen, P.where(one(t, "ToClassString"), one(t, "ToClassString")), "%s: %s" % (names[v], k), key=k)
            seen[k] = v
    # ---------------------------------------------------------- and read it back
    parse = one("ldt::Frequency", "Parse")
    rep.need("the frequency parser", 1, 1 if parse else 0)
    for v, who in sorted(serves.items()):
        for t, s in who:
            roundtrip(P, rep, types, byname, parse, names[v], v, t, s, alphabet)
    for t in sorted(types):
        if "List<" in t:
            lists(P, rep, types, byname, t, classes, names, serves, alphabet)
    weekrange(P, rep, types)
    # ---------------------------------------------------------- combination
    same(P, rep, types, byname)
    casts(P, rep, types, serves, names)


def own_class(P, types, t, byname):
    """the class a type's constructors always set (None when it depends on the arguments)"""
    vals = set()
    for f in P.funcs.values():
        if f.get("ctor") and f.get("c") == t and f.get("body") and f["p"] and not any(t in p["t"] for p in f["p"]):
            e = FreqEval(P, types)
            st, _ = e.run(f["f"], this=OUT)
            x = e.read_al(("fld", OUT, "mClass"), st) if st is not None else None
            vals.add(x)
    if len(vals) == 1:
        x = vals.pop()
        return x[1] if x and is_k(x) else None
    return None


def shape(s):
    return "".join(p if isinstance(p, str) else "<%s>" % p[0] for p in s[1])


def fixed(P, types, t, cls):
    """facts about the fields that the constructors establish for a class"""
    def q(field, value):
        some = False
        for f in P.funcs.values():
            if not f.get("ctor") or f.get("c") != t or not f.get("body") or not f["p"] or any(t in p["t"] for p in f["p"]):
                continue
            e = FreqEval(P, types)
            e.sets = []
            st, _ = e.run(f["f"], this=OUT)
            if st is None:
                continue
            x = e.read_al(("fld", OUT, field), st)
            for val, facts in e.sets:
                for c, conds in cases(val, ()):
                    if is_k(c) and c != K(cls):
                        continue
                    some = True
                    if not implies(list(facts) + list(st.facts) + list(conds), eq0(sub(x, value)), lambda a: False):
                        return False
        return some
    return q


def cases(val, conds):
    if val[0] == "ite":
        return cases(val[2], conds + (val[1],)) + cases(val[3], conds + (tnot(val[1]),))
    return [(val, conds)]


def fields_used(P, types, byname, t, cls):
    """fields whose value matters to the operations of the class"""
    out = set()
    for n in ("Next", "Minus", "CompareTo", "ToString", "ToClassString"):
        for f in byname.get((t, n)) or []:
            e = FreqEval(P, types)
            st = State()
            st.env[("fld", SRC, "mClass")] = K(cls)
            e.run(f["f"], this=SRC, args=[K(False)] if n == "ToClassString" else None, state=st)
            out |= {x for o, x in e.reads if o == SRC}
    return out & {x["n"] for x in types[t].get("fields", [])}


def roundtrip(P, rep, types, byname, parse, name, v, t, s, alphabet):
    g = byname[(t, "ToString")][0]
    cases = [()]
    if any(x["n"] == "OutIndex" for x in types[t].get("fields", [])):
        oi = ("f", SRC, "OutIndex", 0)
        cases = [(eq0(oi),), (tnot(eq0(oi)),)]
    where = P.where(parse, parse)
    for facts in cases:
        txt, _ = printed(P, types, g, SRC, v, facts)
        if not rep.ob("a class prints its values", txt is not None, P.where(g, g), name, key="%s %d" % (name, len(facts))):
            continue
        label = "%s: \"%s\" of class \"%s\"" % (name, shape(txt), shape(s))
        back(P, rep, types, byname, parse, label, name, v, t, txt, s, facts, alphabet, where)


def back(P, rep, types, byname, parse, label, name, v, t, txt, s, facts, alphabet, where, items=None):
    e = FreqEval(P, types, alphabet)
    st = State()
    st.env[("fld", SRC, "mClass")] = K(v)
    args = []
    n = 0
    for p in parse["p"]:
        if base_type(p["t"]) in ("std::string", "std::basic_string<char>"):
            args.append((txt, s)[n])
            n += 1
        elif "FrequencyClass" in p["t"]:
            args.append(("loc", ("fld", ("p", "$caller"), "fClass")))
        else:
            args.append(items)
    st, r = e.run(parse["f"], this=None, args=args, state=st, facts=facts)
    ok = st is not None and r is not None and r != ("dead",)
    rep.ob("what a class prints is accepted", ok, where, label, key="%s accepted %s" % (name, shape(txt)))
    if not ok:
        return
    r = e.rv(r, st)
    o = e.read_al(("fld", r, "$p"), st)
    made = e.created.get(o)
    rep.ob("what a class prints is read as the type that printed it", made == t, where, "%s: %s" % (label, made), key="%s type %s" % (name, shape(txt)))
    if made != t:
        return
    c = e.read_al(("fld", o, "mClass"), st)
    rep.ob("what a class prints is read as the same class", same_value(st, c, K(v)), where, "%s: class %s" % (label, tshow(c)[:60]), key="%s class %s" % (name, shape(txt)))
    fc = e.read_al(("fld", ("p", "$caller"), "fClass"), st)
    rep.ob("the parser reports the class it read", same_value(st, fc, K(v)), where, "%s: class %s" % (label, tshow(fc)[:60]), key="%s reports %s" % (name, shape(txt)))
    used = fields_used(P, types, byname, t, v)
    rep.did("fields compared", len(used))
    q = fixed(P, types, t, v)
    for x in sorted(types[t].get("fields", []), key=lambda x: x["n"]):
        if x["n"] not in used or x["n"] == "pItems":
            continue
        ok = True
        if e.isobj(x["t"]):
            a, b = ("F", o, x["n"]), ("F", SRC, x["n"])
            ok = origin(st, a) == b
            got = origin(st, a)
        else:
            got = e.read_al(("fld", o, x["n"]), st)
            want = ("f", SRC, x["n"], 0)
            ok = same_value(st, got, want) or is_k(got) and (
                implies(list(st.facts), eq0(sub(want, got)), lambda a: False) if not isinstance(got[1], str) and got[1] is not None else False) \
                or is_k(got) and isinstance(got[1], int) and q(x["n"], got)
            if not ok and x["n"] == "mValue" and facts and facts[0][0] == "not":
                ok = True           # outside the list there is no item: the distance to the list is the value
        rep.ob("what a class prints is read as the same value", ok, where, "%s: %s is %s" % (label, x["n"], tshow(got)[:80]), key="%s %s %s" % (name, x["n"], shape(txt)))


def origin(st, a):
    seen = set()
    while a not in seen:
        seen.add(a)
        b = st.env.get(("alias", a))
        if b is None:
            return a
        a = b
    return a


def same_value(st, a, b):
    if a == b:
        return True
    t = text(a) if isinstance(a, tuple) else None
    if t and len(t[1]) == 1 and t[1][0] == ("text", b):
        return True
    return False


def lists(P, rep, types, byname, t, classes, names, serves, alphabet):
    """ParseList refuses a class text of any other class"""
    f = (byname.get((t, "ParseList")) or [None])[0]
    if not rep.ob("a list is read with its items", f is not None, P.where(f, f) if f else t, t, key=t):
        return
    where = P.where(f, f)
    own = own_class(P, types, t, byname)
    for v, who in sorted(serves.items()):
        for u, s in who:
            label = "%s given the class text \"%s\"" % (t.replace("ldt::", ""), shape(s))
            if v == own:
                g = byname[(t, "ToString")][0]
                oi = ("f", SRC, "OutIndex", 0)
                for facts in ((eq0(oi),), (tnot(eq0(oi)),)):
                    txt, _ = printed(P, types, g, SRC, v, facts)
                    if txt is not None:
                        back(P, rep, types, byname, f, "ParseList " + names[v], "ParseList " + names[v], v, t, txt, s, facts, alphabet, where, ("p", "items"))
                continue
            e = FreqEval(P, types, alphabet)
            st = State()
            st, r = e.run(f["f"], args=[("S", (("text", ("p", "str")),)), s, ("loc", ("fld", ("p", "$caller"), "fClass")), ("p", "items")], state=st)
            rep.ob("a list is not made from the class text of another class", st is None or r is None or r == ("dead",), where, label, key=label)


def weekrange(P, rep, types):
    r = P.records.get("ldt::DayOfWeekRange")
    ts = next((f for f in P.funcs.values() if f.get("c") == "ldt::DayOfWeekRange" and f["n"] == "ToString" and f.get("body")), None)
    ps = next((f for f in P.funcs.values() if f.get("c") == "ldt::DayOfWeekRange" and f["n"] == "Parse" and f.get("body")), None)
    rep.need("printer and parser of a range of days", 2, bool(ts) + bool(ps))
    if not ts or not ps:
        return
    e = FreqEval(P, types)
    st, v = e.run(ts["f"], this=SRC)
    s = text(e.rv(v, st)) if st is not None else None
    st, o = e.run(ps["f"], args=[s]) if s else (None, None)
    ok = st is not None and o is not None and o != ("dead",)
    o = e.rv(o, st) if ok else None
    for x in r.get("fields", []):
        got = e.read_al(("fld", o, x["n"]), st) if ok else None
        rep.ob("what a class prints is read as the same value", ok and got == ("f", SRC, x["n"], 0), P.where(ps, ps),
               "DayOfWeekRange: %s" % x["n"], key="DayOfWeekRange %s" % x["n"])


# ------------------------------------------------------------ combination
class Same(Recorder):
    """records which pairs have passed the class test on the path"""
    checkers = ()

    def isfreq(self, t):
        b = base_type(t).rstrip("*").strip()
        return b == "ldt::Frequency" or b in self.types

    def want_inline(self, fkey, node, frame):
        f = self.P.funcs.get(fkey)
        if not f or not f.get("body") or fkey in self.checkers or frame.depth >= 4:
            return False
        c = f.get("c") or ""
        return (c in self.types or c == "ldt::Frequency") and f["n"] not in self.overrides and any(self.isfreq(p["t"]) for p in f["p"])

    def model_call(self, e, name, obj, args, st, fr):
        if e.get("f") in self.checkers:
            i, j = self.checkers[e["f"]]
            ops = [obj if k < 0 else args[k] for k in (i, j)]
            ops = [origin(st, self.loc_obj(o[1]) if o[0] == "loc" else o) for o in ops]
            st.facts = frozenset(st.facts | {("tr", ("same",) + tuple(sorted(ops, key=repr)))})
            return K(None)
        return None

    def ev(self, e, st, fr, lv=False, stmt=False):
        v = super().ev(e, st, fr, lv, stmt)
        if e is not None and e["k"] == "Cast" and not self.quiet and self.isfreq(e.get("t") or "") and self.isfreq(e.get("ft") or e["e"].get("t") or ""):
            a, b = base_type(e.get("ft") or e["e"].get("t") or "").rstrip("* "), base_type(e["t"]).rstrip("* ")
            if b in self.types and a != b:
                o = v
                if o[0] == "loc":
                    o = self.loc_obj(o[1])
                self.downs.append((e, o, b, st.facts, fr, st.copy()))
        return v


def class_texts(P, f):
    """local strings that are the class text of an operand and nothing else: their declaration -> the operand"""
    out, other = {}, set()
    for n in P.all_nodes(f):
        if n["k"] == "Decl":
            for v in n["v"]:
                e = strip(v["init"]) if v.get("init") else None
                while e is not None and e["k"] == "Ctor" and len(e.get("a") or []) == 1:
                    e = strip(e["a"][0])
                if e is not None and e["k"] == "Call" and e.get("n") == "ToClassString" and e.get("o") is not None:
                    o = strip(e["o"])
                    if o["k"] == "This":
                        out[v["d"]] = ("this",)
                    elif o["k"] == "Ref" and any(o["n"] == p["n"] for p in f["p"]):
                        out[v["d"]] = ("p", o["n"])
        elif n["k"] == "Call" and n.get("o") is not None and n.get("n") not in ("c_str", "size", "length", "data", "compare", "empty"):
            other.add(strip(n["o"]).get("d"))
    return {d: o for d, o in out.items() if d not in other}


def checker(P, f, types):
    """does the function return only when its two operands have the same class and class text?"""
    if not f.get("body"):
        return None
    ops = [i for i, p in enumerate(f["p"]) if base_type(p["t"]) == "ldt::Frequency" or base_type(p["t"]) in types]
    if len(ops) == 1 and not f.get("static") and f.get("c") in set(types) | {"ldt::Frequency"}:
        ops = [-1] + ops
    if len(ops) != 2 or f.get("rt") not in ("void", None):
        return None
    e = Recorder(P)
    st, _ = e.run(f["f"])
    if st is None:
        return None
    o = [("this",) if i < 0 else ("p", f["p"][i]["n"]) for i in ops]
    a, b = (("f", x, "mClass", 0) for x in o)
    named = class_texts(P, f)
    if not implies(st.facts, eq0(sub(a, b)), lambda t: False):
        return None
    for c in conj(st.facts):
        for x in subterms(c):
            if isinstance(x, tuple) and x[:1] == ("ap",) and str(x[1]).split("::")[-1] in ("AreEqual_i", "AreEqual", "==") or \
                    isinstance(x, tuple) and x[:1] == ("tr",):
                ts = [y[2] for y in subterms(x) if isinstance(y, tuple) and y[:2] == ("ap", "ToClassString")]
                ts += [named[y[3]] for y in subterms(x) if isinstance(y, tuple) and y[:1] == ("L",) and len(y) > 3 and y[3] in named]
                if set(ts) == set(o) and (c in (x, ("tr", x), ("not", ("eq0", x)))):
                    return tuple(ops)
    return None


def same(P, rep, types, byname):
    checkers = {}
    for k, f in P.funcs.items():
        if f["file"].startswith("src/") or f["file"].startswith("include/"):
            if sum(1 for p in f["p"] if "Frequency" in p["t"]) in (1, 2) and f.get("rt") == "void":
                c = checker(P, f, types)
                if c:
                    checkers[k] = c
    base = [f for f in byname.get(("ldt::Frequency", "CheckClassEquality")) or []]
    for f in base:
        rep.ob("the class test refuses operands of different classes", f["f"] in checkers, P.where(f, f), f["q"].replace("ldt::", ""), key=f["n"])
    rep.need("functions that compare the classes of two frequencies", 1, len(checkers))
    Same.checkers, Same.types, Same.overrides = checkers, types, ("CompareTo", "Minus", "Next", "Clone")
    n = 0
    for t in sorted(types):
        for m in ("CompareTo", "Minus"):
            fs = [f for f in byname.get((t, m)) or [] if len(f["p"]) == 1]
            rep.ob("a frequency type can be combined", bool(fs), types[t].get("file") or "include/frequency.h", "%s::%s" % (t, m), key="%s::%s" % (t, m))
            for f in fs:
                e = Same(P)
                e.downs = []
                e.run(f["f"])
                want = ("tr", ("same",) + tuple(sorted([("this",), ("p", f["p"][0]["n"])], key=repr)))
                for v in e.events:
                    if v.kind == "return" and v.fr.f is f:
                        n += 1
                        rep.ob("two frequencies are combined only after their classes have been compared", want in v.facts, P.where(f, v.node),
                               f["q"].replace("ldt::", ""), key="%s" % f["q"])
    rep.need("results of combining two frequencies", 12, n)
    # the order tests all ask CompareTo
    ops = {"IsEqualTo": "==", "IsNewerThan": ">", "IsEqualOrNewerThan": ">=", "IsOlderThan": "<", "IsEqualOrOlderThan": "<="}
    for m in sorted(ops):
        for f in byname.get(("ldt::Frequency", m)) or []:
            e = Recorder(P)
            st, v = e.run(f["f"])
            calls = [x for x in e.events if x.kind == "call" and x.name in ("CompareTo", "Minus") and x.obj == ("this",) and x.args == [("p", f["p"][0]["n"])]]
            rep.ob("an order test compares the two frequencies", bool(calls) and all(any(y.node is x.node for y in e.events) for x in calls),
                   P.where(f, f), f["q"].replace("ldt::", ""), key=m)


def casts(P, rep, types, serves, names):
    """downcasts elsewhere are under a test of the class"""
    n = 0
    for k, f in sorted(P.funcs.items()):
        if not f.get("body") or f["file"].startswith("/"):
            continue
        sites = [x for x in walk(f["body"]) if x.get("k") == "Cast" and any(t.split("<")[0] in (x.get("t") or "") for t in types)]
        if not sites:
            continue
        e = Same(P)
        e.downs = []
        e.run(f["f"])
        met = set()
        for node, o, b, facts, fr, st in e.downs:
            met.add(id(node))
            n += 1
            src = origin(st, o)
            ok = any(c[0] == "tr" and c[1][:1] == ("same",) and src in c[1][1:] and ("this",) in c[1][1:] for c in facts) and f.get("c") == b
            if node.get("ck") == "dynamic":
                rep.did("downcasts that test the type themselves")
                ok = True           # refuses an object of another type
            if not ok:
                own = [v for v, who in serves.items() if any(t == b for t, _ in who)]
                cls = e.read_al(("fld", o, "mClass"), st)
                cases = set()
                for x in own:
                    cases.add(eq0(sub(cls, K(x))))
                from ..absint import tor
                ok = implies(facts, tor(*cases), lambda a: False) if cases else False
            rep.ob("a frequency is treated as one of a type only after a test", ok, P.where(f, node), "%s: as %s" % (f["q"].replace("ldt::", ""), b.replace("ldt::", "")),
                   key="%s %s" % (f["q"], b))
    rep.need("downcasts of frequencies", 15, n)
