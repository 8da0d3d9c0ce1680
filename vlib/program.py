"""Resolved program model built from the raw extraction."""
import re
from . import build
from .build import AnalysisError


def kids(n):
    """direct child nodes (dicts with 'k') of a node, in evaluation order."""
    if isinstance(n, dict):
        k = n.get("k")
        for key in ORDER.get(k, None) or n.keys():
            v = n.get(key)
            if isinstance(v, dict):
                if "k" in v and isinstance(v.get("k"), str):
                    yield v
                else:
                    yield from kids_plain(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        if isinstance(x.get("k"), str):
                            yield x
                        else:
                            yield from kids_plain(x)


def kids_plain(d):
    for v in d.values():
        if isinstance(v, dict):
            if isinstance(v.get("k"), str):
                yield v
            else:
                yield from kids_plain(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if isinstance(x.get("k"), str):
                        yield x
                    else:
                        yield from kids_plain(x)


ORDER = {
    "For": ["i", "c", "b", "n"],
    "RangeFor": ["r", "v", "b"],
    "DoWhile": ["b", "c"],
    "If": ["init", "cv", "c", "a", "b"],
    "Try": ["b", "h"],
    "OMP": ["cl", "b"],
}


def walk(n):
    if n is None:
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        ch = list(kids(x))
        ch.reverse()
        stack.extend(ch)


def walk_nolambda(n):
    if n is None:
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if x.get("k") == "Lambda" and x is not n:
            continue
        ch = list(kids(x))
        ch.reverse()
        stack.extend(ch)


def strip(e):
    """drop casts that keep the value's identity"""
    while e and e.get("k") in ("ICast", "Cast"):
        e = e["e"]
    return e


class Program:
    def __init__(self):
        raw = build.load_raw()
        self.raw = raw
        self.funcs = raw["funcs"]
        self.records = raw["records"]
        self.enums = raw["enums"]
        self.globals = raw["globals"]
        self.hash = raw["hash"]
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.subs = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.subs.setdefault(b, []).append(r["n"])
        # virtual overriders: base mangled -> list of overriding mangled (transitive)
        self.over = {}
        for f in self.funcs.values():
            for o in f.get("ov") or []:
                self.over.setdefault(o, set()).add(f["f"])
        for r in self.records.values():
            for m in r["methods"]:
                for o in m["ov"]:
                    self.over.setdefault(o, set()).add(m["f"])

    # ---- lookup
    def q(self, name, one=True):
        r = self.by_q.get(name, [])
        if not r:
            raise AnalysisError("anchor vanished: function %s" % name)
        return r[0] if one else r

    def method(self, cls, name):
        """functions named `name` in the class whose canonical name matches cls exactly"""
        r = [f for f in self.funcs.values() if f.get("c") == cls and f["n"] == name]
        return r

    def ctors(self, cls):
        return [f for f in self.funcs.values() if f.get("c") == cls and f.get("ctor")]

    def record(self, name):
        if name not in self.records:
            raise AnalysisError("anchor vanished: type %s" % name)
        return self.records[name]

    def derived(self, cls, strict=False):
        out, st = ([] if strict else [cls]), [cls]
        while st:
            c = st.pop()
            for d in self.subs.get(c, []):
                if d not in out:
                    out.append(d)
                    st.append(d)
        return out

    def bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            r = self.records.get(c)
            if not r:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def all_fields(self, cls):
        out = []
        for c in [cls] + self.bases(cls):
            r = self.records.get(c)
            if r:
                out += [(c, f) for f in r["fields"]]
        return out

    # ---- calls
    def targets(self, call):
        """possible repo function keys for a Call/Ctor node"""
        out = []
        f = call.get("f")
        if f:
            if call.get("virt"):
                st, seen = [f], set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in self.funcs:
                        out.append(x)
                    st.extend(self.over.get(x, ()))
            elif f in self.funcs:
                out.append(f)
        if call.get("mk") and call["mk"] in self.funcs:
            out.append(call["mk"])
        return out

    def where(self, f, node=None):
        ln = (node or {}).get("l") or f["l"]
        return "%s:%s" % (f["file"], ln)

    def all_nodes(self, f):
        for i in f.get("inits") or []:
            if i.get("e"):
                yield from walk(i["e"])
        if f.get("body"):
            yield from walk(f["body"])

    def calls(self, f):
        for n in self.all_nodes(f):
            if n["k"] in ("Call", "Ctor"):
                yield n

    def func_refs(self, f):
        for n in self.all_nodes(f):
            if n["k"] == "Ref" and n.get("dk") == "func" and n.get("f") in self.funcs:
                yield n["f"], n

    def reach(self, roots, stop=lambda f: False):
        """reachable repo functions from roots (keys); returns {key: (parent, node)}"""
        seen = {}
        st = []
        for r in roots:
            if r not in seen:
                seen[r] = None
                st.append(r)
        dt = self.dtors()
        while st:
            k = st.pop()
            f = self.funcs[k]
            if stop(f):
                continue
            for c in self.calls(f):
                for t in self.targets(c):
                    if t not in seen:
                        seen[t] = (k, c)
                        st.append(t)
                if c["k"] == "Ctor" and c.get("c") in dt:
                    for t in dt[c["c"]]:
                        if t not in seen:
                            seen[t] = (k, c)
                            st.append(t)
            for t, n in self.func_refs(f):
                if t not in seen:
                    seen[t] = (k, n)
                    st.append(t)
        return seen

    def dtors(self):
        if not hasattr(self, "_dt"):
            self._dt = {}
            for f in self.funcs.values():
                if f.get("dtor"):
                    self._dt.setdefault(f["c"], []).append(f["f"])
        return self._dt

    def path(self, seen, k):
        p = []
        while k is not None:
            par = seen.get(k)
            p.append(self.funcs[k]["q"])
            k = par[0] if par else None
        return list(reversed(p))


def show(e, depth=0):
    """short source-like rendering of an expression"""
    if e is None:
        return ""
    k = e["k"]
    s = show
    if k in ("Int", "Float", "Char"):
        return str(e["v"])
    if k == "Bool":
        return "true" if e["v"] else "false"
    if k == "Str":
        return '"%s"' % e["v"]
    if k == "Null":
        return "nullptr"
    if k == "This":
        return "this"
    if k == "Ref":
        return e["n"]
    if k == "Mem":
        b = e["b"]
        return e["n"] if b and b["k"] == "This" else s(b) + ("->" if e.get("ar") else ".") + e["n"]
    if k == "Call":
        n = e.get("n") or "(%s)" % s(e.get("callee"))
        o = e.get("o")
        if e.get("op") and o is not None:
            if e["op"] in ("[]",):
                return s(o) + "[" + ",".join(map(s, e["a"])) + "]"
            if not e["a"]:
                return e["op"] + s(o)
            return s(o) + e["op"] + ",".join(map(s, e["a"]))
        pre = "" if o is None or o["k"] == "This" else s(o) + ("->" if e.get("ar") else ".")
        return pre + n + "(" + ", ".join(map(s, e["a"])) + ")"
    if k == "Ctor":
        return e["c"].replace("ldt::", "") + "(" + ", ".join(map(s, e["a"])) + ")"
    if k == "Bin":
        return "(" + s(e["a"]) + " " + e["op"] + " " + s(e["b"]) + ")"
    if k == "Un":
        return (s(e["e"]) + e["op"][:-1]) if e["op"].endswith("p") else e["op"] + s(e["e"])
    if k == "Cond":
        return "(" + s(e["c"]) + " ? " + s(e["a"]) + " : " + s(e["b"]) + ")"
    if k == "Sub":
        return s(e["b"]) + "[" + s(e["i"]) + "]"
    if k in ("ICast", "Cast"):
        return s(e["e"])
    if k == "InitList":
        return "{" + ", ".join(map(s, e["a"])) + "}"
    if k == "Throw":
        return "throw " + s(e.get("e"))
    if k == "New":
        return "new " + e["at"]
    return "<" + k + (":" + e["xk"] if k == "X" else "") + ">"
