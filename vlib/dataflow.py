"""Which parameters and which named list elements the values of a function come from (flow-insensitive, data dependences only)."""
from .program import walk, strip, kids

ASSIGN = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "^="}


def is_list(t):
    return "Rcpp::Vector<19" in (t or "") or "Rcpp::List" in (t or "") or "SEXPREC" in (t or "") or "generic_name_proxy" in (t or "") or "generic_proxy" in (t or "")


def scalar(t):
    return (t or "").replace("const ", "").replace("&", "").strip() in ("bool", "int", "double", "unsigned int", "long", "float", "char", "unsigned long")


class Flow:
    """sources: ('p', name) a parameter, ('key', text) a named element of a list"""
    fieldclass = staticmethod(lambda t: None)     # types whose fields are sources of their own

    def __init__(self, P, f, memo):
        self.P, self.f, self.memo = P, f, memo
        self.names = {p["d"]: p["n"] for p in f["p"] if "d" in p}
        self.types = {p["d"]: p["t"] for p in f["p"] if "d" in p}
        self.vals = {}            # decl -> set of sources
        self.fields = []          # (decl, field, expr, node, conditions)
        self.calls = []           # (node, callee key or None, [(param name, arg)])
        self.texts = {}
        nodes = list(P.all_nodes(f))
        for n in nodes:
            if n["k"] == "Decl":
                for v in n["v"]:
                    if "d" in v and v.get("init") is not None and ("char" in (v.get("t") or "")):
                        self.texts.setdefault(v["d"], set()).add(self.strlit(v["init"]))
        self.nodes = nodes
        for _ in range(6):
            before = {k: frozenset(v) for k, v in self.vals.items()}
            for n in nodes:
                self.visit(n)
            if {k: frozenset(v) for k, v in self.vals.items()} == before:
                break
        for n in nodes:
            if n["k"] in ("Call", "Ctor"):
                for g in self.callees(n):
                    self.calls.append((n, g, list(zip(self.P.funcs[g]["p"], n.get("a") or []))))

    def callees(self, n):
        if n["k"] == "Ctor":
            return [n["f"]] if n.get("f") in self.P.funcs and not n.get("cp") else []
        return [t for t in self.P.targets(n) if t in self.P.funcs]

    def rootvar(self, e):
        """(decl, first field) of the object e is a part of"""
        fld = None
        e = strip(e)
        while e is not None:
            k = e["k"]
            if k == "Mem":
                fld = e["n"]
                e = strip(e["b"])
            elif k == "Sub":
                e = strip(e["b"])
            elif k == "Un" and e.get("op") in ("*", "&"):
                e = strip(e["e"])
            elif k == "Cast":
                e = strip(e["e"])
            elif k == "Call" and (e.get("op") in ("[]", "->", "*") or e.get("n") in ("at", "get", "begin", "operator->", "operator*", "operator[]")):
                e = strip(e["o"] if e.get("o") is not None else (e["a"][0] if e.get("a") else None))
            elif k == "Ref":
                return e.get("d"), fld
            else:
                return None, None
        return None, None

    def put(self, d, s):
        if d is not None:
            self.vals.setdefault(d, set()).update(s)

    def visit(self, n):
        k = n["k"]
        if k == "Decl":
            for v in n["v"]:
                if "d" in v and v.get("init") is not None:
                    self.put(v["d"], self.src(v["init"]))
        elif k == "RangeFor":
            v = n.get("v")
            if isinstance(v, dict) and "d" in v:
                self.put(v["d"], self.src(n["r"]))
        elif k == "Bin" and n["op"] in ASSIGN:
            d, fld = self.rootvar(n["a"])
            self.put(d, self.src(n["b"]))
        elif k == "Call":
            o = n.get("o")
            a = n.get("a") or []
            if n.get("op") in ("=", "+="):
                d, _ = self.rootvar(o if o is not None else a[0])
                self.put(d, set().union(*[self.src(x) for x in (a if o is not None else a[1:])] or [set()]))
                return
            gs = self.callees(n)
            if gs:
                for g in gs:
                    out = summary(self.P, g, self.memo)
                    for i, ins in out.items():
                        s = set()
                        for j in ins:
                            if j == "this":
                                s |= self.src(o) if o is not None else set()
                            elif isinstance(j, int) and j < len(a):
                                s |= self.src(a[j])
                            elif isinstance(j, tuple):
                                s.add(j)
                        if i == "this":
                            if o is not None:
                                self.put(self.rootvar(o)[0], s)
                        elif i < len(a):
                            self.put(self.rootvar(a[i])[0], s)
            elif o is not None and not n.get("cm") and a and not is_list(strip(o).get("t")):
                self.put(self.rootvar(o)[0], set().union(*[self.src(x) for x in a]))

    def src(self, e):
        e = strip(e)
        if e is None:
            return set()
        k = e["k"]
        if k == "Ref":
            d = e.get("d")
            s = set(self.vals.get(d, ()))
            if d in self.names:
                s.add(("p", self.names[d]))
            return s
        if k == "Lambda":
            s = set()
            for x in walk(e.get("body")):
                if x["k"] == "Ref":
                    s |= self.src(x)
            return s
        if k == "Cond":
            return (self.src(e["a"]) | self.src(e["b"])) or self.src(e["c"])
        if k == "Mem":
            c = self.fieldclass(strip(e["b"]).get("t")) if strip(e["b"]) else None
            if c:
                return {("fld", c + "." + e["n"])}
        if k in ("Call", "Sub", "Ctor"):
            parts = [x for x in ([e.get("o")] + list(e.get("a") or []) if k != "Sub" else [e["b"], e["i"]]) if x is not None]
            s = set()
            lists = any(is_list(strip(x).get("t")) for x in parts if strip(x))
            if (k == "Sub" or e.get("op") == "[]" or e.get("n") == "at") and len(parts) == 2 and not lists:
                i = strip(parts[1])
                while i is not None and i["k"] == "Cast":
                    i = strip(i["e"])
                b = self.src(parts[0])
                if i is not None and i["k"] in ("Int", "Lit", "Num") and len(b) == 1 and next(iter(b))[0] == "p":
                    return {("p", "%s[%s]" % (next(iter(b))[1], i.get("v")))}
            for x in parts:
                t = self.strlit(x)
                if t is not None:
                    if lists:
                        s.add(("key", t))
                else:
                    s |= self.src(x)
            return s
        s = set()
        for c in kids(e):
            if isinstance(c, dict):
                s |= self.src(c)
        return s

    def strlit(self, x):
        x = strip(x)
        n = 0
        while x is not None and n < 8:
            n += 1
            if x["k"] == "Str":
                return x["v"]
            if x["k"] in ("Cast",):
                x = strip(x["e"])
            elif x["k"] == "Ctor" and x.get("a") and ("basic_string" in (x.get("c") or "")):
                x = strip(x["a"][0])
            elif x["k"] == "Ref" and x.get("d") in self.texts and len(self.texts[x["d"]]) == 1:
                return next(iter(self.texts[x["d"]]))
            else:
                return None
        return None


def summary(P, g, memo):
    """which mutable parameters (and this) take values from which parameters: {i: {j | 'this' | ('key', ..)}}"""
    if g in memo:
        return memo[g]
    memo[g] = {}
    f = P.funcs[g]
    if not f.get("body") or not f["file"].startswith("Rpackage"):
        # library code: an object method takes the values of its arguments
        out = {}
        if not f.get("const") and f.get("c") and not f.get("static"):
            out["this"] = set(range(len(f["p"])))
        memo[g] = out
        return out
    fl = Flow(P, f, memo)
    idx = {p["n"]: i for i, p in enumerate(f["p"])}
    out = {}
    for i, p in enumerate(f["p"]):
        t = p["t"]
        if t.rstrip().endswith("&") and not t.startswith("const") and "d" in p:
            s = fl.vals.get(p["d"], set())
            out[i] = {idx[x[1]] if x[0] == "p" and x[1] in idx else x for x in s if not (x[0] == "p" and idx.get(x[1]) == i)}
    memo[g] = out
    return out
