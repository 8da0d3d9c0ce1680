"""Facts about how options travel from R to the engine (used by rule O01 and by tool/options.py)."""
import re
from .program import walk, strip, kids, show
from .dataflow import Flow, summary, is_list, scalar
from .rast import rfunctions, rcalls, rwalk

OPT = ["SearchData", "SearchCombinations", "SearchOptions", "SearchModelChecks", "SearchItems", "SearchMetricOptions", "RocOptions", "PcaAnalysisOptions",
       "LimitedMemoryBfgsbOptions", "Newton", "NelderMead"]


def plain(q):
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def optclass(t):
    t = plain((t or "").replace("const ", "").replace("&", "").replace("*", "").strip()).split("::")[-1].strip()
    return t if t in OPT else None


def fieldclass(t):
    c = optclass(t)
    return c if c and c.startswith("Search") else None


Flow.fieldclass = staticmethod(fieldclass)


def glue(P):
    return [f for f in P.funcs.values() if f["file"].startswith("Rpackage/") and f.get("body") and not f.get("c")]


class Facts:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.flow = {}
        self.P_ = {}
        self.assigns = []        # (class, field, keys, cond keys+params, how, node, f, castbad)
        for f in glue(P):
            self.flow[f["f"]] = Flow(P, f, self.memo)
        for f in glue(P):
            self.fields(f)

    # -- fields of option structures
    def fields(self, f):
        fl = self.flow[f["f"]]

        def go(n, conds):
            if n is None:
                return
            k = n["k"]
            if k == "If":
                go(n.get("init"), conds)
                go(n.get("cv"), conds) if isinstance(n.get("cv"), dict) and "k" in n["cv"] else None
                go(n["c"], conds)
                go(n["a"], conds + [n["c"]])
                go(n.get("b"), conds + [n["c"]])
                return
            if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                self.note(f, fl, n["a"], [n["b"]], n["op"], n, conds)
            if k == "Call":
                o = n.get("o")
                a = n.get("a") or []
                if n.get("op") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    self.note(f, fl, o if o is not None else a[0], a if o is not None else a[1:], n["op"], n, conds)
                elif o is not None and not n.get("cm") and a and n.get("n") in ("SetData", "push_back", "insert", "emplace_back", "assign", "emplace", "insert_or_assign"):
                    self.note(f, fl, o, a, "=", n, conds)
            for c in kids(n):
                if isinstance(c, dict):
                    go(c, conds)
        go(f["body"], [])

    def note(self, f, fl, lhs, rhs, op, node, conds):
        e = strip(lhs)
        while e is not None and (e["k"] == "Sub" or e["k"] == "Call" and (e.get("op") == "[]" or e.get("n") in ("at",))):
            e = strip(e["b"] if e["k"] == "Sub" else e["o"] if e.get("o") is not None else e["a"][0])
        if e is None or e["k"] != "Mem":
            return
        cls = optclass(strip(e["b"]).get("t") or e["b"].get("t"))
        inner = e
        while cls is None and inner["k"] == "Mem":
            inner = strip(inner["b"])
            if inner is None:
                return
            if inner["k"] == "Mem":
                cls = optclass(strip(inner["b"]).get("t"))
                if cls:
                    e = inner
                    break
        if cls is None:
            return
        s = set().union(*[fl.src(x) for x in rhs])
        keys = {x[1] for x in s if x[0] in ("key", "fld")}
        pars = {x[1] for x in s if x[0] == "p"}
        cs = set()
        for c in conds + [x["c"] for r in rhs for x in walk(r) if x["k"] == "Cond"]:
            cs |= {"%s" % x[1] if x[0] in ("key", "fld") else "(%s)" % x[1] for x in fl.src(c)}
        how = None
        if not keys and not pars:
            how = op + " " + ",".join(show(x) for x in rhs)
        ar = self.arith(fl, rhs, 0)
        t = e.get("t")
        cast = self.cast(fl, rhs, t, 0)
        self.assigns.append({"c": cls, "f": e["n"], "keys": keys, "pars": {p for p in pars if scalar(fl.types.get(self.decl(fl, p)) or "")}, "cond": cs, "const": how,
                             "arith": ar, "cast": cast, "node": node, "fn": f})

    def decl(self, fl, name):
        for d, n in fl.names.items():
            if n == name:
                return d

    def arith(self, fl, es, depth):
        """an operation that changes the value on the way"""
        for e in es:
            for n in walk(e):
                if n["k"] == "Bin" and n["op"] in ("+", "-", "*", "/", "%") and fl.src(n):
                    return show(n)
                if n["k"] == "Un" and n["op"] in ("-", "!", "~") and fl.src(n) and not (n["op"] == "-" and not fl.src(n["e"])):
                    return show(n)
                if n["k"] == "Call" and (n.get("q") or "").startswith("std::") and n.get("n") in ("min", "max", "abs", "fabs", "round", "floor", "ceil", "sqrt") and fl.src(n):
                    return show(n)
        return None

    def cast(self, fl, es, t, depth):
        """a floating-point setting read as an integer or a truth value"""
        t = (t or "").replace("const ", "").strip()
        if t not in ("double", "int"):
            return None
        for e in es:
            for n in walk(e):
                if n["k"] == "Call" and (n.get("q") or "").startswith("Rcpp::as") and n.get("t") in ("bool", "int", "double"):
                    if t == "double" and n["t"] != "double" or t == "int" and n["t"] == "bool":
                        return "as<%s>" % n["t"]
        return None

    # -- arguments
    def pairs(self, f, depth=0):
        """{(callee, parameter): [(sources, node, literal)]} with the arguments that f gives, helpers of the glue included"""
        if (f["f"], depth) in self.P_:
            return self.P_[(f["f"], depth)]
        fl = self.flow[f["f"]]
        out = {}
        gl = self.flow
        for n, g, pa in fl.calls:
            G = self.P.funcs[g]
            q = plain(G["q"])
            for p, a in pa:
                s = frozenset(x[1] for x in fl.src(a) if x[0] in ("p", "fld"))
                out.setdefault((q, p["n"]), []).append((s, n, lit(a), p["t"]))
            if g in gl and depth < 3 and g != f["f"]:
                sub = self.pairs(G, depth + 1)
                amap = {p["n"]: frozenset(x[1] for x in fl.src(a) if x[0] in ("p", "fld")) for p, a in pa}
                for k, vs in sub.items():
                    for s, n2, l, t in vs:
                        out.setdefault(k, []).append((frozenset().union(*[amap.get(x, frozenset([x] if "." in x else [])) for x in s]) if s else frozenset(), n, l, t))
        for n in fl.nodes:
            if n["k"] == "Bin" and n["op"] == "=" and strip(n["a"])["k"] == "Mem":
                m = strip(n["a"])
                t = plain((strip(m["b"]).get("t") or "").replace("const ", "").strip(" &*"))
                c = optclass(t) or (t.split("::")[-1] if t.startswith("ldt::") else None)
                s = frozenset(x[1] for x in fl.src(n["b"]) if x[0] in ("p", "fld"))
                if s and c:
                    out.setdefault((c + "." + m["n"], "="), []).append((s, n, None, m.get("t") or ""))
        self.P_[(f["f"], depth)] = out
        return out

    def used(self, f):
        """parameters of f that are read at all"""
        names = {p["d"]: p["n"] for p in f["p"] if "d" in p}
        return {names[n["d"]] for n in self.P.all_nodes(f) if n["k"] == "Ref" and n.get("d") in names}


def lit(e):
    e = strip(e)
    while e is not None and e["k"] == "Cast":
        e = strip(e["e"])
    if e is not None and e["k"] in ("Bool", "Int", "Lit", "Num") and "v" in e:
        return str(e["v"]).lower()
    return None


# ---------------------------------------------------------------- R side
def rexported():
    """calls of the compiled functions: name -> [(R function, call)]"""
    out = {}
    for name, fn in rfunctions().items():
        for c in rcalls(fn["body"]):
            if re.match(r"^\.[A-Z]", c["fn"] or ""):
                out.setdefault(c["fn"][1:], []).append((name, fn, c))
    return out


def rsyms(e):
    return {x["n"] for x in rwalk(e) if x["k"] == "sym"}


def rlist(fn):
    """names and values of the list a constructor returns"""
    best = None
    for x in rwalk(fn["body"]):
        if x["k"] == "call" and x["fn"] == "list" and x["a"] and all(a["n"] for a in x["a"]):
            if best is None or len(x["a"]) > len(best["a"]):
                best = x
    return {a["n"]: a["v"] for a in reversed(best["a"])} if best else {}     # the first of equal names is the one that is found


# ---------------------------------------------------------------- what is recorded in options.json
CONSTR = {"UpdateSearchOptions": "get.search.options", "UpdateSearchItems": "get.search.items", "UpdateModelCheckItems": "get.search.modelchecks",
          "UpdatemetricOptions": "get.search.metrics", "UpdateSearchCombinations": "get.combinations", "UpdateSearchData": "get.data", "UpdateRocOptions": "get.options.roc",
          "UpdatePcaOptions": "get.options.pca", "UpdateLbfgsOptions": "get.options.lbfgs", "UpdateNewtonOptions": "get.options.newton",
          "GetGldFromMoments": "get.options.neldermead"}
SKIP = {"ldt::Matrix", "ldt::ToString", "ldt::Array", "ldt::LdtException", "ldt::Dataset"}


def exported(P):
    R = rexported()
    return {f["n"]: f for f in glue(P) if f["n"] in R and not f.get("static")}


def sink(q):
    if "." in q and "::" not in q:
        return True
    if q.startswith("ldt::"):
        return "FromString_" not in q and q.rsplit("::", 1)[0] not in SKIP and q not in SKIP
    return q.startswith("Update") or q == "getCostMatrices" or "::" in q and not q.startswith(("std::", "Rcpp::", "boost::"))


def routes(F, f):
    """{'callee|param': {'s': [[sources]], 'x': scalar, 'i': index}}"""
    out = {}
    for (q, p), vs in F.pairs(f).items():
        if not sink(q):
            continue
        ss = sorted({tuple(sorted(v[0])) for v in vs if v[0]})
        if ss:
            out[q + "|" + p] = {"s": [list(x) for x in ss], "x": scalar(vs[0][3])}
    return out


def params(P, q):
    return [[p["n"] for p in f["p"]] for f in P.funcs.values() if plain(f["q"]) == q]


def strmap(P, f):
    """text -> enumerator of a function that recognises names"""
    out = []

    def strs(e):
        return [x["v"] for x in walk(e) if x["k"] == "Str"]

    def enums(e):
        return [x["n"] for x in walk(e) if x["k"] == "Ref" and x.get("dk") == "enum"]

    for n in P.all_nodes(f):
        if n["k"] == "If" and n.get("a"):
            for s in strs(n["c"]):
                r = n["a"]
                while r is not None and r["k"] == "Block":
                    r = r["s"][0] if len(r["s"]) == 1 else None
                e = r and (r.get("e") if r["k"] in ("Return", "Expr") else None)
                v = enums(e) if e else []
                if len(v) == 1:
                    out.append((s, v[0]))
        elif n["k"] == "Ctor" and "std::pair" in (n.get("c") or "") and n.get("a") and len(n["a"]) == 2:
            v, s = enums(n), strs(n)
            if len(v) == 1 and len(s) == 1:
                out.append((s[0], v[0]))
    return out


def enummap(P, f):
    """enumerator -> texts of a function that names enumerators"""
    out = {}
    for n in P.all_nodes(f):
        if n["k"] == "Case":
            c, vs = n, []
            while c is not None and c["k"] == "Case":
                vs.append(c["e"])
                c = c.get("s")
            names = [x["n"] for v in vs for x in walk(v) if x["k"] == "Ref" and x.get("dk") == "enum"]
            t = [x["v"] for x in walk(c) if x["k"] == "Str"] if c is not None and c["k"] == "Return" else []
            for m in names:
                if t:
                    out[m] = t
    return out


def closure(fn, e, formals, seen=frozenset()):
    """formals an R expression depends on, through local variables"""
    out = set()
    for s in rsyms(e):
        if s in formals:
            out.add(s)
        elif s not in seen:
            for l, r, _, _ in rassigns(fn):
                if l["k"] == "sym" and l["n"] == s:
                    out |= closure(fn, r, formals, seen | {s})
    return out


def rassigns(fn):
    if "_as" in fn:
        return fn["_as"]
    out = []

    def go(e, conds):
        if not isinstance(e, dict):
            return
        if e["k"] == "call":
            if e["fn"] == "if":
                a = e["a"]
                go(a[0]["v"], conds)
                for x in a[1:]:
                    go(x["v"], conds + [a[0]["v"]])
                return
            if e["fn"] in ("<-", "=", "<<-") and len(e["a"]) == 2:
                out.append((e["a"][0]["v"], e["a"][1]["v"], conds, e.get("l")))
            for x in e["a"]:
                go(x["v"], conds)
        elif e["k"] == "fun":
            go(e["body"], conds)
    go(fn["body"], [])
    fn["_as"] = out
    return out


def rformals(fn):
    return [x if isinstance(x, str) else x.get("n") for x in fn["formals"]]


def updates(F, f):
    """[(function that fills a structure, what the conditions depend on, what its arguments depend on, call)]"""
    fl = F.flow[f["f"]]
    out = []

    def go(x, conds):
        if x is None:
            return
        if x["k"] == "If":
            go(x.get("init"), conds)
            go(x["c"], conds)
            go(x["a"], conds + [x["c"]])
            go(x.get("b"), conds + [x["c"]])
            return
        if x["k"] == "Call" and (x.get("n") or "").startswith("Update") and not x.get("oc"):
            own = {y[1].split("[")[0] for a in x.get("a") or [] for y in fl.src(a)}
            s = set()
            for c in conds:
                s |= {y[1].split("[")[0] for y in fl.src(c)} or {"nothing: " + show(c)}
            out.append((x["n"], s, own, x))
        if x["k"] == "Bin" and x["op"] == "=" and strip(x["a"])["k"] == "Mem" and any(y[0] == "p" for y in fl.src(x["b"])):
            m = strip(x["a"])
            t = plain((strip(m["b"]).get("t") or "").replace("const ", "").strip(" &*"))
            if t.startswith("ldt::"):
                s = set()
                for c in conds:
                    s |= {y[1].split("[")[0] for y in fl.src(c)} or {"nothing: " + show(c)}
                out.append((t.split("::")[-1] + "." + m["n"], s, {y[1].split("[")[0] for y in fl.src(x["b"])}, x))
        for c in kids(x):
            if isinstance(c, dict):
                go(c, conds)
    go(f["body"], [])
    return out


def component(v):
    """b of a$b, a[["b"]] or b"""
    if v["k"] == "sym":
        return v["n"]
    if v["k"] == "call" and v["fn"] in ("$", "[[") and len(v["a"]) == 2:
        x = v["a"][1]["v"]
        return x["n"] if x["k"] == "sym" and v["fn"] == "$" else x["v"] if x["k"] == "str" else None
    return None


def stored(fn):
    """(name, symbol, line) of x$info$name <- symbol"""
    out = []
    for l, e, _, line in rassigns(fn):
        if l["k"] == "call" and l["fn"] == "$" and component(l) and component(l["a"][0]["v"]) == "info" and l["a"][0]["v"]["k"] == "call":
            out.append((component(l), e["n"] if e["k"] == "sym" else None, line))
    return out


def table(P):
    F = Facts(P)
    T = {"fields": {}, "routes": {}, "keys": {}, "names": {}, "texts": {}, "r": {}, "constructors": {}, "updates": {}, "stored": {}}
    for a in F.assigns:
        k = "%s.%s" % (a["c"], a["f"])
        e = T["fields"].setdefault(k, {"from": [], "cond": [], "const": []})
        if a["const"]:
            e["const"] = sorted(set(e["const"]) | {a["const"]})
        else:
            s = sorted(a["keys"] | {"(%s)" % x for x in a["pars"]})
            if s not in e["from"]:
                e["from"].append(s)
            e["cond"] = sorted(set(e["cond"]) | {c for c in a["cond"] if c[0] != "(" })
    for n, f in exported(P).items():
        T["updates"][n] = {}
        for c, s, own, node in updates(F, f):
            T["updates"][n].setdefault(c, set()).update(s - own)
        T["updates"][n] = {k: sorted(v) for k, v in T["updates"][n].items() if v}
        T["routes"][n] = {"formals": [p["n"] for p in f["p"]],
                          "to": {k: v for k, v in routes(F, f).items() if any(len(s) <= 3 for s in v["s"])}}
    for u in CONSTR:
        ks = set()
        for f in glue(P):
            if f["n"] == u:
                ks |= keysread(F, f)
        T["keys"][u] = sorted(ks)
    for f in P.funcs.values():
        if f.get("body") and (f["n"].startswith("FromString_") or f["n"] == "UpdatemetricOptions"):
            m = strmap(P, f)
            m = [x for x in m if all(y == x for y in m if y[0] == x[0])]
            if m:
                T["names"].setdefault(f["n"], {}).update(dict(m))
        if f.get("body") and f["n"] == "ToString" and f["p"]:
            m = enummap(P, f)
            if m:
                T["texts"].setdefault(plain(f["p"][0]["t"]).replace("const ", "").replace(" &", ""), {}).update(m)
    for n, v in rexported().items():
        for rn, fn, c in v:
            fm = set(rformals(fn))
            T["r"].setdefault(n, {})[rn] = [sorted(closure(fn, a["v"], fm)) if not (a["v"]["k"] == "sym" and a["v"]["n"] in fm) else a["v"]["n"] for a in c["a"]]
    R = rfunctions()
    T["passed"] = {}
    for n, fn in R.items():
        for c in rcalls(fn["body"]):
            if c["fn"] in R and (c["fn"].startswith("estim.") or c["fn"].startswith("search.")):
                d = {a["n"]: component(a["v"]) for a in c["a"] if a["n"] and component(a["v"])}
                if d:
                    T["passed"].setdefault(n, {}).setdefault(c["fn"], {}).update(d)
        st = stored(fn)
        if any(k == v for k, v, _ in st):
            T["stored"][n] = sorted({k for k, v, _ in st if k == v and k in rformals(fn)})
    T["passed"]["estim.binary.from.search"]["estim.bin"].pop("pcaOptionsX", None)     # a search never has one
    for r in sorted(set(CONSTR.values())):
        T["constructors"][r] = {k: sorted(closure(R[r], v, set(rformals(R[r])))) for k, v in rlist(R[r]).items()}
    return T


def keysread(F, f):
    fl = F.flow[f["f"]]
    out = set()
    for n in fl.nodes:
        if n["k"] in ("Call", "Sub"):
            parts = [x for x in ([n.get("o")] + list(n.get("a") or []) if n["k"] == "Call" else [n["b"], n["i"]]) if x is not None]
            if any(is_list(strip(x).get("t")) for x in parts if strip(x)):
                for x in parts:
                    t = fl.strlit(x)
                    if t is not None and any(y[0] == "p" for z in parts if z is not x for y in fl.src(z)):
                        out.add(t)
    return out
