"""D01: random results are a function of the user's seed."""
import re
from ..program import walk, strip, AnalysisError
from ..absint import Eval, K, is_k, State, subterms, eq0, tnot, tand, tshow, base_type
from .r01 import own

LEVEL = "other"
TECHNIQUE = "interprocedural taint of generator seeds over the resolved program: every engine at every draw is traced back to the user's seed; entropy, clocks and hash order are forbidden sources"
NOTE = ("Every draw site (distribution call, shuffle, engine handed on) is checked: the engine's seed term must depend on a value that traces, through "
        "parameters, fields and constructors, to the seed of the request; entropy may be consulted only where that seed is known to be zero. "
        "Generators are bound to the seed, the numbers drawn are not modelled.")
EXPLANATION = NOTE

ENG = re.compile(r"std::(mersenne_twister|linear_congruential|subtract_with_carry|discard_block|shuffle_order|independent_bits)_engine")
DIST = re.compile(r"std::\w+_distribution")
SEEDNAME = re.compile(r"seed", re.I)
CLOCKS = {"time", "clock", "gettimeofday", "clock_gettime", "rand", "srand", "random", "drand48", "lrand48", "rand_r", "random_shuffle", "getpid", "unif_rand", "norm_rand", "exp_rand"}
DEFAULT = ("k", "$default")


def iseng(t):
    return bool(ENG.search(t or ""))


class Ev(Eval):
    max_depth = 8

    def __init__(self, P, sites=()):
        super().__init__(P)
        self.draws, self.entropy, self.at = [], [], []
        self.sites = {id(s) for s in sites}

    def want_inline(self, fkey, node, frame):
        g = self.P.funcs[fkey]
        if iseng(g.get("rt")) or any(iseng(p["t"]) for p in g["p"]) and makes_engine(self.P, g):
            return True
        return any(SEEDNAME.search(x) for x in self.fmods.of(fkey) if isinstance(x, str))

    def construct(self, obj, e, st, fr):
        c = e["c"] or ""
        if iseng(c) and not e.get("cp"):
            a = self.args(e, st, fr)
            v = DEFAULT
            if a:
                v = self.rv(a[0], st)
            self.write(("fld", obj, "$seed"), v, st, e, fr)
            return
        super().construct(obj, e, st, fr)

    def havoc_obj(self, obj, st, fields=None):
        keep = {l: v for l, v in st.env.items() if l[0] == "fld" and l[2] == "$seed"}     # drawing does not rebind the generator
        super().havoc_obj(obj, st, fields)
        st.env.update(keep)

    def seedof(self, o, st):
        if o and o[0] == "loc":
            o = self.loc_obj(o[1])
        return self.read_al(("fld", o, "$seed"), st)

    def model_call(self, node, name, obj, args, st, fr):
        oc = node.get("oc") or ""
        if node.get("op") == "[]" and args:
            k = self.rv(args[-1], st)
            if is_k(k) and isinstance(k[1], str):
                return ("ap", "item", obj if obj is not None else K(None), k)
        if node.get("q", "").startswith("Rcpp::as") and args:
            return ("ap", "as", args[0])
        if "random_device" in oc:
            if not self.quiet:
                self.entropy.append((node, fr, st.facts))
            return ("entropy",)
        if iseng(oc) and name == "seed":
            self.write(("fld", obj, "$seed"), self.rv(args[0], st) if args else DEFAULT, st, node, fr)
            return K(None)
        return None

    def on_call(self, node, fkey, name, obj, args, st, fr):
        if id(node) in self.sites:
            self.at.append((node, obj, list(args), st.copy(), fr))
        oc = node.get("oc") or ""
        if node.get("op") == "=" or name == "operator=":
            return
        if iseng(oc) and node.get("op") == "()":
            self.draws.append((node, fr, obj, self.seedof(obj, st), st.facts))
        for a, pt in zip(args, node.get("pt") or []):
            if iseng(pt) and pt.endswith("&") and not pt.endswith("&&"):
                g = self.P.funcs.get(fkey)
                if g is not None and self.want_inline(fkey, node, fr):
                    continue
                self.draws.append((node, fr, a, self.seedof(a, st), st.facts))

    def on_new(self, node, cls, args, obj, st, fr):
        if id(node) in self.sites:
            self.at.append((node, obj, list(args), st.copy(), fr))


def makes_engine(P, g):
    return any(n["k"] == "Ctor" and iseng(n["c"]) for n in P.all_nodes(g))


class Chase:
    def __init__(self, P):
        self.P = P
        self.sites = {}
        for f in P.funcs.values():
            if f.get("body") or f.get("inits"):
                for n in P.all_nodes(f):
                    if n["k"] in ("Call", "Ctor"):
                        ts = list(P.targets(n))
                        if n["k"] == "Call" and n.get("mk"):
                            ts.append(n["mk"])
                        for t in ts:
                            self.sites.setdefault(t, []).append((f, n))
        self.memo = {}
        self.evals = {}
        self.n = 0

    def ev(self, f):
        """evaluate f once, remembering the state at every call site"""
        r = self.evals.get(f["f"])
        if r is None:
            e = Ev(self.P, [n for n in self.P.all_nodes(f) if n["k"] in ("Call", "Ctor")])
            out, _ = e.run(f["f"])
            r = self.evals[f["f"]] = (e, out)
            self.n += 1
        return r

    def cases(self, t, conds=()):
        if t[0] == "ite":
            return self.cases(t[2], conds + (t[1],)) + self.cases(t[3], conds + (tnot(t[1]),))
        return [(t, conds)]

    last = None

    def zero_seed(self, f, conds, facts, why):
        """is a seed leaf known to be zero here?"""
        cs = set(facts)
        for c in conds:
            cs |= set(c[1]) if c[0] == "and" else {c}
        for c in cs:
            if c[0] == "eq0":
                ok, self.last = self.derived(f, c[1])
                if ok:
                    return True
        return False

    def check(self, f, t, facts=()):
        """None if t (in f) is a function of the user's seed, else the reason why not"""
        for v, conds in self.cases(t):
            if any(x == ("entropy",) for x in subterms(v)):
                if not self.zero_seed(f, conds, facts, None):
                    return "it is seeded from entropy although the seed may be set"
                continue
            if is_k(v):
                if self.zero_seed(f, conds, facts, None):
                    continue
                return "it is default-seeded" if v == DEFAULT else "its seed is the constant %s" % (v[1],)
            ok, why = self.derived(f, v)
            if not ok:
                return why
        return None

    def derived(self, f, v):
        atoms = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] in ("p", "f", "ap")]
        why = "its seed %s does not come from the user's seed" % tshow(v)[:80]
        for a in atoms:
            if a[0] == "ap" and a[1] == "item" and is_k(a[3]) and SEEDNAME.search(a[3][1]):
                return True, None
        for a in atoms:
            if a[0] == "ap":
                continue
            k = (f["f"], a)
            if k in self.memo:
                r = self.memo[k]
            else:
                self.memo[k] = (True, None)        # cycles
                r = self.memo[k] = self.atom(f, a)
            if r[0]:
                return r
            why = r[1] or why
        return False, why

    def atom(self, f, a):
        if a[0] == "p":
            ps = [i for i, p in enumerate(f["p"]) if (p["n"] or "arg%d" % i) == a[1]]
            if not ps:
                return False, "parameter %s" % a[1]
            t = base_type(f["p"][ps[0]]["t"])
            if self.P.records.get(t) or t.endswith("*") or t.startswith(("std::", "Rcpp::")) or t in ("bool", "double", "float"):
                return False, "%s is not a seed" % a[1]
            sites = [s for s in self.sites.get(f["f"], []) if own(s[0])]
            if not sites:
                if f["file"].startswith("Rpackage"):
                    return (True, None) if SEEDNAME.search(a[1]) else (False, "%s takes it from the request's '%s', which is not the seed" % (f["q"], a[1]))
                return True, None
            for g, n in sites:
                e, _ = self.ev(g)
                hit = [x for x in e.at if x[0] is n]
                for node, obj, args, st, fr in hit:
                    if ps[0] >= len(args):
                        return False, "%s leaves it out" % g["q"]
                    w = self.check(g, e.rv(args[ps[0]], st), st.facts)
                    if w:
                        return False, "%s (passed at %s)" % (w, self.P.where(g, n))
                if not hit:
                    continue       # unreachable call
            return True, None
        if a[0] == "f":
            obj, fld = a[1], a[2]
            if not isinstance(fld, str):
                return False, None
            path = self.this_path(obj)
            if path is not None and f.get("c"):
                return self.member(f, path, fld)
            return self.class_field(fld)
        return False, None

    @staticmethod
    def this_path(o):
        p = []
        while o[0] == "F":
            p.append(o[2])
            o = o[1]
        return tuple(reversed(p)) if o == ("this",) else None

    def member(self, f, path, fld, depth=0):
        """the field <path>.<fld> of the receiver of f"""
        P = self.P
        obj = ("this",)
        for x in path:
            obj = ("F", obj, x)
        ctors = [g for g in P.funcs.values() if g.get("ctor") and g.get("c") == f["c"] and (g.get("body") or g.get("inits"))
                 and not any(i.get("deleg") for i in g.get("inits") or []) and not (len(g["p"]) == 1 and base_type(g["p"][0]["t"]) == g["c"])]
        res = []
        for g in ctors:
            e, out = self.ev(g)
            if out is None:
                continue
            if not g["p"]:
                continue            # builds an empty object to be assigned later
            v = e.read_al(("fld", obj, fld), out)
            if v[0] == "f" and v[2] == fld or is_k(v):
                res.append("%s leaves %s unset" % (g["q"], ".".join(path + (fld,))))
            else:
                w = None
                for x, conds in self.cases(v):
                    if w is None and not (conds and path and self.untouched(e, out, obj, conds)):
                        w = self.check(g, x, set(out.facts) | set(conds))
                res.append(w)
        if res and all(r is None for r in res):
            return True, None
        if depth < 4:
            sites = [s for s in self.sites.get(f["f"], []) if own(s[0])]
            if not sites and not res:
                return True, None
            bad = None
            n_ok = 0
            for g, n in sites:
                e, _ = self.ev(g)
                for node, o, args, st, fr in [x for x in e.at if x[0] is n]:
                    if o is None:
                        continue
                    oo = o
                    for x in path:
                        oo = ("F", oo, x)
                    v = e.read_al(("fld", oo, fld), st)
                    if v[0] == "f" and v[2] == fld:
                        p2 = self.this_path(v[1])
                        if p2 is not None and g.get("c"):
                            r = self.member(g, p2, fld, depth + 1)
                            w = None if r[0] else (r[1] or "unset")
                        else:
                            w = None if not self.sites.get(g["f"]) and v[1][0] in ("p",) else "%s never sets %s" % (g["q"], fld)
                    else:
                        w = self.check(g, v, st.facts)
                    if w:
                        bad = bad or "%s (used at %s)" % (w, P.where(g, n))
                    else:
                        n_ok += 1
            if bad is None and (n_ok or not res):
                return True, None
            if bad:
                return False, bad
        return False, next((r for r in res if r), None)

    @staticmethod
    def untouched(e, out, obj, conds):
        """under these conditions the constructor does not set the sub-object up at all"""
        vals = [v for l, v in out.env.items() if l[0] == "fld" and l[1] == obj and v[0] == "ite"]
        n = 0
        for v in vals:
            c = conds[-1]
            if v[1] == c:
                w = v[2]
            elif v[1] == tnot(c):
                w = v[3]
            else:
                return False
            if not (is_k(w) or w[0] == "f"):
                return False
            n += 1
        return n >= 2

    def class_field(self, fld):
        """field of a shared request object: whatever the program stores there must come from the user's seed"""
        P = self.P
        good = 0
        for f in P.funcs.values():
            if not own(f) or not (f.get("body")):
                continue
            for n in P.all_nodes(f):
                if n["k"] == "Bin" and n["op"] == "=" and strip(n["a"])["k"] == "Mem" and strip(n["a"])["n"] == fld:
                    b = strip(n["b"])
                    if b["k"] == "Int" and b["v"] == 0:
                        continue
                    strs = [x["v"] for x in walk(n["b"]) if x["k"] == "Str"]
                    refs = [x["n"] for x in walk(n["b"]) if x["k"] == "Ref" and x.get("dk") in ("parm", "var")] + [x["n"] for x in walk(n["b"]) if x["k"] == "Mem"]
                    if any(SEEDNAME.search(s) for s in strs) or not strs and any(SEEDNAME.search(r) for r in refs):
                        good += 1
                    else:
                        return False, "%s stores something else into %s" % (f["q"], fld)
        return (True, None) if good else (False, "nothing stores the user's seed into %s" % fld)


def run(P, rep):
    C = Chase(P)
    roots = []
    for f in P.funcs.values():
        if own(f) and f.get("body") and any(n["k"] == "Ctor" and (iseng(n["c"]) or "random_device" in (n["c"] or "")) for n in P.all_nodes(f)):
            roots.append(f)
    helper = {f["f"] for f in roots if iseng(f.get("rt")) or any(iseng(p["t"]) and p["t"].endswith("&") and not p["t"].startswith("const") for p in f["p"])}
    todo = list(roots)
    seen = {f["f"] for f in roots}
    for f in todo:
        if f["f"] in helper:
            for g, n in C.sites.get(f["f"], []):
                if g["f"] not in seen and own(g):
                    seen.add(g["f"])
                    todo.append(g)
                    if iseng(g.get("rt")):
                        helper.add(g["f"])
    rep.did("functions that build a generator", len(roots))
    for f in sorted(todo, key=lambda f: (f["file"], f["l"], f["f"])):
        isapi = not C.sites.get(f["f"])
        e = Ev(P)
        e.run(f["f"])
        for node, fr, facts in e.entropy:
            if f["f"] in helper and not isapi:
                continue
            ok = C.zero_seed(f, (), facts, None)
            rep.ob("entropy only when no seed is given", ok, P.where(fr.f, node), "%s reads entropy %s" % (f["q"], "under seed == 0" if ok else "although a seed may be set: %s" % (C.last,)), key=f["q"])
        for node, fr, obj, t, facts in e.draws:
            if obj[0] == "p" or t[0] == "f" and t[1][0] == "p":
                continue                 # a generator handed in: checked at the caller
            if f["f"] in helper and not isapi:
                continue
            if order_only(P, node):
                ok = not any(x == ("entropy",) for x in subterms(t))
                rep.ob("a draw uses a generator bound to the seed", ok, P.where(fr.f, node), "%s orders the work from %s" % (f["q"], "a fixed generator" if ok else "entropy"), key=f["q"])
                continue
            w = C.check(f, t, facts)
            rep.ob("a draw uses a generator bound to the seed", w is None, P.where(fr.f, node),
                   "%s: %s draws from a generator: %s" % (f["q"], node.get("n"), w or "seeded by the request"), key="%s|%s" % (f["q"], node.get("n")))
    # ---- other sources
    for f in P.funcs.values():
        if not own(f) or not f.get("body"):
            continue
        lib = not f["file"].startswith("Rpackage")
        for n in P.all_nodes(f):
            if n["k"] == "Call" and not n.get("o"):
                q = n.get("q") or n.get("n") or ""
                b = q.split("::")[-1]
                if b in CLOCKS and (q == b or q.startswith("std::")) and n.get("f") not in P.funcs:
                    rep.ob("no hidden source of randomness", False, P.where(f, n), "%s calls %s" % (f["q"], q), key="%s|%s" % (f["q"], q))
                elif re.match(r"(R|Rcpp)::r(unif|norm|exp|gamma|beta|binom|pois|t|chisq|geom|logis|weibull|cauchy|sample)", q) or q.startswith("Rcpp::sample"):
                    rep.ob("no hidden source of randomness", False, P.where(f, n), "%s calls %s" % (f["q"], q), key="%s|%s" % (f["q"], q))
                elif b == "now" and "chrono" in q and lib:
                    rep.ob("no hidden source of randomness", False, P.where(f, n), "%s calls %s" % (f["q"], q), key="%s|%s" % (f["q"], q))
                elif b in ("get_id", "omp_get_thread_num", "omp_get_num_threads") and lib:
                    rep.ob("no hidden source of randomness", False, P.where(f, n), "%s depends on the thread (%s)" % (f["q"], q), key="%s|%s" % (f["q"], q))
            if n["k"] == "Decl":
                for v in n["v"]:
                    t = v.get("t") or ""
                    if DIST.search(t) or iseng(t):
                        ok = not (v.get("static") or v.get("tls"))
                        rep.ob("no state survives between calls", ok, P.where(f, n), "%s keeps %s between calls" % (f["q"], v["n"]), key="%s|%s" % (f["q"], v["n"]))
            if lib and n["k"] == "RangeFor":
                t = strip(n["r"]).get("t") or ""
                bad = "std::unordered_" in t or re.search(r"std::(set|map|multiset|multimap)<[^,<>]*\*", t)
                rep.ob("iteration order does not depend on addresses or hashes", not bad, P.where(f, n), "%s iterates over %s" % (f["q"], t[:60]), key=f["q"])
    for r in P.records.values():
        for fd in r.get("fields") or []:
            if DIST.search(fd["t"]) or iseng(fd["t"]):
                rep.ob("no state survives between calls", False, "%s:%s" % (r.get("file"), fd.get("l") or r.get("l")), "%s::%s keeps generator state between calls" % (r["n"], fd["n"]), key="%s|%s" % (r["n"], fd["n"]))
    rep.did("functions evaluated to trace seeds", C.n)
    rep.floor("entropy only when no seed is given", 8)
    rep.floor("a draw uses a generator bound to the seed", 15)
    rep.floor("no state survives between calls", 20)


def order_only(P, node):
    """shuffles a list of searchers: decides the order of evaluation only"""
    return node.get("n") == "shuffle" and all("Searcher *" in x for x in (node.get("pt") or ["", ""])[:2])
