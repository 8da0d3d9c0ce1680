"""C06: impossible search configurations are rejected up front."""
from ..program import walk, strip
from ..absint import State, sub, add, ge0, eq0, tnot, tand, tor, ONE, ZERO, K, tshow, subterms, is_k, TRUE, FALSE
from ..events import Recorder, Event, conj, elem
from ..bounds import implies

LEVEL = "other"
TECHNIQUE = ("symbolic evaluation of every model-set and searcher constructor; the facts on each path that reaches the creation of a "
             "searcher must entail (linear arithmetic and propositional reasoning) that the configuration is possible")
NOTE = ("For all configurations: wherever a model set creates a searcher, the tests passed before imply that every index of the "
        "partitions and inner groups names an available variable of the right kind, that sizes are positive, that the needed options "
        "are set, and that what cannot be served (out-of-sample metrics without simulations, an empty training sample, coefficients without "
        "estimation, cost metrics without cost tables and so on) has been refused; and no searcher is left constructed without an evaluation, "
        "a target or something to save. The numbers of variables the caller declares (LengthEndogenous, LengthExogenous, LengthTargets) "
        "are taken as the definition of what is available; for an ARMA model's exogenous data the number of rows of its dataset.")
EXPLANATION = NOTE

C, IT, MO, MT = ("p", "combinations"), ("p", "items"), ("p", "metrics"), ("p", "checks")
ANY = ("at", ("any",))


def at(o, x):
    return ("F", o, x)


def val(o, x):
    return ("f", o, x, 0)


def nonneg(t):
    return t[0] in ("it", "trip") or t[0] in ("f", "F") and t[2] in ("RowsCount", "ColsCount", "size")


class Rec(Recorder):
    def want_construct(self, g, e, fr):
        return False

    def want_inline(self, fkey, node, frame):
        f = self.P.funcs.get(fkey)
        if not f or not f.get("body") or f["file"].startswith("/") or frame.depth >= 4:
            return False
        if f["n"] == "Update":
            return True
        c = f.get("c") or ""
        root = frame
        while root.parent is not None:
            root = root.parent
        # helpers of the model set itself and free helpers that only test
        return c == root.f.get("c") or not c and any(n.get("k") == "Throw" for n in walk(f["body"]))

    def on_new(self, node, cls, args, obj, st, fr):
        if not self.quiet and args is not None:
            self.events.append(Event(kind="new", node=node, name=cls, args=[self.rv(a, st) for a in args], facts=st.facts,
                                     st=st.copy(), fr=fr, loops=list(self.loopstack)))


def derived(P, base):
    out = {base}
    more = True
    while more:
        more = False
        for r in P.records.values():
            if r["n"] not in out and any(b in out or b.split("::")[-1] == base.split("::")[-1] for b in bases(r)):
                out.add(r["n"])
                more = True
    return out


def bases(r):
    return [b if isinstance(b, str) else b.get("n") or b.get("t") for b in r.get("bases") or []]


def inside(o, lo, hi):
    x = val(at(at(C, o), ANY), ANY)
    return tand(ge0(sub(x, lo)), ge0(sub(sub(hi, x), ONE)))


def run(P, rep):
    searchers = derived(P, "ldt::Searcher")
    rep.need("searcher classes", 5, len(searchers))
    done = set()
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"], f["f"])):
        cls = (f.get("c") or "").split("::")[-1] if "<" not in (f.get("c") or "") else (f.get("c") or "").split("<")[0].split("::")[-1]
        if not f.get("ctor") or not cls.endswith("Modelset") or not any("SearchCombinations" in p["t"] for p in f["p"]) or not f.get("body"):
            continue
        e = Rec(P)
        # the parameters of interest under fixed names
        kinds = (("SearchCombinations", C), ("SearchItems", IT), ("SearchMetricOptions", MO), ("SearchModelChecks", MT))
        args = [next((o for k, o in kinds if k in p["t"]), None) for p in f["p"]]
        e.run(f["f"], args=args)
        news = [v for v in e.events if v.kind == "new" and v.name in searchers]
        label = (f.get("c") or cls).replace("ldt::", "")
        if not rep.ob("a model set creates searchers", bool(news), P.where(f, f), label, key=label):
            continue
        rep.did("model sets")
        for v in news:
            rep.did("creations of searchers")
            check_new(P, rep, e, f, cls, label, v)
            done.add(cls)
    rep.need("kinds of model sets", 4, len(done))
    base(P, rep, searchers)


def param(f, kind, n=0):
    ps = [p for p in f["p"] if kind in p["t"]]
    return ("p", ps[n]["n"]) if len(ps) > n else None


def named(P, v, name):
    """the argument the created searcher's constructor takes under this parameter name"""
    g = P.funcs.get(v.node.get("f"))
    if g:
        for i, p in enumerate(g["p"]):
            if p["n"] == name and i < len(v.args):
                return v.args[i]
    return None


def check_new(P, rep, e, f, cls, label, v):
    def rd(o, n):
        x = e.read_al(("fld", o, n), v.st)
        return x

    def sz(o, n):
        return e.read_al(("fld", at(o, n), "size"), v.st)
    endo, exo = rd(IT, "LengthEndogenous"), rd(IT, "LengthExogenous")
    l1 = rd(IT, "Length1")
    est, pred = e.truth(rd(MT, "Estimation"), {"t": "bool"}), e.truth(rd(MT, "Prediction"), {"t": "bool"})
    mout = sz(MO, "MetricsOut")
    sims = rd(MO, "SimFixSize")
    tf, trr = rd(MO, "TrainFixSize"), rd(MO, "TrainRatio")
    train = tor(ge0(sub(ZERO, sims)), tnot(eq0(tf)), tnot(eq0(trr)))
    g = [
        ("the number of targets is positive", ge0(sub(rd(IT, "LengthTargets"), ONE))),
        ("every size is positive", ge0(sub(val(at(C, "Sizes"), ANY), ONE))),
        ("out-of-sample metrics come with simulations", tor(ge0(sub(ZERO, mout)), ge0(sub(sims, ONE)))),
        ("the minimum number of valid simulations can be reached",
         tor(ge0(sub(ZERO, sims)), ge0(sub(sims, rd(MT, "MinOutSim"))))),
    ]
    if cls == "SurModelset":
        g += [("exogenous indices are available", inside("Partitions", endo, add(endo, exo))),
              ("endogenous indices are available", inside("InnerGroups", ZERO, endo)),
              ("coefficients are those of the exogenous variables", tor(eq0(l1), eq0(sub(l1, exo)))),
              ("coefficients need an estimation", tor(eq0(l1), est)),
              ("there is a training sample", train)]
        inner = [a for a in v.args if elem(a) and elem(a)[0] == at(C, "InnerGroups")]
        g.append(("a group of endogenous variables is not empty",
                  tnot(eq0(e.read_al(("fld", inner[0], "size"), v.st))) if inner else None))
    elif cls == "VarmaModelset":
        src = param(f, "DatasetTs")
        par = param(f, "vector<int>") or param(f, "vector<Ti>")
        rows = e.read_al(("fld", e.read_al(("fld", src, "pData"), v.st), "RowsCount"), v.st) if src else None
        g += [("endogenous indices are available", inside("Partitions", ZERO, endo)),
              ("exogenous indices are available", inside("InnerGroups", endo, rows) if rows else None),
              ("horizons are given with out-of-sample metrics", tor(ge0(sub(ZERO, mout)), tnot(eq0(sz(MO, "Horizons"))))),
              ("horizons are not given without out-of-sample metrics", tor(eq0(sz(MO, "Horizons")), ge0(sub(mout, ONE)))),
              ("projections need a prediction", tor(ge0(sub(ZERO, l1)), pred)),
              ("there are six orders", eq0(sub(("f", par, "size", 0), K(6))) if par else None),
              ("orders are not negative", ge0(val(par, ANY)) if par else None)]
        # p = q = P = Q = 0 is no model: the sizes object made just before
        vs = [x for x in e.events if x.kind == "new" and x.name.endswith("VarmaSizes") and x.fr.f is v.fr.f]
        ctor = P.funcs.get(vs[-1].node.get("f")) if vs else None
        if ctor:
            four = [vs[-1].args[i] for i in (3, 5, 6, 8)] if len(vs[-1].args) >= 9 else []
            g.append(("a model has at least one lag", tor(*[tnot(eq0(x)) for x in four]) if four else None))
        else:
            g.append(("a model has at least one lag", None))
    elif cls == "DiscreteChoiceModelset":
        ch = rd(("this",), "mNumChoices")
        src = param(f, "Matrix")
        cost = param(f, "vector<ldt::Matrix") or param(f, "vector<Matrix")
        src = next((("p", p["n"]) for p in f["p"] if "Matrix" in p["t"] and "vector" not in p["t"]), None)
        w = "Modelset<true" in (f.get("c") or "")
        g += [("there are at least two choices", ge0(sub(ch, K(2)))),
              ("there is an exogenous variable", ge0(sub(exo, ONE))),
              ("exogenous indices are available", inside("Partitions", ONE, add(exo, ONE))),
              ("coefficients are those of the variables and thresholds", tor(eq0(l1), eq0(sub(add(l1, K(2)), add(exo, ch))))),
              ("coefficients need an estimation", tor(eq0(l1), est)),
              ("there is a training sample", train),
              ("the first exogenous variable is the intercept", intercept(v, src, 2 if w else 1)),
              ]
        cs = ("f", cost, "size", 0) if cost else None
        fi, fo = freq(P, "MetricInIndices", "GoodnessOfFitType"), freq(P, "MetricOutIndices", "ScoringType")
        g += [("cost tables come with a cost metric", tor(ge0(sub(ZERO, cs)), tnot(eq0(add(fi, ONE))), tnot(eq0(add(fo, ONE)))) if cs and fi and fo else None),
              ("a cost metric of the estimation comes with cost tables", tor(ge0(sub(ZERO, add(fi, ONE))), tnot(eq0(cs))) if cs and fi else None),
              ("a cost metric of the simulation comes with cost tables", tor(ge0(sub(ZERO, add(fo, ONE))), tnot(eq0(cs))) if cs and fo else None),
              ]
        chk = [x for x in e.events if x.kind == "call" and x.name == "Check" and x.args and elem(x.args[0]) and elem(x.args[0])[0] == cost
               and elem(x.args[0])[1][0] == "any" and x.args[1] == ch and not any(l.early for l in x.loops)]
        g.append(("every cost table is checked", TRUE if chk else None))
    elif cls == "RFuncModelset":
        ie = next((("p", p["n"]) for p in f["p"] if p["t"].replace("const ", "").startswith("bool") and "nner" in p["n"]), None)
        al = add(endo, exo)
        g += [("outer indices are available", ("case", ie, inside("Partitions", ZERO, endo), inside("Partitions", endo, al))),
              ("inner indices are available", ("case", ie, inside("InnerGroups", endo, al), inside("InnerGroups", ZERO, endo)))]
        inner = [a for a in v.args if elem(a) and elem(a)[0] == at(C, "InnerGroups")]
        g.append(("an inner group is not empty", tnot(eq0(e.read_al(("fld", inner[0], "size"), v.st))) if inner else None))
    else:
        rep.ob("the requirements of a model set are known", False, P.where(f, f), label, key=label)
    where = P.where(v.fr.f, v.node)
    for what, c in g:
        ok = c is not None and holds(e, v.facts, c)
        rep.ob("a searcher is created for a possible configuration only", ok, where, "%s: %s" % (label, what), key="%s: %s" % (cls, what))


def holds(e, facts, c):
    if c[0] == "case":
        t = c[1]
        return all(implies(with_case(facts, t, b), with_case([x], t, b).pop(), nonneg) for b, x in ((True, c[2]), (False, c[3])))
    return implies(facts, c, nonneg)


def with_case(facts, t, b):
    """facts specialised for a boolean parameter"""
    true = (("tr", t), t, tnot(eq0(t)))

    def sp(x):
        if isinstance(x, frozenset):
            return frozenset(sp(y) for y in x)
        if not isinstance(x, tuple) or not x:
            return x
        if x in true:
            return TRUE if b else FALSE
        if x == eq0(t):
            return FALSE if b else TRUE
        if x[0] == "ite":
            c = sp(x[1])
            if c in (TRUE, FALSE):
                return sp(x[2] if c == TRUE else x[3])
        y = tuple(sp(y) for y in x)
        if y[0] == "not":
            return tnot(y[1])
        if y[0] in ("and", "or"):
            return (tand if y[0] == "and" else tor)(*y[1])
        return (y[0], norm(y[1])) if y[0] in ("ge0", "eq0") else y
    out = set()
    for c in facts:
        out.add(sp(c))
    return out


def norm(t):
    """rebuild a polynomial whose atoms may have been replaced by polynomials"""
    from ..absint import mul
    if t and t[0] == "P":
        r = ZERO
        for m, c in t[1]:
            p = K(c)
            for x in m:
                p = mul(p, norm(x))
            r = add(r, p)
        return r
    return t


def freq(P, table, kind):
    """where the searches read the position of the cost metric"""
    en = P.enums.get("ldt::" + kind) or {"v": []}
    v = next((x["v"] for x in en["v"] if x["n"] == "kFrequencyCost"), None)
    return None if v is None else ("f", at(MO, table), ("at", K(v)), 0)


def intercept(v, src, col):
    for c in conj(v.facts):
        for t in subterms(c):
            if isinstance(t, tuple) and t[:2] in (("ap", "EqualsValueColumn"),) or isinstance(t, tuple) and t and t[0] == "ap" and str(t[1]).endswith("EqualsValueColumn"):
                if c in (("tr", t), ("not", ("eq0", t)), t) and src in t and K(col) in t:
                    return TRUE
    return None


def base(P, rep, searchers):
    """what every searcher refuses, whoever creates it"""
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"])):
        c = f.get("c") or ""
        if not f.get("ctor") or not f.get("body") or c not in ("ldt::Searcher", "ldt::SearcherReg") or len(f["p"]) < 3:
            continue
        e = Rec(P)
        kinds = (("SearchCombinations", C), ("SearchItems", IT), ("SearchMetricOptions", MO), ("SearchModelChecks", MT))
        args = [next((o for k, o in kinds if k in p["t"]), None) for p in f["p"]]
        st, _ = e.run(f["f"], args=args)
        n += 1
        where = P.where(f, f)
        if st is None:
            rep.ob("a searcher is left constructed only if it can do something", False, where, "%s: never completes" % c)
            continue
        if c == "ldt::Searcher":
            np = next((("p", p["n"]) for p in f["p"] if p["t"] in ("int", "Ti", "const int")), None)
            ev, ta = val(IT, "LengthEvals"), val(IT, "LengthTargets")
            keep = ("f", IT, "KeepModelEvaluations", 0)
            g = [("the fixed partitions fit into a model", ge0(sub(np, val(C, "NumFixPartitions"))) if np else None),
                 ("there is an evaluation", tnot(eq0(ev))),
                 ("there is a target", tnot(eq0(ta))),
                 ("there is an orientation for every evaluation", eq0(sub(ev, ("f", at(MO, "EvalIsPosOrientation"), "size", 0)))),
                 ("something is saved", tor(e.truth(keep, {"t": "bool"}), tnot(eq0(val(IT, "Length1"))), tnot(eq0(val(IT, "Length2")))))]
        else:
            inner = next((("p", p["n"]) for p in f["p"] if "xogenous" in p["n"]), None)
            tp = e.read_al(("fld", at(("this",), "TargetsPositions"), "size"), st)
            g = [("there is a target among fixed endogenous variables",
                  ("case", inner, TRUE, tnot(eq0(tp))) if inner else None)]
        for what, x in g:
            ok = x is not None and holds(e, st.facts, x)
            rep.ob("a searcher is left constructed only if it can do something", ok, where, "%s: %s" % (c.replace("ldt::", ""), what),
                   key="%s: %s" % (c, what))
    rep.need("constructors every searcher runs", 2, n)
    m = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"], f["f"])):
        c = f.get("c") or ""
        if not f.get("body"):
            continue
        if f.get("ctor") and "DiscreteChoiceSearcher" in c and any("SearchCombinations" in p["t"] for p in f["p"]):
            # the intercept is the first fixed partition
            e = Rec(P)
            st, _ = e.run(f["f"], args=[C if "SearchCombinations" in p["t"] else None for p in f["p"]])
            ok = st is not None and holds(e, st.facts, tnot(eq0(val(C, "NumFixPartitions"))))
            rep.ob("a searcher is left constructed only if it can do something", ok, P.where(f, f), "%s: the intercept is fixed" % c.replace("ldt::", ""),
                   key="%s: intercept" % c.split("<")[0])
            m += 1
        if f.get("ctor") and c.endswith("VarmaSearcher") and any("SearchModelChecks" in p["t"] for p in f["p"]):
            e = Rec(P)
            st, _ = e.run(f["f"], args=[MT if "SearchModelChecks" in p["t"] else None for p in f["p"]])
            h = next((("p", p["n"]) for p in f["p"] if "orizon" in p["n"]), None)
            ok = st is not None and h is not None and holds(e, st.facts, tor(
                *[x for n in ("Estimation", "Prediction") for x in (tnot(e.truth(val(MT, n), {"t": "bool"})), eq0(val(MT, n)))], ge0(sub(h, ONE))))
            rep.ob("a searcher is left constructed only if it can do something", ok, P.where(f, f), "VarmaSearcher: predictions are checked over a positive horizon",
                   key="VarmaSearcher: horizon")
        if c == "ldt::Searcher" and f["n"] == "GetCount":
            e = Rec(P)
            e.run(f["f"])
            rets = [v for v in e.events if v.kind == "return" and v.fr.f is f]
            ps = ("f", ("F", ("f", ("this",), "pCombinations", 0), "Partitions"), "size", 0)
            g = ge0(sub(ps, val(("this",), "NumPartitions")))
            for v in rets:
                rep.ob("a model is not larger than the number of partitions it is built from", holds(e, v.facts, g), P.where(f, v.node), "Searcher::GetCount",
                       key="GetCount")
            rep.need("ends of the count of the candidates", 1, len(rets))
    rep.need("discrete choice searchers", 2, m)

