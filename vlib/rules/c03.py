"""C03: each requested metric is recorded in its own slot."""
from ..program import AnalysisError, strip, walk, kids
from ..absint import K, is_k, subterms, tshow, sub, add, ONE
from ..events import Recorder, conj, conditions, elem, fld, holds, evalterm
from ..pushes import pushes, check_indices, get_of
from ..tables import enumerators

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the evaluation functions: row, column, guard and provenance terms of every store into the metric matrix and of every push, evaluated for every metric and every position it can have in the request"
NOTE = ("Every store into the metric matrix of every searcher is matched to the metric whose slot it fills: the row, the guard (for every position of the metric in the request, and for its absence), "
        "the loop over the targets, and the member the value is read from, which must have been computed in the same evaluation. The stores of the simulations into their result rows, the slots of the summaries and "
        "the pushes are matched in the same way. That the member itself holds the right number is V01/V07.")
EXPLANATION = NOTE

IN, OUT = "MetricInIndices", "MetricOutIndices"
# what each estimator documents to provide
SERVED = {
    "SurSearcher": ({"kAic", "kSic"}, {"kSign", "kMae", "kMape", "kRmse", "kRmspe", "kCrps"}),
    "VarmaSearcher": ({"kAic", "kSic"}, {"kSign", "kDirection", "kMae", "kMape", "kRmse", "kRmspe", "kCrps"}),
    "DiscreteChoiceSearcher": ({"kAic", "kSic", "kFrequencyCost", "kAuc", "kBrier"}, {"kFrequencyCost", "kAuc", "kBrier"}),
}
# the members that hold a metric
MEMBER = {"kAic": ("Aic",), "kSic": ("Sic",), "kFrequencyCost": ("AverageRatio", "CostRatios"), "kAuc": ("Auc", "Result"), "kBrier": ("BrierScore",)}
MEMBERS = {m: k for k, v in MEMBER.items() for m in v}


class Asg(dict):
    """default values for the atoms of a plain request; None = unknown"""

    def __init__(self, base, rule):
        super().__init__(base)
        self.rule = rule

    def __contains__(self, t):
        return dict.__contains__(self, t) or self.rule(t) is not None

    def __getitem__(self, t):
        return dict.__getitem__(self, t) if dict.__contains__(self, t) else self.rule(t)


PLAIN = {"RequestCancel": 0, "Estimation": 1, "MinObsCount": 0, "MinDof": 0, "MaxAic": 1e300, "MaxSic": 1e300, "MaxConditionNumber": 1e300, "MinR2": -1e300, "MinOutSim": 0,
         "mCheckCN": 0, "mCheckCN_all": 0, "Prediction": 0, "pChecks": 1, "pMetrics": 1, "pItems": 1, "WorkSize": 1, "ValidCounts": 1}


def slot(t):
    """(map name, key) of an element of one of the index maps"""
    e = elem(t)
    if e is None:
        return None
    for nm in (IN, OUT):
        if fld(e[0], nm) is not None:
            return nm, e[1]
    return None


def world(nm, key, pos, others, nin, nout):
    def rule(t):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "tr":
            return rule(t[1])
        if t[0] not in ("f", "F"):
            return None
        s = slot(t)
        if s is not None:
            return pos if s == (nm, key) else others
        if t[2] == "size":
            for f, v in (("MetricsIn", nin), ("MetricsOut", nout), ("TargetsPositions", 1), ("TargetsEquations", 1)):
                if fld(t[1], f) is not None:
                    return v
            return None
        if t[2] == "SimFixSize":
            return 1 if nout else 0
        return PLAIN.get(t[2]) if isinstance(t[2], str) else None
    return Asg({}, rule)


class Look(Recorder):
    """inlines helpers written beside the function under analysis"""

    def __init__(self, P, f, free=True):
        super().__init__(P)
        self.home, self.cls, self.free = f["file"], f.get("c"), free

    def want_inline(self, fkey, node, frame):
        g = self.P.funcs.get(fkey)
        return bool(g and g.get("body") and g["file"] == self.home and not g.get("virtual") and (self.free or g.get("c") == self.cls))


def base_name(f):
    return (f.get("c") or "").split("<")[0].split("::")[-1]


def evaluations(P):
    out = []
    for f in P.funcs.values():
        if f["n"] == "EstimateOneReg" and f.get("body") and base_name(f) in SERVED:
            out.append(f)
    return out


def stores(r, pname):
    """(event, row, column, value) of every store into the matrix parameter <pname>"""
    out = []
    M = None
    for e in r.events:
        if e.kind == "call" and e.name in ("Set0", "Set") and len(e.args) == 3 and e.obj is not None and fld(e.obj, "Mat") == ("p", pname):
            out.append((e, e.args[0], e.args[1], e.args[2]))
        elif e.kind == "store" and e.loc[0] == "fld" and isinstance(e.loc[2], tuple) and e.loc[2][0] == "at":
            b = e.loc[1]
            if fld(b, "Data") is not None and fld(fld(b, "Data"), "Mat") == ("p", pname):
                out.append((e, e.loc[2][1], K(0), e.val))
        elif e.kind == "store" and e.loc[0] == "cell":
            b = e.loc[1]
            if fld(b, "Data") is not None and fld(fld(b, "Data"), "Mat") == ("p", pname):
                out.append((e, e.loc[2], K(0), e.val))
        elif e.kind == "call" and e.obj is not None and any(x == ("p", pname) for x in subterms(e.obj)) and e.name not in ("Get", "Get0", "length"):
            out.append((e, None, None, None))
    return out


def paths_of(t):
    """all member paths inside a value"""
    return [x for x in subterms(t) if isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and isinstance(x[2], str)]


def roots(t):
    out = set()
    while t and t[0] in ("f", "F"):
        out.add(t)
        t = t[1]
    return out


def loop_enums(ev, key):
    """constants that a symbolic key can take: the elements of the list its loop runs over"""
    vs = set()
    for l in ev.loops:
        if l.node["k"] == "RangeFor":
            for x in walk(l.node["r"]):
                if x["k"] == "Ref" and x.get("dk") == "enum":
                    vs.add((x.get("n"), x.get("v")))
    return vs


def over_targets(ev, col):
    """None or what is wrong with the column of a store"""
    for l in ev.loops:
        if l.it == col:
            if l.early:
                return "the loop over the targets can stop early"
            if l.trip is None or not any(isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and (x[2] in ("TargetsPositions", "TargetsEquations") or x[2] == "ColsCount" and "metrics" in tshow(x)) for x in subterms(l.trip)):
                return "the loop over the targets runs to %s" % (tshow(l.trip)[:60] if l.trip else "?")
            return None
    return "the column is %s, not the target" % tshow(col)[:60]


def same_index(ev, el, it):
    """is this element the one at loop position <it>?"""
    cont, ix = el
    if ix == it:
        return True
    if ix != ("any",):
        return False
    l = next((l for l in ev.loops if l.it == it), None)
    if l is None:
        return False
    if l.node["k"] == "RangeFor":
        return l.cont == cont
    t = l.trip
    return t is not None and t[0] in ("f", "F") and t[2] == "size" and t[1] == cont


class Slots:
    def __init__(self, P, rep, f, r, single):
        self.P, self.rep, self.f, self.r, self.single = P, rep, f, r, single
        self.names = {IN: dict((v, k) for k, v in enumerators(P, "ldt::GoodnessOfFitType")), OUT: dict((v, k) for k, v in enumerators(P, "ldt::ScoringType"))}
        self.served = {IN: set(), OUT: set()}
        self.full, self.sim = [], []

    def run(self):
        n = 0
        for ev, row, col, val in stores(self.r, self.f["p"][2]["n"]):
            n += 1
            w = self.store(ev, row, col, val)
            self.rep.ob("store into the metric matrix fills the slot of its metric", w is None, self.P.where(ev.fr.f, ev.node),
                        "%s: %s" % (self.f["q"], w), key="%s:%s" % (base_name(self.f), w))
        # the in-sample values come from the full-sample estimation, the others from the simulation
        for a in self.full:
            for b in self.sim:
                if a[1] & b[1] - {("this",)}:
                    common = [x for x in a[1] & b[1] if x != ("this",) and x[0] != "p"]
                    if common:
                        self.rep.ob("in-sample and out-of-sample metrics have different sources", False, a[0], "%s is used for both" % tshow(common[0])[:60], key=tshow(common[0]))
        self.rep.ob("in-sample and out-of-sample metrics have different sources", True, self.P.where(self.f), "")
        wi, wo = SERVED[base_name(self.f)]
        for nm, want in ((IN, wi), (OUT, wo)):
            for m in sorted(want):
                self.rep.ob("a metric the estimator provides is recorded", m in self.served[nm], self.P.where(self.f), "%s: no store for %s metric %s" % (self.f["q"], "in-sample" if nm == IN else "out-of-sample", m), key="%s:%s:%s" % (base_name(self.f), nm, m))
        return n

    def store(self, ev, row, col, val):
        if row is None:
            return "the metric matrix is changed by %s" % ev.name
        s = slot(row)
        size = None
        if s is None:
            for x in subterms(row):
                q = slot(x) if isinstance(x, tuple) else None
                if q:
                    s = q
                    size = sub(row, x)
                    break
        if s is None:
            return "its row %s is not the slot of a metric" % tshow(row)[:80]
        nm, key = s
        if nm == IN and size is not None:
            return "an in-sample metric is stored in row %s" % tshow(row)[:80]
        if nm == OUT and not (size is not None and size[0] in ("f", "F") and size[2] == "size" and fld(size[1], "MetricsIn") is not None):
            return "an out-of-sample metric is stored in row %s" % tshow(row)[:80]
        if is_k(key):
            ks = {key[1]}
        else:
            ks = {v for _, v in loop_enums(ev, key)}
            if not ks:
                return "the metric of row %s is not known" % tshow(row)[:80]
        ens = {self.names[nm].get(k) for k in ks}
        if None in ens:
            return "row %s belongs to no metric" % tshow(row)[:80]
        self.served[nm] |= ens
        # guard: stored whatever the position of the metric in the request, never when it was not requested
        conds = conj(ev.facts)
        for pos in (0, 1, 3):
            for others in (-1, 2):
                for nin, nout in ([(4, 0), (4, 4)] if nm == IN else [(0, 4), (4, 4)]):
                    w = world(nm, key, pos, others, nin, nout)
                    for c in conds:
                        if holds(c, w) is False:
                            return "not stored when the metric is at position %d of the request (%s)" % (pos, tshow(c)[:80])
        for others in (-1, 0, 2):
            w = world(nm, key, -1, others, 4, 4)
            if not any(holds(c, w) is False for c in conds):
                return "stored although the metric was not requested"
        # column
        if col == K(0) and self.single:
            pass
        else:
            c = over_targets(ev, col)
            if c:
                return c
        # value
        where = self.P.where(ev.fr.f, ev.node)
        if nm == IN:
            for e in ens:
                w = self.member(ev, val, e)
                if w:
                    return w
            rs = set()
            for x in paths_of(val):
                if x[2] in MEMBERS:
                    rs |= roots(x)
            self.full.append((where, rs))
        else:
            g = get_of(val)
            if g and not any(x[2] in MEMBERS for x in paths_of(val)):
                M, a, b = g
                if slot(a) != (nm, key):
                    return "the value is read from row %s of the simulation results" % tshow(a)[:80]
                eb = elem(b)
                if not (eb and eb[0] in self.equations and same_index(ev, eb, col)):
                    return "the value is read from column %s of the simulation results, not from the equation of the target" % tshow(b)[:80]
                w = self.computed(ev, M)
                if w:
                    return w
                self.sim.append((where, roots(M)))
            else:
                for e in ens:
                    w = self.member(ev, val, e)
                    if w:
                        return w
                rs = set()
                for x in paths_of(val):
                    if x[2] in MEMBERS:
                        rs |= roots(x)
                self.sim.append((where, rs))
        return None

    def member(self, ev, val, e):
        ms = [x for x in paths_of(val) if x[2] in MEMBERS]
        ms = [x for x in ms if not any(y is not x and x in roots(y[1]) for y in ms)]
        if not ms:
            if e == "kBrier":      # computed in place
                return None
            return "the value of %s is %s" % (e, tshow(val)[:80])
        for x in ms:
            if x[2] not in MEMBER[e]:
                return "the value of %s is read from %s" % (e, tshow(x)[:80])
            w = self.computed(ev, x[1])
            if w:
                return w
        return None

    def computed(self, ev, obj):
        rs = roots(obj) - {("this",)}
        for e in self.r.events:
            if e is ev:
                break
            if e.kind == "call" and e.obj in rs and (e.name.startswith("Calculate") or e.name.startswith("Estimate")):
                return None
        return "%s is read before it is computed in this evaluation" % tshow(obj)[:60]


def cofilled(P, rep):
    """vectors filled in step with TargetsPositions with the position of the target among the equations"""
    good = None
    places = 0
    for f in P.funcs.values():
        if base_name(f) != "SearcherReg" or not f.get("body") or not (f.get("ctor") or f["n"] == "EstimateOne"):
            continue
        r = Look(P, f)
        r.run(f["f"])
        push = [e for e in r.events if e.kind == "call" and e.name in ("push_back", "emplace_back") and e.obj is not None and e.obj[0] in ("f", "F")]
        mine = [e for e in push if e.obj[2] == "TargetsPositions"]
        for t in mine:
            places += 1
            el = elem(t.args[0])
            lst = el and (fld(el[0], "Vec") or el[0])
            okv = el is not None and any(x == "LengthTargets" for c in conj(t.facts) for y in subterms(c) if isinstance(y, tuple) for x in y if isinstance(x, str))
            rep.ob("target positions hold the targets among the dependent variables", bool(okv), P.where(t.fr.f, t.node), "what is recorded as a target is %s" % tshow(t.args[0])[:80], key=f["n"])
            # the guard selects exactly the targets
            if el is not None:
                for v, want in ((0, True), (1, True), (2, False), (3, False)):
                    def rule(x, el=el, v=v, t=t):
                        if x == t.args[0]:
                            return v
                        if isinstance(x, tuple) and x and x[0] in ("f", "F") and x[2] == "LengthTargets":
                            return 2
                        return None
                    a = Asg({}, rule)
                    rs = [holds(c, a) for c in conj(t.facts) if any(y == t.args[0] for y in subterms(c))]
                    got = False not in rs
                    if got != want:
                        rep.ob("target positions hold the targets among the dependent variables", False, P.where(t.fr.f, t.node), "variable %d of 2 targets is %s" % (v, "left out" if want else "taken for a target"), key="%s:%d" % (f["n"], v))
            here = set()
            for e in push:
                if e is t or el is None:
                    continue
                if {l.it for l in e.loops} == {l.it for l in t.loops} and conj(e.facts) == conj(t.facts) and e.args[0] in (el[1],) + tuple(l.it for l in t.loops):
                    if not any(l.early for l in e.loops):
                        here.add(e.obj)
            good = here if good is None else good & here
        if mine:
            # both lists start empty
            clears = {e.obj for e in r.events if e.kind == "call" and e.name == "clear"}
            if not f.get("ctor"):
                for e in mine:
                    rep.ob("target positions start empty in each evaluation", e.obj in clears, P.where(e.fr.f, e.node), "the target positions of the previous model are kept", key="clear")
                good = {g for g in (good or set()) if g in clears}
    rep.need("places that collect the targets", 2, places)
    return good or set()


def type_one(P, rep, f, r, equations, single):
    n = 0
    me, va = stores(r, f["p"][3]["n"]), stores(r, f["p"][4]["n"])
    for ev, row, col, val in me + va:
        if row is None:
            rep.ob("coefficient store has a known place", False, P.where(ev.fr.f, ev.node), "%s is called on the coefficients" % ev.name, key=ev.name)
    me, va = [x for x in me if x[1] is not None], [x for x in va if x[1] is not None]
    name = base_name(f)

    def find(x, t):
        return any(y == t for y in subterms(x))
    for ev, row, col, val in me:
        n += 1
        where = P.where(ev.fr.f, ev.node)
        mate = [x for x in va if x[1] == row and x[2] == col and conj(x[0].facts) >= conj(ev.facts) and {l.it for l in x[0].loops} == {l.it for l in ev.loops}]
        rep.ob("a coefficient and its variance are stored together", bool(mate), where, "%s: no variance is stored for coefficient (%s, %s)" % (f["q"], tshow(row)[:50], tshow(col)[:30]), key=name)
        if not mate:
            continue
        vval = mate[0][3]
        # both are read at the same place
        g, h = reads(val), reads(vval)
        ok = len(g) == 1 and len(h) == 1 and (g[0][1:] == h[0][1:] or len(g[0]) == 2 and h[0][1:] == (g[0][1], g[0][1]))
        rep.ob("a coefficient and its variance are read at the same place", ok, where, "%s: mean from %s, variance from %s" % (f["q"], show(g), show(h)), key=name)
        if not ok:
            continue
        ok = sqrt_free(vval)
        rep.ob("a variance is stored as a variance", ok, P.where(mate[0][0].fr.f, mate[0][0].node), "%s: %s is not squared" % (f["q"], tshow(vval)[:80]), key=name)
        # the row is that of the coefficient
        idx = g[0][1:]
        el = [elem(x) for x in subterms(row) if isinstance(x, tuple) and elem(x)]
        if not el and name != "VarmaSearcher":
            rep.ob("the coefficient's row follows its position in the model", False, where, "%s: row %s does not depend on the variable" % (f["q"], tshow(row)[:60]), key=name)
        elif el:
            cont, ix = el[0]
            li = [l for l in ev.loops if l.it in idx and same_index(ev, (cont, ix), l.it)]
            rep.ob("the coefficient's row follows its position in the model", bool(li) and not li[0].early, where, "%s: row %s holds element %s" % (f["q"], tshow(row)[:60], show(g)), key=name)
            off = sub(row, [x for x in subterms(row) if isinstance(x, tuple) and elem(x)][0])
            want = off == K(-1) and single or any(isinstance(x, tuple) and len(x) > 2 and x[2] == "NumEndo" for x in subterms(off)) and add(off, [x for x in subterms(off) if isinstance(x, tuple) and len(x) > 2 and x[2] == "NumEndo"][0]) == K(0)
            rep.ob("the coefficient's row is counted from the first exogenous variable", want, where, "%s: row %s" % (f["q"], tshow(row)[:60]), key=name)
        else:
            li = [l for l in ev.loops if l.it == row]
            ok = bool(li) and not li[0].early and any(find(x, row) and sub(x, row) == start_of(x, row) for x in idx)
            rep.ob("the projection's row follows its horizon", ok, where, "%s: row %s holds element %s" % (f["q"], tshow(row)[:60], show(g)), key=name)
        if not single:
            c = over_targets(ev, col)
            rep.ob("the coefficient's column is the target", c is None, where, "%s: %s" % (f["q"], c), key=name)
            eqs = [x for x in idx if elem(x) and elem(x)[0] in equations and same_index(ev, elem(x), col)]
            rep.ob("the coefficient is read from the target's equation", bool(eqs), where, "%s: %s" % (f["q"], show(g)), key=name)
    for ev, row, col, val in va:
        if not any(x[1] == row and x[2] == col for x in me):
            rep.ob("a coefficient and its variance are stored together", False, P.where(ev.fr.f, ev.node), "%s: a variance without a coefficient" % f["q"], key=name + ":v")
    return n


def start_of(x, row):
    for y in subterms(x):
        if isinstance(y, tuple) and len(y) > 2 and y[0] in ("f", "F") and y[2] == "StartIndex":
            return y
    return K(0)


def reads(t):
    out = []
    for x in subterms(t):
        if not isinstance(x, tuple) or not x:
            continue
        g = get_of(x)
        if g:
            if g not in out:
                out.append(g)
        e = elem(x)
        if e and fld(e[0], "Data") is not None and (e[0], e[1]) not in out:
            out.append((fld(e[0], "Data"), e[1]))
    # element reads used only inside an index are not values
    idx = {y for g in out for z in g[1:] for y in subterms(z) if isinstance(y, tuple)}
    return [g for g in out if not any(isinstance(x, tuple) and (get_of(x) == g) for x in idx)]


def show(g):
    return "; ".join("%s(%s)" % (tshow(x[0])[:50], ", ".join(tshow(y)[:40] for y in x[1:])) for x in g)[:140] or "?"


def sqrt_free(t):
    """a member named ...std enters squared, anything else as it is"""
    std = [x for x in subterms(t) if isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and isinstance(x[2], str) and "std" in x[2].lower()]
    pw = any(isinstance(x, str) and x == "pow" for y in subterms(t) if isinstance(y, tuple) for x in y)
    if not std:
        return not pw and "sqrt" not in tshow(t)
    if pw:
        return any(isinstance(y, tuple) and "pow" in [z for z in y if isinstance(z, str)] and K(2) in y for y in subterms(t))
    return t[0] == "P" and any(len(m) == 2 and m[0] == m[1] for m, c in t[1])


def simulations(P, rep):
    """rows of the result matrices of the simulations follow the list of metrics"""
    done = {}
    for f in P.funcs.values():
        c = base_name(f)
        if c not in ("SurSimulation", "VarmaSimulation") or not f["n"].startswith("Calculate") or not f.get("body"):
            continue
        r = Look(P, f, False)
        r.run(f["f"])
        MADE.clear()
        MADE.update(r.copies)
        post = {}
        n = 0
        for ev in r.events:
            if ev.kind != "call" or ev.name not in ("Set0", "Set", "Set_Plus0", "Set_Plus") or ev.obj is None or ev.obj[0] not in ("f", "F") or ev.obj[2] not in ("Results", "ResultAggs"):
                continue
            row, col, val = ev.args
            where = P.where(ev.fr.f, ev.node)
            li = next((l for l in ev.loops if l.it == row), None)
            n += 1
            if li is None or li.early:
                # a loop that only a cancellation leaves is fine
                if li is None or not only_cancel(li):
                    rep.ob("row of the simulation results follows the metric", False, where, "%s: row %s" % (f["q"], tshow(row)[:60]), key="%s:row" % f["n"])
                    continue
            t = li.trip
            over = li.cont is not None and is_metrics(li.cont) or t is not None and any(isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and (x[2] == "size" and is_metrics(x[1]) or x[2] == "RowsCount" and x[1] == ev.obj) for x in subterms(t))
            rep.ob("row of the simulation results follows the metric", over, where, "%s: the row runs over %s" % (f["q"], tshow(li.cont or t or K(0))[:60]), key="%s:over" % f["n"])
            # the metric this store depends on
            mets = metric_terms(ev, val, r)
            ok = all(e[1] in (row, ("any",)) for e in mets)
            rep.ob("row of the simulation results follows the metric", ok, where, "%s: row %s holds the score of metric %s" % (f["q"], tshow(row)[:40], "; ".join(tshow(e[1])[:40] for e in mets)), key="%s:row" % f["n"])
            same = [g for g in reads(val) if g[0] == ev.obj]
            ok = all(g[1:] == (row, col) for g in same)
            rep.ob("simulation results are accumulated in place", ok, where, "%s: (%s, %s) is updated from %s" % (f["q"], tshow(row)[:30], tshow(col)[:30], show(same)), key="%s:acc" % f["n"])
            s = tshow(val)
            kind = "sqrt" if "sqrt" in s else "percent" if "100" in s else None
            if kind:
                post.setdefault(kind, set()).update(applies(P, ev))
        rep.need("stores into the results of %s::%s" % (c, f["n"]), 2, n)
        for kind, want in (("sqrt", {"kRmse", "kRmspe"}), ("percent", {"kMape", "kRmspe"})):
            rep.ob("aggregation of the scores is that of the metric", post.get(kind, set()) == want, P.where(f), "%s: %s is applied to %s" % (f["q"], kind, ", ".join(sorted(post.get(kind, ()))) or "none"), key="%s:%s" % (f["n"], kind))
        done[c] = 1
    rep.need("simulation classes", 2, len(done))


def only_cancel(li):
    from ..program import kids as _k
    for x in li.early:
        if x["k"] == "Break":
            return False
    return True


def metric_terms(ev, val, r):
    out = []

    def add_(t):
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] in ("f", "F"):
                e = elem(x)
                if e and is_metrics(e[0]):
                    out.append(e)
    add_(val)
    for c in conj(ev.facts):
        add_(c)
    # the score this value is read from
    ms = {g[0] for g in reads(val)} - {ev.obj}
    last = None
    for e in r.events:
        if e is ev:
            break
        if e.kind == "call" and e.args and any(a in ms for a in e.args) and any(elem(a) and is_metrics(elem(a)[0]) for a in e.args):
            last = e
    if last is not None:
        for a in last.args:
            if elem(a) and is_metrics(elem(a)[0]):
                out.append(elem(a))
    return out


MADE = {}


def is_metrics(t):
    s = t
    for _ in range(3):       # a local copy of the list
        m = MADE.get(s)
        if m is None:
            break
        s = m
    while s and s[0] in ("f", "F"):
        if s[2] in ("metrics", "pMetricsOut", "MetricsOut", "Metrics", "mMetrics", "pMetrics"):
            return True
        s = s[1]
    return s == ("p", "metrics")


def applies(P, ev):
    """enumerators for which the store happens, judged by the conditions on the metric"""
    out = set()
    cs = conj(ev.facts)
    ats = {x for c in cs for x in subterms(c) if isinstance(x, tuple) and x and x[0] in ("f", "F") and elem(x) and is_metrics(elem(x)[0])}
    for n, v in enumerators(P, "ldt::ScoringType"):
        a = {x: v for x in ats}
        if False not in [holds(c, a) for c in cs]:
            out.add(n)
    return out


def summaries(P, rep):
    """Push and the constructor address the slots by (metric, target, third index)"""
    n = 0
    for k in (0, 1, 2):
        f = next((f for f in P.funcs.values() if base_name(f) == "Searcher" and f["n"] == "Push%d" % k and f.get("body")), None)
        if f is None:
            raise AnalysisError("Searcher::Push%d not found" % k)
        r = Look(P, f)
        r.run(f["f"])
        ps = [("p", p["n"]) for p in f["p"][1:]]
        evs = [e for e in r.events if e.kind == "call" and e.name == "Push"]
        ok = len(evs) == 1
        if ok:
            t, ix = evs[0].obj, []
            while elem(t):
                t, i = elem(t)
                ix.insert(0, i)
            ok = ix == ps[:2 if k == 0 else 3] and fld(t, "Summaries%d" % k) is not None and evs[0].args[1:2] == [K(k == 0)] and evs[0].args[0] == ("p", f["p"][0]["n"]) and not conditions(evs[0])
        n += 1
        rep.ob("a push reaches the slot of its metric, target and coefficient", ok, P.where(f), "%s pushes to %s" % (f["q"], evs and evs[0].show()[:100]), key=f["n"])
    rep.need("push functions", 3, n)
    # constructor
    f = next((f for f in P.funcs.values() if base_name(f) == "Searcher" and f.get("ctor") and f.get("body") and len(f["p"]) > 3), None)
    if f is None:
        raise AnalysisError("constructor of Searcher not found")
    r = Look(P, f)
    r.run(f["f"])
    got = set()
    ats = []
    for e in r.events:
        if e.kind != "call" or e.obj is None:
            continue
        t, depth = e.obj, 0
        while elem(t):
            t, _ = elem(t)
            depth += 1
        lev = next((k for k in (0, 1, 2) if fld(t, "Summaries%d" % k) is not None), None)
        if lev is None:
            continue
        if e.name in ("at", "operator[]"):
            ats.append(e.args[0])
            continue
        if e.name not in ("operator=", "push_back", "emplace_back") or not e.args or e.args[0] not in r.made:
            continue
        node, cls, args, facts = r.made[e.args[0]]
        if cls.split("::")[-1] != "SearcherSummary" or len(args) < 6:
            continue
        ix = ats[-depth:] if depth else []
        if e.name != "operator=" and e.loops:
            ix = ix + [e.loops[-1].it]
        want = ix + [K(0)] if lev == 0 else ix
        po = elem(args[4])
        ok = args[:3] == want and len(set(ix)) == len(ix) and po is not None and fld(po[0], "EvalIsPosOrientation") is not None and po[1] in (ix[0], ("any",)) and not any(l.early for l in e.loops)
        got.add(lev)
        rep.ob("a summary knows the slot it stands for", ok, P.where(f, node), "Summaries%d[%s] is created for %s" % (lev, ",".join(tshow(x)[:20] for x in ix), ", ".join(tshow(a)[:30] for a in args[:3])), key="ctor%d" % lev)
    rep.need("summary arrays that are filled", 3, len(got))


def indices(P, rep):
    """the index maps give each metric its place in the request; orientations follow the same order"""
    f = next((f for f in P.funcs.values() if base_name(f) == "SearchMetricOptions" and f["n"] == "Update" and f.get("body")), None)
    if f is None:
        raise AnalysisError("SearchMetricOptions::Update not found")
    found = {IN: set(), OUT: set()}
    n = 0
    r = Look(P, f)
    r.run(f["f"])
    for e in r.events:
        o = e.obj
        if e.kind == "call" and e.name in ("insert", "emplace", "insert_or_assign") and o is not None and o[0] in ("f", "F") and o[2] in (IN, OUT):
            n += 1
            nm = o[2]
            en = "ldt::GoodnessOfFitType" if nm == IN else "ldt::ScoringType"
            t = e.args
            xs = [x for a in t for x in subterms(a) if isinstance(x, tuple)]
            idx = [x for x in xs if any(isinstance(y, str) and "IndexOf" in y for y in x)]
            lst = "MetricsIn" if nm == IN else "MetricsOut"
            ok = bool(idx) and any(fld(x, lst) is not None for x in subterms(idx[0]) if isinstance(x, tuple))
            rep.ob("a metric's index is its place in its own list", ok, P.where(e.fr.f, e.node), "%s is filled with %s" % (nm, ", ".join(tshow(a)[:80] for a in t)), key=nm)
            vs = loop_enums(e, None)
            found[nm] |= {v for _, v in vs}
            rep.ob("the loop over the metrics does not stop early", not any(l.early for l in e.loops), P.where(e.fr.f, e.node), "the loop can stop early", key=nm + ":early")
    rep.need("places that fill the index maps", 2, n)
    for nm, en in ((IN, "ldt::GoodnessOfFitType"), (OUT, "ldt::ScoringType")):
        for k, v in enumerators(P, en):
            rep.ob("every metric has an index", v in found[nm] or not found[nm], P.where(f), "%s has no entry for %s" % (nm, k), key="%s:%s" % (nm, k))
    orient = [e for e in r.events if e.kind == "call" and e.name == "push_back" and e.obj is not None and e.obj[0] in ("f", "F") and e.obj[2] == "EvalIsPosOrientation"]
    order = []
    for e in orient:
        for nm in ("MetricsIn", "MetricsOut"):
            if any(isinstance(x, tuple) and fld(x, nm) is not None for a in e.args for x in subterms(a)) or any(l.cont is not None and fld(l.cont, nm) is not None for l in e.loops):
                order.append(nm)
        rep.ob("every metric has an orientation", len(e.loops) == 1 and not e.loops[0].early and not conditions(e) - conj(orient[0].facts), P.where(e.fr.f, e.node), "an orientation is left out", key="orient")
    rep.ob("orientations are listed in-sample first", order == ["MetricsIn", "MetricsOut"], P.where(f), "the order is %s" % order, key="order")


def r_models(P, rep):
    """values handed back by a model written in R go to the matrix of their name"""
    names = {"metrics": 2, "type1means": 3, "type1vars": 4}
    n = 0
    for f in P.funcs.values():
        if f["n"] != "EstimateOneReg" or base_name(f) != "RFuncSearcher" or not f.get("body"):
            continue
        n += 1
        dest = {f["p"][i]["n"]: k for k, i in names.items()}
        src = {}

        def keys(x):
            return {y.get("v") for y in walk(x) if y["k"] == "Str" and y.get("v") in names}
        for x in P.all_nodes(f):
            if x["k"] == "Decl":
                for v in x["v"]:
                    if v.get("init"):
                        ks = keys(v["init"])
                        if len(ks) == 1:
                            src[v["n"]] = ks.pop()
        for x in P.all_nodes(f):
            if x["k"] in ("Assign", "Bin", "Op") and x.get("op") in ("=",) or x["k"] == "Assign":
                a, b = x.get("a") or x.get("l"), x.get("b") or x.get("r")
                if not isinstance(a, dict) or not isinstance(b, dict):
                    continue
                to = {dest[y["n"]] for y in walk(a) if y["k"] == "Ref" and y.get("n") in dest}
                fr = {src[y["n"]] for y in walk(b) if y["k"] == "Ref" and y.get("n") in src} | keys(b)
                if len(to) == 1 and fr:
                    rep.ob("a value returned by an R model is stored under its own name", fr == to, P.where(f, x), "element '%s' is stored as '%s'" % (", ".join(sorted(fr)), to.pop()), key="rfunc")
    rep.need("searchers of R models", 1, n)


def outcome(P, rep):
    """a completed evaluation does not report a failure"""
    for f in P.funcs.values():
        if f["n"] != "EstimateOneReg" or not f.get("body") or base_name(f) == "SearcherReg":
            continue
        b = f["body"]["s"] if f["body"]["k"] == "Block" else [f["body"]]
        last = b[-1] if b else None
        if last is None or last["k"] != "Return":
            continue
        txt = [x.get("v") for x in walk(last) if x["k"] == "Str"]
        if txt:
            rep.ob("a completed evaluation reports success", all(t == "" for t in txt), P.where(f, last), "%s ends with the failure '%s', so nothing is recorded" % (f["q"], txt[0]), key="end:" + base_name(f))


def run(P, rep):
    r_models(P, rep)
    outcome(P, rep)
    eqs = cofilled(P, rep)
    fs = evaluations(P)
    classes = set()
    n = k = 0
    for f in fs:
        c = base_name(f)
        classes.add(c)
        r = Look(P, f)
        r.run(f["f"])
        single = c == "DiscreteChoiceSearcher"
        s = Slots(P, rep, f, r, single)
        s.equations = eqs
        n += s.run()
        k += type_one(P, rep, f, r, eqs, single)
        rep.did("evaluation functions")
    rep.need("searcher classes with metrics", 3, len(classes))
    rep.need("stores into metric matrices", 3, n)
    rep.need("stores of coefficients", 3, k)
    # pushes
    m = 0
    for f in P.funcs.values():
        if f["n"] != "EstimateOne" or not f.get("body") or base_name(f) != "SearcherReg":
            continue
        r = Look(P, f)
        r.run(f["f"])
        for p in pushes(P, f, r):
            m += 1
            w = check_indices(P, p)
            rep.ob("a push records a metric under its own indices", w is None, p.where, "%s: %s" % (f["q"], w), key="push%d:%s" % (p.level, w))
        # a metric that is not computed is not recorded
        reg = [e for e in r.events if e.kind == "call" and e.name == "EstimateOneReg"]
        rep.need("evaluation calls", 1, len(reg))
        for e in reg:
            ok = False
            for x in r.events:
                if x is e:
                    break
                if x.kind == "call" and x.name == "SetValue" and x.obj is not None and fld(x.obj, "Mat") == e.args[2] and x.args and "nan" in tshow(x.args[0]).lower() and not x.loops:
                    ok = True
            rep.ob("slots start as not-a-number", ok, P.where(e.fr.f, e.node), "a metric that the searcher does not compute is recorded as zero", key="nan")
    rep.need("pushes", 2, m)
    simulations(P, rep)
    summaries(P, rep)
    indices(P, rep)
