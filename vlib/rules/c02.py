"""C02: no model that fails a requested check is admitted."""
from ..program import AnalysisError, strip, walk, kids
from ..absint import K, is_k, joined, subterms, tshow, sub, add, tnot, ZERO
from ..events import Recorder, conj, elem, fld, holds, evalterm
from ..paths import Paths
from .c03 import Asg, Look, evaluations, base_name

LEVEL = "other"
TECHNIQUE = "abstract interpretation of each model evaluation under symbolic scenarios (a limit set and violated / just satisfied / disabled; all other quantities as in a plain request): reachability of a normal end; path-state analysis of the simulation loops (all paths, exceptions included) for the count of valid simulations"
NOTE = ("For every estimator and every limit, the normal end of the evaluation must be unreachable when the limit is set and its own statistic violates it, and reachable when it does not, at the boundary too. "
        "The statistic is identified by the member of the estimated model (or the number of observations and parameters of the estimated data). The count of invalid simulations is followed on every path of the simulation loops. "
        "The numerical value of the statistics themselves is V01.")
EXPLANATION = NOTE

N, KK, M, EXO = 20, 6, 2, 2          # observations, parameters of an equation, equations, exogenous variables
PLAIN = {"RequestCancel": 0, "Estimation": 1, "MinObsCount": 0, "MinDof": 0, "MaxAic": 1e300, "MaxSic": 1e300, "MaxConditionNumber": 1e300, "MinR2": -1e300, "MinOutSim": 0,
         "mCheckCN": 0, "mCheckCN_all": 0, "Prediction": 0, "pChecks": 1, "pMetrics": 1, "pItems": 1, "pOptions": 1, "pData": 1, "WorkSize": 1, "ValidCounts": 5, "SimFixSize": 10, "mCount": 10,
         "Aic": 5.0, "Sic": 7.0, "r2": 0.4, "condition_number": 11.0, "NumParamsEq": KK, "NumPartitions": KK, "mNumChoices": 2, "SigSearchMaxIter": 0, "mSigSearchMaxIter": 0,
         "mCheckNan": 1, "mHasPcaX": 0, "mHasPcaY": 0, "pPcaOptionsX": 0, "pPcaOptionsY": 0, "MaLength": 0, "ArLength": 2, "ExoCount": EXO, "EqsCount": M}
STATS = {"Aic", "Sic", "r2", "condition_number"}


def has(t, *names):
    return any(isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and x[2] in names for x in subterms(t))


def scene(family, **over):
    v = dict(PLAIN)
    v.update(over)
    if family == "VarmaSearcher":
        v["NumPartitions"] = M

    def rule(t):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "tr":
            return rule(t[1])
        if t[0] == "p":
            return v.get("param:" + t[1])
        if t[0] == "call" or t[0] == "ap":
            return v.get("call:" + str(t[1])) if isinstance(t[1], str) else None
        if t[0] not in ("f", "F"):
            return None
        n = t[2]
        if n == "size":
            if has(t[1], "InnerIndices"):
                return EXO if family == "VarmaSearcher" else M
            for f, c in (("MetricsIn", 1), ("MetricsOut", 1), ("TargetsPositions", 1), ("TargetsEquations", 1)):
                if fld(t[1], f) is not None:
                    return v.get(f, c)
            return None
        if n == "RowsCount":
            if has(t, "pSource", "Source"):
                return N + 100
            if has(t, "Result"):
                return N
            if family == "VarmaSearcher" and fld(t, "X") is not None or t[1][0] in ("f", "F") and t[1][2] == "X" and family == "VarmaSearcher":
                return EXO
            return N if has(t, "X", "Y") else None
        if n == "ColsCount" and has(t, "Result") and family == "SurSearcher":
            return KK + M
        if n == "Start":
            return 3
        if n == "End":
            return N + 2
        return v.get(n) if isinstance(n, str) else None
    return Asg({}, rule)


class Scene(Look):
    """runs an evaluation in one scenario: conditions the scenario decides take one branch"""

    def __init__(self, P, f, world):
        super().__init__(P, f)
        self.world = world
        self.around = {}

    def on_throw(self, node, st, fr):
        super().on_throw(node, st, fr)
        if not self.quiet:
            self.around[id(node)] = list(self.loopstack)

    def known(self, st, c):
        r = super().known(st, c)
        return r if r is not None else holds(c, self.world)

    def want_inline(self, fkey, node, frame):
        g = self.P.funcs.get(fkey)
        if g and g.get("body") and not g.get("ctor") and (any("SearchModelChecks" in p["t"] for p in g["p"]) or base_name(g) in ("SearchModelChecks", "SearcherReg", "Searcher") and g["n"] not in ("EstimateOne",) and not g["n"].startswith("Push") and not g.get("virtual")):
            return True
        return super().want_inline(fkey, node, frame)


def ends(r, f):
    """normal ends of the evaluation: the returns of its own body that give the empty message"""
    out = []
    for e in r.events:
        if e.kind != "return" or e.fr.f["f"] != f["f"]:
            continue
        s = [x for x in walk(e.node["e"])] if e.node.get("e") else []
        strs = [x for x in s if x["k"] == "Str"]
        if strs and all(x.get("v") for x in strs):
            continue
        out.append(e)
    return out


def run(P, rep):
    evs = evaluations(P)
    rep.need("model evaluations", 6, len(evs))
    for f in evs:
        family(P, rep, f)
    update(P, rep)
    pushes(P, rep)
    simulations(P, rep)


LIMITS = [
    # name, scenario violated, scenarios satisfied, families
    ("minimum number of observations", dict(MinObsCount=N + 1), [dict(MinObsCount=N), dict(MinObsCount=1)], None),
    ("maximum AIC", dict(MaxAic=4.9), [dict(MaxAic=5.0), dict(MaxAic=5.1)], None),
    ("maximum SIC", dict(MaxSic=6.9, Aic=-50.0), [dict(MaxSic=7.0), dict(MaxSic=7.1)], None),
    ("maximum AIC", dict(MaxAic=-3.0, Aic=-2.5, Sic=-30.0), [dict(MaxAic=-2.0, Aic=-2.5)], None),
    ("maximum SIC", dict(MaxSic=0.0, Sic=0.5, Aic=-50.0), [dict(MaxSic=0.0, Sic=-0.5)], None),
    ("maximum condition number", dict(MaxConditionNumber=10.0, mCheckCN=1, mCheckCN_all=1, Aic=-50.0), [dict(MaxConditionNumber=11.5, mCheckCN=1, mCheckCN_all=1)], ("SurSearcher", "DiscreteChoiceSearcher")),
    ("maximum condition number", dict(MaxConditionNumber=10.0, mCheckCN=0, mCheckCN_all=1, MetricsOut=0), [dict(MaxConditionNumber=11.5, mCheckCN=0, mCheckCN_all=1, MetricsOut=0)], ("SurSearcher", "DiscreteChoiceSearcher")),
    ("minimum R2", dict(MinR2=0.5), [dict(MinR2=0.3), dict(MinR2=0.4)], ("SurSearcher",)),
    ("minimum R2", dict(MinR2=-0.5, r2=-0.7), [dict(MinR2=-0.5, r2=-0.4), dict(MinR2=0.0, r2=0.2)], ("SurSearcher",)),
    ("a prediction that is not a number", {"Prediction": 1, "call:Any": 1}, [{"Prediction": 1, "call:Any": 0}], ("VarmaSearcher",)),
]


def dofs(fam):
    if fam == "DiscreteChoiceSearcher":
        out = []
        for c in (2, 4):
            d = N - KK - (c - 2)
            out.append(("minimum degrees of freedom", dict(MinDof=d + 1, mNumChoices=c), [dict(MinDof=d, mNumChoices=c), dict(MinDof=1, mNumChoices=c)], None))
        return out
    return [("minimum degrees of freedom", dict(MinDof=N - KK + 1), [dict(MinDof=N - KK), dict(MinDof=1)], None)]


def family(P, rep, f):
    fam = base_name(f)
    where = P.where(f)
    n = 0
    for name, bad, goods, fams in LIMITS + dofs(fam):
        if fams and fam not in fams:
            continue
        n += 1
        for also in (dict(), dict(MetricsIn=0), dict(MetricsOut=0), dict(MetricsIn=0, MetricsOut=0, Length1=0), dict(Length1=4)):
            r = Scene(P, f, scene(fam, **{**also, **bad}))
            r.run(f["f"])
            e = ends(r, f)
            rep.ob("a model that violates a limit is refused", not e, P.where(f, e[0].node) if e else where,
                   "%s: the evaluation ends normally although %s is violated (%s)" % (f["q"], name, ", ".join("%s=%s" % x for x in also.items())), key="%s:%s" % (fam, name))
        for g in goods:
            r = Scene(P, f, scene(fam, **g))
            r.run(f["f"])
            rep.ob("a model that satisfies a limit is kept", bool(ends(r, f)), where,
                   "%s: no normal end although %s is satisfied (%s)" % (f["q"], name, ", ".join("%s=%s" % x for x in g.items())), key="%s:%s" % (fam, name))
    # a plain request and one in which every limit is disabled
    for g in (dict(), dict(Estimation=0), dict(MetricsOut=0, SimFixSize=0)):
        r = Scene(P, f, scene(fam, **g))
        r.run(f["f"])
        rep.ob("a model that satisfies a limit is kept", bool(ends(r, f)), where, "%s: no normal end without limits" % f["q"], key="%s:plain" % fam)
    computed(P, rep, f)
    handed(P, rep, f)
    if fam == "VarmaSearcher":
        bounds(P, rep, f)
    rep.did("limits of %s" % fam, n)


def roots(t):
    out = []
    while t and t[0] in ("f", "F"):
        out.append(t)
        t = t[1]
    return out


def computed(P, rep, f):
    """the statistics that are compared belong to a model computed earlier in this evaluation with the whole data"""
    fam = base_name(f)
    r = Scene(P, f, scene(fam, mCheckCN=None, mCheckCN_all=None, MaxAic=None, MaxSic=None, MinR2=None, MaxConditionNumber=None, Prediction=None))
    r.run(f["f"])
    n = 0
    calls = [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and (e.name.startswith("Calculate") or e.name.startswith("Estimate"))]
    for node, facts, fr in r.throws:
        for c in conj(facts):
            for x in subterms(c):
                if isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and x[2] in STATS:
                    n += 1
                    rs = set(roots(x[1]))
                    ok = any(e.obj in rs for _, e in calls)
                    rep.ob("the compared statistic is one of the estimated model", ok, P.where(fr.f, node), "%s: %s is compared but never computed in this evaluation" % (f["q"], tshow(x)), key="%s:%s" % (fam, tshow(x)))
                    full = [e for _, e in calls if e.obj in rs and e.name != "x"]
                    sim = any("Simulation" in (e.q or "") or "Sim<" in (e.q or "") for e in full if e.obj in rs)
                    rep.ob("the compared statistic is one of the estimated model", not sim, P.where(fr.f, node), "%s: %s belongs to a simulation" % (f["q"], tshow(x)), key="%s:%s:sim" % (fam, tshow(x)))
    rep.need("statistics compared in %s" % fam, 2, n)


def param_of(P, e, name):
    """value handed for the parameter <name> of the called function"""
    for k in P.targets(e.node):
        g = P.funcs[k]
        for i, p in enumerate(g["p"]):
            if p["n"] == name and i < len(e.args):
                return e.args[i]
    return None


def handed(P, rep, f):
    """limits that are handed on to the estimation and simulation"""
    fam = base_name(f)
    r = Scene(P, f, scene(fam))
    r.run(f["f"])
    r0 = Recorder(P)
    rr = Scene(P, f, scene(fam, mCheckCN=None, mCheckCN_all=None, MinOutSim=None, SimFixSize=10, mCount=10, MaxConditionNumber=None))
    rr.run(f["f"])
    sims = 0
    for e in rr.events:
        if e.kind != "call":
            continue
        v = param_of(P, e, "maxInvalidSim")
        if v is not None:
            sims += 1
            ok = True
            for sim, mn, want in ((10, 0, 10), (10, 3, 7), (10, 10, 0)):
                w = scene(fam, SimFixSize=sim, mCount=sim, MinOutSim=mn)
                ok = ok and evalterm(v, w) == want
            rep.ob("the simulation is given the number of simulations that may fail", ok, P.where(e.fr.f, e.node), "%s: %s is given" % (f["q"], tshow(v)[:80]), key="%s:sim" % fam)
        flag = None
        v = param_of(P, e, "maxCondNum")
        if v is not None:
            flag = "mCheckCN" if "Simulation" in (e.q or "") else "mCheckCN_all"
            on = evalterm(v, scene(fam, **{"MaxConditionNumber": 10.0, "mCheckCN": 1, "mCheckCN_all": 1}))
            rep.ob("the estimation is given the maximum condition number", on == 10.0, P.where(e.fr.f, e.node), "%s: %s is given" % (f["q"], tshow(v)[:80]), key="%s:cn:%s" % (fam, flag))
            only = evalterm(v, scene(fam, **{"MaxConditionNumber": 10.0, "mCheckCN": int(flag == "mCheckCN"), "mCheckCN_all": int(flag != "mCheckCN")}))
            rep.ob("the estimation is given the maximum condition number", only == 10.0, P.where(e.fr.f, e.node), "%s: %s is given" % (f["q"], tshow(v)[:80]), key="%s:cn1:%s" % (fam, flag))
    rep.need("simulations started by %s" % fam, 1, sims)


def reads(c, what):
    """element reads of the matrix <what> inside a condition: (term, row, column)"""
    out = []
    for x in subterms(c):
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "ap" and str(x[1]).startswith("Get") and has(x[2], what):
            out.append((x, x[3], x[4]))
    return out


def bounds(P, rep, f):
    fam = "VarmaSearcher"
    w0 = dict(Prediction=1, MetricsOut=0, LengthTargets=2, **{"call:Any": 0})
    r = Scene(P, f, scene(fam, **w0))
    r.run(f["f"])
    seen = set()
    for node, facts, fr in r.throws:
        for c in conj(facts):
            if c[0] not in ("gt0", "ge0"):
                continue
            for side in ("Lower", "Upper"):
                b, v = reads(c, "Prediction" + side), reads(c, "Forecast")
                if len(b) != 1 or len(v) != 1:
                    continue
                seen.add(side)
                where = P.where(fr.f, node)
                (b, br, bc), (v, vr, vc) = b[0], v[0]

                def val(fv, bv):
                    return holds(c, Asg({}, lambda t: fv if t == v else bv if t == b else None))
                lo = side == "Lower"
                ok = val(1.0, 2.0) is lo and val(2.0, 1.0) is (not lo) and val(1.0, 1.0) is False
                rep.ob("a prediction beyond a bound is refused", ok, where, "refused when %s" % tshow(c)[:120], key=side)
                w = place(r, node, br, bc, vr, vc)
                rep.ob("a prediction is compared with the bound of its own variable and horizon", w is None, where, w, key=side)
                # nothing else must hold for a target, and others have no bounds
                for t in (0, 1, 2):
                    for h in (1, 3):
                        base = scene(fam, **w0)

                        def rule(x):
                            if x == v:
                                return 1.0 if lo else 3.0
                            if isinstance(x, tuple) and len(x) == 5 and x[0] == "ap" and str(x[1]).startswith("Get") and has(x[2], "PredictionLower", "PredictionUpper"):
                                return 2.0
                            if x == bc or elem(x) and has(x, "CurrentIndices", "TargetsPositions"):
                                return t
                            if elem(x) and has(x, "Horizons"):
                                return h
                            if isinstance(x, tuple) and x and x[0] in ("f", "F") and x[2] == "Data" and has(x, "PredictionLower", "PredictionUpper"):
                                return 1
                            return base[x] if x in base else None
                        if t == 2:
                            own = [holds(o, Asg({}, rule)) for o in conj(facts) if o != c]
                            rep.ob("only targets are compared with bounds", False in own, where, "%s: the variable at index %d, with %d targets" % (fr.f["q"], t, w0["LengthTargets"]), key=side)
                            continue
                        for o in conj(facts):
                            if o != c and holds(o, Asg({}, rule)) is False:
                                rep.ob("a prediction beyond a bound is refused", False, where, "only when %s" % tshow(o)[:100], key=side + ":cond")
    for side in ("Lower", "Upper"):
        rep.ob("a prediction beyond a bound is refused", side in seen, P.where(f), "%s: predictions are not compared with their %s bound" % (f["q"], side.lower()), key=side + ":none")


def place(r, node, br, bc, vr, vc):
    """the compared values belong to the same variable and horizon, in loops that run over all targets and horizons"""
    loops = r.around.get(id(node)) or []
    d = sub(vc, br)
    if not (d[0] in ("f", "F") and d[2] == "StartIndex"):
        return "the horizon of the bound is row %s, of the prediction column %s" % (tshow(br)[:60], tshow(vc)[:60])
    eb = elem(bc)
    if eb is None:
        return "the bound is that of column %s" % tshow(bc)[:60]
    pos = elem(vr)
    if pos is not None:
        if not (has(pos[0], "TargetsEquations") and has(eb[0], "TargetsPositions") and pos[1] == eb[1]):
            return "the prediction of row %s is compared with the bound of %s" % (tshow(vr)[:60], tshow(bc)[:60])
        var = [l for l in loops if l.cont == eb[0] or l.it == pos[1]]
    else:
        ok = eb[1] == vr or eb[1] == ("any",) and any(l.cont == eb[0] and (l.it == vr or l.node["k"] == "RangeFor") for l in loops) \
            or eb[1] == ("any",) and any(l.it == vr and l.trip is not None and has(l.trip, "CurrentIndices") for l in loops)
        if not ok or not has(eb[0], "CurrentIndices"):
            return "the prediction of row %s is compared with the bound of %s" % (tshow(vr)[:60], tshow(bc)[:60])
        var = [l for l in loops if l.cont == eb[0] or l.it == vr]
    hor = []
    for x in subterms(br):
        e = elem(x) if isinstance(x, tuple) else None
        if e and has(e[0], "Horizons"):
            return "the comparison is made at the horizons of the out-of-sample evaluation only, and there are none without such an evaluation"
        if isinstance(x, tuple) and x and x[0] == "it":
            hor += [l for l in loops if l.it == x]
    if not var or not hor:
        return "the comparison does not run over all %s" % ("targets" if not var else "horizons")
    for l in var + hor:
        if any(x["k"] == "Break" for x in l.early):
            return "the comparison can stop early"
        if l.node["k"] != "RangeFor":
            t = l.trip
            if l in hor and t is not None and not horizons(sub(br, l.it), t):
                return "the comparison runs over %s horizons from row %s of the bounds" % (tshow(t)[:60], tshow(sub(br, l.it))[:60])
            if t is None or not has(t, "size", "RowsCount", "ColsCount", "mMaxHorizonCheck", "NumPartitions", "EqsCount"):
                return "the comparison runs to %s" % (tshow(t)[:60] if t else "?")
    return None


def horizons(start, trip):
    return is_k(start) and start[1] == 0 and trip[0] in ("f", "F", "ap") and has(trip, "mMaxHorizonCheck", "RowsCount", "ColsCount")


# ---------------------------------------------------------------- derived settings
def update(P, rep):
    n = 0
    for f in P.funcs.values():
        if not (base_name(f) == "SearchModelChecks" and f["n"] == "Update" and f.get("body")):
            continue
        n += 1
        r = Look(P, f)
        st, _ = r.run(f["f"])
        where = P.where(f)

        def final(name, **over):
            v = dict(MinObsCount=0, MinDof=0, MinOutSim=0, SimFixSize=0, MaxAic=1e300, MaxSic=1e300, MinR2=-1e300, MaxConditionNumber=1e300, Estimation=0, Prediction=0,
                     mIsTimeSeries=0, MetricsIn=0, MetricsOut=0, mCheckCN=0, mCheckCN_all=0)
            v.update(over)

            def rule(t):
                if not isinstance(t, tuple) or not t:
                    return None
                if t[0] == "tr":
                    return rule(t[1])
                if t[0] == "ap" and isinstance(t[1], str) and t[1].split("::")[-1] in ("isinf", "isfinite", "isnan"):
                    x = evalterm(t[2], a)
                    if x is None:
                        return None
                    return {"isinf": abs(x) >= 1e300, "isfinite": abs(x) < 1e300, "isnan": False}[t[1].split("::")[-1]] * 1
                if t[0] == "k" and t[1] in (float("inf"), float("-inf")):
                    return 1e300 if t[1] > 0 else -1e300
                if t[0] not in ("f", "F"):
                    return None
                if t[2] == "size":
                    return next((v[m] for m in ("MetricsIn", "MetricsOut") if fld(t[1], m) is not None), None)
                return v.get(t[2]) if isinstance(t[2], str) else None
            a = Asg({}, rule)
            if name is None:
                return any(all(holds(c, a) is not False for c in conj(facts)) for _, facts, fr in r.throws)
            t = st.env.get(("fld", ("this",), name))
            if t is None:
                return bool(v[name])
            x = evalterm(t, a)
            if x is None:
                x = holds(t, a)
            return None if x is None else bool(x)
        for what, over in [("a minimum number of observations", dict(MinObsCount=3)), ("minimum degrees of freedom", dict(MinDof=3)), ("a maximum AIC", dict(MaxAic=3.0)),
                           ("a maximum SIC", dict(MaxSic=3.0)), ("a minimum R2", dict(MinR2=0.1)), ("a maximum AIC of zero", dict(MaxAic=0.0)), ("a negative minimum R2", dict(MinR2=-0.5)),
                           ("an in-sample metric", dict(MetricsIn=1)), ("a check of the predictions", dict(Prediction=1, mIsTimeSeries=1)), ("the estimation", dict(Estimation=1))]:
            for out in (0, 1):
                g = final("Estimation", MetricsOut=out, SimFixSize=5 * out, **over)
                rep.ob("a limit on the model makes it be estimated", g is True, where, "%s: with %s the model is not estimated with the whole data" % (f["q"], what), key=what)
            g = final("mCheckCN_all", MaxConditionNumber=10.0, **over)
            rep.ob("a maximum condition number is applied whenever the model is estimated", g is True, where, "%s: not applied with %s" % (f["q"], what), key=what)
        g = final("mCheckCN", MaxConditionNumber=10.0, MetricsOut=1)
        rep.ob("a maximum condition number is applied in the simulations", g is True, where, "%s: not applied" % f["q"], key="sim")
        g = final("Prediction", Prediction=1, mIsTimeSeries=1)
        rep.ob("a requested check of the predictions is kept", g is True, where, "%s: dropped" % f["q"], key="pred")
        for least, sims, want in ((3, 3, False), (4, 3, True), (0, 3, False), (1, 1, False), (100, 99, True), (2, 0, None)):
            for out in (0, 1):
                g = final(None, MinOutSim=least, SimFixSize=sims, MetricsOut=out)
                rep.ob("more valid simulations than there are simulations cannot be asked for", want is None or g is want, where,
                       "%s: at least %d of %d are %s" % (f["q"], least, sims, "refused" if g else "accepted"), key="least")
        for nm in ("MinObsCount", "MinDof", "MinOutSim", "MinR2", "MaxAic", "MaxSic", "MaxConditionNumber"):
            rep.ob("the limits themselves are not changed", ("fld", ("this",), nm) not in st.env or st.env[("fld", ("this",), nm)][0] in ("f", "F"), where, "%s changes %s" % (f["q"], nm), key=nm)
    rep.need("functions that derive the checks", 1, n)
    # every model set derives them before it makes a searcher
    sets = 0
    for f in P.funcs.values():
        if not f.get("body") or f["n"] in ("Update", "main") or "/test" in f["file"]:
            continue
        news = [x for x in walk(f["body"]) if x["k"] == "New" and "Searcher" in (x.get("at") or "")]
        if not news or not any("SearchModelChecks" in p["t"] for p in f["p"]):
            continue
        sets += 1
        name = next(p["n"] for p in f["p"] if "SearchModelChecks" in p["t"])
        ok = False
        for s in f["body"]["s"]:
            if any(x in news for x in walk(s)):
                break
            if updates(P, s, name, 0):
                ok = True
                break
        rep.ob("the checks are derived before a searcher is made", ok, P.where(f, news[0]), "%s makes searchers without %s.Update" % (f["q"], name), key=f["n"])
    rep.need("functions that make searchers", 3, sets)


def updates(P, s, name, depth):
    """does this statement always call <name>.Update?"""
    if s["k"] == "Block":
        return any(updates(P, x, name, depth) for x in s["s"])
    if s["k"] != "Expr":
        return False
    e = strip(s["e"])
    if e["k"] != "Call":
        return False
    o = strip(e["o"]) if e.get("o") else None
    if e["n"] == "Update" and o is not None and o["k"] == "Ref" and o["n"] == name:
        return True
    if depth < 3:
        for k in P.targets(e):
            g = P.funcs[k]
            if not g.get("body"):
                continue
            for i, a in enumerate(e.get("a") or []):
                b = strip(a)
                if b["k"] == "Ref" and b["n"] == name and i < len(g["p"]) and any(updates(P, x, g["p"][i]["n"], depth + 1) for x in g["body"]["s"]):
                    return True
    return False


# ---------------------------------------------------------------- values that are not numbers
def pushes(P, rep):
    n = 0
    for f in P.funcs.values():
        if base_name(f) != "SearcherReg" or f["n"] != "EstimateOne" or not f.get("body"):
            continue
        probe = Look(P, f)
        probe.run(f["f"])
        call = [e for e in probe.events if e.kind == "call" and e.name == "EstimateOneReg"]
        if not call:
            raise AnalysisError("%s does not call EstimateOneReg" % f["q"])
        met, mean = call[0].args[2], call[0].args[3]
        for what, bad in (("metric", met), ("coefficient", mean), ("", None)):
            def rule(t):
                if not isinstance(t, tuple) or not t:
                    return None
                if t[0] == "ap" and isinstance(t[1], str) and t[1].split("::")[-1] in ("isnan", "isfinite"):
                    hit = bad is not None and any(x == bad for x in subterms(t[2]))
                    if not any(x in (met, mean) for x in subterms(t[2])):
                        return None
                    return int(hit if t[1].endswith("isnan") else not hit)
                if t[0] in ("f", "F") and t[2] in ("RequestCancel",):
                    return 0
                if t[0] in ("f", "F") and t[2] in ("KeepModelEvaluations", "Length1"):
                    return 1
                return None
            s = Scene(P, f, Asg({}, rule))
            s.run(f["f"])
            got = {k: [e for e in s.events if e.kind == "call" and e.name == k] for k in ("Push0", "Push1")}
            n += 1
            for k in ("Push0", "Push1"):
                forbid = what == "metric" or what == "coefficient" and k == "Push1"
                e = got[k]
                if forbid:
                    rep.ob("a value that is not a number is not recorded", not e, P.where(f, e[0].node) if e else P.where(f), "%s: recorded although the %s is not a number" % (k, what), key="%s:%s" % (k, what))
                else:
                    rep.ob("a valid value is recorded", bool(e), P.where(f), "%s is not reached" % k, key="%s:%s" % (k, what))
    rep.need("cases of the recording function", 3, n)


# ---------------------------------------------------------------- simulations
class SimLoop(Paths):
    """deltas of the counters along every path of one simulation"""

    def __init__(self, P, counters, calc):
        super().__init__(P)
        self.counters = counters      # key -> coefficient
        self.calc = calc              # the call that estimates
        self.main = None
        self.bad = []
        self.done = 0

    def key(self, e):
        e = strip(e)
        if e["k"] == "Ref" and "d" in e:
            return ("d", e["d"])
        if e["k"] == "Mem":
            return ("m", e["n"])
        return None

    def bump(self, st, key, by):
        if by is None:
            return (st[0] | {"lost"}, st[1])
        cur = next((t[2] for t in st[0] if isinstance(t, tuple) and t[0] == "c" and t[1] == key), 0)
        nv = max(-3, min(3, cur + by))
        return (frozenset(t for t in st[0] if not (isinstance(t, tuple) and t[0] == "c" and t[1] == key)) | {("c", key, nv)}, st[1])

    def value(self, st):
        return sum(t[2] * self.counters.get(t[1], 0) for t in st[0] if isinstance(t, tuple) and t[0] == "c")

    def valid(self, st):
        return [t[2] for t in st[0] if isinstance(t, tuple) and t[0] == "c" and t[1][0] == "m" and t[1][1].startswith("Valid")]

    def atom(self, n, st):
        k = n["k"]
        if k == "Mem" and n["n"] == "RequestCancel":
            return [(st, None)]
        if k == "Un" and n["op"].rstrip("p") in ("++", "--"):
            key = self.key(n["e"])
            if key in self.counters or key and key[0] == "m" and key[1].startswith("Valid"):
                return [(self.bump(st, key, 1 if n["op"].startswith("++") else -1), None)]
        if k == "Bin" and n["op"] in ("+=", "-=", "="):
            key = self.key(n["a"])
            if key in self.counters or key and key[0] == "m" and key[1].startswith("Valid"):
                b = strip(n["b"])
                by = None
                if n["op"] != "=" and b["k"] == "Int":
                    by = int(b["v"]) * (1 if n["op"] == "+=" else -1)
                elif n["op"] == "+=" and key not in self.counters:
                    by = 1
                elif n["op"] == "=" and b["k"] == "Bin" and b["op"] in ("+", "-") and self.key(b["a"]) == key and strip(b["b"])["k"] == "Int":
                    by = int(strip(b["b"])["v"]) * (1 if b["op"] == "+" else -1)
                return [(self.bump(s, key, by), None) for s, _ in self.ev(n["b"], st)]
        return None

    def prim(self, n, s):
        if n["k"] == "Call" and (n.get("n") or "") in self.calc:
            t = frozenset(s[0]) | {"est"}
            return [((t, s[1]), None)], [(frozenset(s[0]) | {"thrown"}, s[1])]
        return None

    def follow(self, f):
        return bool(f.get("body")) and any(x["k"] == "Call" and x.get("n") in self.calc for x in walk(f["body"])) and f["n"] not in self.calc

    def caught(self, h, s):
        return (frozenset(s[0]) | {"failed"}, s[1])


def simulations(P, rep):
    n = 0
    for f in P.funcs.values():
        if not f.get("body") or not any(p["n"] == "maxInvalidSim" for p in f["p"]) or f.get("ctor"):
            continue
        if f["n"] not in ("Calculate",):
            continue

        def rule(t):
            if t in (("p", "cancel"), ("tr", ("p", "cancel"))):
                return 0
            return None
        s = Scene(P, f, Asg({}, rule))
        st, _ = s.run(f["f"])
        calc = {"Calculate", "EstimateMl"}
        loops = [x for x in walk(f["body"]) if x["k"] in ("For", "While", "DoWhile") and any(y["k"] == "Try" and any(z["k"] == "Call" and z.get("n") in calc for z in walk(y["b"])) for y in walk(x["b"]))]
        if st is None or not [e for e in s.events if e.kind == "return" and e.fr.f["f"] == f["f"]] and not conj(st.facts):
            continue        # refuses every model
        n += 1
        where = P.where(f)
        lim = ("p", "maxInvalidSim")
        cands = []
        for c in conj(st.facts):
            if c[0] == "ge0" and any(x == lim for x in subterms(c[1])):
                cands.append(sub(lim, c[1]))
        ok = bool(cands)
        rep.ob("a simulation ends normally only with enough valid simulations", ok, where, "%s: it can end normally whatever the number of invalid simulations" % f["q"], key=base_name(f))
        if not ok:
            continue
        why = []
        for R in cands:
            w = judge(P, f, R, calc, loops)
            why.append(w)
            if w is None:
                break
        rep.ob("the invalid simulations are counted on every path", None in why, where, "%s: %s" % (f["q"], why[0]), key="%s:%s" % (base_name(f), why[0]))
    rep.need("simulations with a limit on the invalid ones", 3, n)


def counter(t):
    """the variable whose value at the end of the loop (or at a break in it) this is"""
    locs = set()
    for x in joined(t):
        if x[0] == "P":
            x = next((m[0] for m, c in x[1] if len(m) == 1 and c == 1 and m[0][0] in ("phio", "phi")), x)
        if x[0] not in ("phio", "phi"):
            return None
        locs.add(x[3])
    return locs.pop() if len(locs) == 1 else None


def judge(P, f, R, calc, loops):
    """None, or why R is not (at least) the number of requested simulations that gave no result"""
    if len(loops) != 1:
        return "the simulation loop is not found (%d)" % len(loops)
    coef, rest = {}, []
    monos = R[1] if R[0] == "P" else [((R,), 1)]
    if is_k(R):
        return "nothing is counted"
    for m, c in monos:
        loc = counter(m[0]) if len(m) == 1 else None
        if loc is not None:
            key = ("d", loc[2]) if loc[0] == "var" else ("m", loc[2])
            coef[key] = coef.get(key, 0) + c
        elif len(m) == 1 and m[0][0] in ("f", "F", "p") and c == 1:
            rest.append(m[0])
        else:
            return "%s is compared with the limit" % tshow(R)[:100]
    if not coef or len(rest) > 1:
        return "%s is compared with the limit" % tshow(R)[:100]
    total = bool(rest)
    # all counters start at zero
    L = SimLoop(P, coef, calc)
    loop = loops[0]
    L.stack = [f["f"]]
    o = L.run_block(loop["b"], {(frozenset(), frozenset())})
    if not (o.fall | o.cont):
        return "no path through the loop"
    for s in o.fall | o.cont:
        if "lost" in s[0]:
            return "a counter is set to a value that is not known"
        v = L.value(s)
        good = [x for x in L.valid(s) if x > 0]
        failed = "failed" in s[0] or "est" not in s[0]
        if failed and good:
            return "a failed estimation is counted as a valid simulation"
        bad = 1 if not total else 0
        if good and v != bad - 1:
            return "a valid simulation changes the count of invalid ones by %d" % (v if not total else v + 1)
        if not good and v != bad:
            return "an invalid simulation changes the count of invalid ones by %d" % (v if not total else v + 1)
    if o.brk and not total:
        return "the loop can stop before all simulations are done, and those that are left are not counted as invalid"
    if total:
        for s in o.brk:
            if "lost" in s[0] or L.value(s) < 0:
                return "a simulation that was broken off is counted as valid"
    return None
