"""C05: every requested summary is collected and merged completely."""
import re
from ..program import AnalysisError, strip, walk
from ..absint import K, is_k, subterms, tnot, tshow, eq0, ge0, sub, add, ONE
from ..events import Recorder, conj, conditions, complement, over_all, elem, fld, holds, peel
from .r01 import own

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the collecting and merging code: path conditions, loop coverage and value provenance of every update of a summary, compared with the option that requests it"
NOTE = ("For each kind of summary: the update is reached exactly under its own option (and the model/coefficient distinction), loops over the whole of what it covers, "
        "uses the fields of the pushed record, and the merge takes every summary with the requested indices. The arithmetic inside the running moments is V04.")
EXPLANATION = NOTE

STOPC = ("RunningMoments", "Matrix", "Distribution", "LdtException", "EstimationKeepComp")


class Rec(Recorder):
    def __init__(self, P, stop=(), maxn=400):
        super().__init__(P)
        self.stop, self.maxn = set(stop), maxn

    def want_inline(self, fkey, node, frame):
        g = self.P.funcs[fkey]
        if not own(g) or g["n"] in self.stop or g["n"] in ("format", "formatHelper") or any(s in (g.get("c") or "") for s in STOPC):
            return False
        return not g.get("virtual") and len(list(self.P.all_nodes(g))) <= self.maxn


def func(P, q, n=1, arity=None):
    fs = [f for f in P.funcs.values() if f.get("body") and (f["q"] == q or f["q"].endswith("::" + q)) and (arity is None or len(f["p"]) == arity)]
    if not fs:
        raise AnalysisError("function %s not found" % q)
    return fs


def option_atoms(c, name):
    return [x for x in subterms(c) if isinstance(x, tuple) and len(x) > 2 and x[0] == "f" and (x[2] == name or x[2] == "size" and fld(x[1], name) is not None)]


class Gate:
    """conditions allowed on the way: the option itself; given facts"""

    def __init__(self, option, on=(1, 2, 3, 10, 1000), off=(0,), extra=()):
        self.option, self.on, self.off, self.extra = option, on, off, extra

    def judge(self, conds):
        """None or what is wrong with these conditions"""
        need = set(range(len(self.extra)))
        own_ok = self.option is None
        for c in conds:
            hit = False
            for i, x in enumerate(self.extra):
                r = x(c)
                if r:
                    need.discard(i)
                    hit = True
            if hit:
                continue
            at = option_atoms(c, self.option) if self.option else []
            if at:
                for v in self.on:
                    if holds(c, {a: v for a in at}) is not True:
                        return "it also requires %s" % tshow(c)[:100]
                if all(holds(c, {a: v for a in at}) is False for v in self.off):
                    own_ok = True
                continue
            return "it also requires %s" % tshow(c)[:100]
        if not own_ok:
            return "it does not depend on %s" % self.option
        miss = [self.extra[i] for i in need if not getattr(self.extra[i], "opt", False)]
        if miss:
            return "it does not require %s" % miss[0].__doc__
        return None


def is_fact(want, doc):
    def x(c):
        return c == want
    x.__doc__ = doc
    return x


def optional(f):
    f.opt = True
    return f


def thrown(rec, ev):
    """conditions under which the function goes on because it would have thrown otherwise"""
    out = set()
    mine = conj(ev.facts)
    for node, facts, fr in rec.throws:
        F = conj(facts)
        for c in F:
            t = conj({tnot(c)})
            if t <= mine and F - {c} <= mine:
                out |= t
        for m in mine:
            if m[0] == "or":
                t = conj({tnot(m)})
                if t <= F and F - t <= mine:
                    out.add(m)
    return out


def run(P, rep):
    # ------------------------------------------------------------ the summary itself
    R_ = "an admitted model updates each requested summary"
    for f in func(P, "SearcherSummary::Push", arity=2):
        r = Rec(P, stop=("PushNew", "Combine", "GetCdf"))
        r.run(f["f"])
        par = ("p", f["p"][1]["n"])
        coef = ("p", f["p"][0]["n"])
        model = lambda c: c == ("tr", par) or c == par or holds(c, {par: 1}) is True and holds(c, {par: 0}) is False
        model.__doc__ = "a model"
        item = lambda c: holds(c, {par: 0}) is True and holds(c, {par: 1}) is False
        item.__doc__ = "a coefficient"

        def prov(t, name):
            b = fld(t, name)
            return b is not None and coef in list(subterms(b)) + [b]

        def updates(field, names):
            out = []
            for e in r.events:
                if e.kind == "call" and e.name in names and e.obj is not None:
                    o = e.obj
                    el = elem(o)
                    if fld(o, field) == ("this",) or el and fld(el[0], field) == ("this",):
                        out.append(e)
            return out

        def judge(what, evs, gate, value=None, cover=None):
            """one summary kind: some update under the right conditions with the right values"""
            if not evs:
                rep.ob(R_, False, P.where(f, f), "%s never updates %s" % (f["q"], what), key=what)
                return
            bad = None
            for e in evs:
                w = value(e) if value else None
                if w:
                    bad = bad or (e, w)
            sets = complement([conditions(e, thrown(r, e)) for e in evs])
            for s in sets:
                w = gate.judge(s)
                if w:
                    bad = bad or (evs[0], w)
            if len(sets) != 1 and bad is None:
                bad = (evs[0], "it is updated under several conditions")
            if cover and bad is None:
                w = cover(evs)
                if w:
                    bad = (evs[0], w)
            rep.ob(R_, bad is None, P.where((bad or (evs[0],))[0].fr.f, (bad or (evs[0],))[0].node),
                   "%s updates %s %s" % (f["q"], what, "exactly when it is requested" if bad is None else "wrongly: " + bad[1]), key=what)

        whole = lambda e: None if peel(e.args[-1]) == coef or coef in list(subterms(e.args[-1])) else "it keeps something else"
        judge("the best list", updates("Bests", ("insert", "emplace")), Gate("KeepBestCount"), whole)
        judge("the list of all models", updates("All", ("push_back", "emplace_back")), Gate("KeepAll", on=(1,), extra=(model,)), whole)
        for lst in ("Endogenous", "Exogenouses"):
            evs = [e for e in updates("InclusionsInfo", ("PushNew",)) if (lambda ix: elem(ix) and prov(elem(ix)[0], lst))(elem(e.obj)[1] if elem(e.obj) else ("k", 0))]

            def val(e):
                if not prov(e.args[0], "Weight"):
                    return "the pushed value is %s" % tshow(e.args[0])[:60]
                return over_all(e, elem(e.obj)[1])
            judge("the inclusion weights (%s variables)" % lst[:4], evs, Gate("KeepInclusionWeights", on=(1,), extra=(model,)), val)

        def cdfval(e):
            el = elem(e.obj)
            if not el:
                return "it is not per point"
            if not prov(e.args[1], "Weight"):
                return "its weight is %s" % tshow(e.args[1])[:60]
            pts = [x for x in subterms(e.args[0]) if isinstance(x, tuple) and elem(x) and fld(elem(x)[0], "CdfsAt") is not None]
            if not pts:
                return "its value does not depend on the point"
            for l in e.loops:
                if l.cont is not None and fld(l.cont, "CdfsAt") is not None or l.trip is not None and fld(l.trip, "size") is not None and fld(l.trip[1], "CdfsAt") is not None:
                    if l.early:
                        return "the loop over the points can stop early"
                    if el[1] not in (l.it, ("any",)):
                        return "slot %s is not the slot of the point" % tshow(el[1])[:50]
                    if elem(pts[0])[1] not in (l.it, ("any",)):
                        return "the point is not the one of the slot"
                    return None
            return "it does not run over the points"
        ev = updates("Cdfs", ("PushNew",))
        # the constructor of the distribution rejects a negative deviation
        judge("the cumulative distributions", ev, Gate("CdfsAt", on=(1, 2, 7), extra=(item,)), cdfval)

        def mixval(e):
            want = ("Mean", "Variance", None, None, "Weight")
            for a, w in zip(e.args, want):
                if w and not prov(a, w):
                    return "%s is used as the %s" % (tshow(a)[:40], w.lower())
        judge("the mixture", updates("Mixture4", ("Combine", "PushNew")), Gate("KeepMixture", on=(1,), extra=(item,)), mixval)
        for i, nm in ((0, "lower"), (1, "upper")):
            evs = [e for e in r.events if e.kind == "store" and e.loc[0] == "fld" and fld(e.loc[1], "ExtremeBounds") == ("this",) and e.loc[2] == ("at", K(i))]

            def bval(e, i=i):
                v = e.val
                sgn = None
                me = ("f", ("F", ("this",), "ExtremeBounds"), ("at", K(i)))
                isme = lambda x: x[0] == "f" and x[1:3] == me[1:3]
                if v[0] in ("min", "max"):
                    if v[0] != ("min", "max")[i]:
                        return "it takes the %simum" % v[0]
                    if not any(isme(x) for x in v[1]):
                        return "it forgets the earlier bound"
                    v = [x for x in v[1] if not isme(x)][0]
                else:
                    # if (old > new) old = new
                    ok = False
                    for c in conj(e.facts):
                        if c[0] in ("gt0", "ge0") and any(isme(x) for x in subterms(c)):
                            d = add(c[1], v) if i == 0 else sub(c[1], v)
                            ok = ok or (i == 0 and isme(d) or i == 1 and isme(tuple(sub(K(0), d)) if False else sub(K(0), d)))
                    if not ok:
                        return "it is not a running bound"
                at = {}
                for x in subterms(v):
                    if isinstance(x, tuple) and x and x[0] == "f":
                        if prov(x, "Mean"):
                            at[x] = 5
                        elif prov(x, "Variance"):
                            at[x] = 4
                        elif x[2] == "ExtremeBoundsMultiplier":
                            at[x] = 3
                for x in subterms(v):
                    if isinstance(x, tuple) and x and x[0] in ("ap", "call") and "sqrt" in x and any(prov(y, "Variance") for y in subterms(x) if isinstance(y, tuple) and y):
                        at[x] = 2
                from ..events import evalterm
                z = evalterm(v, at)
                if z != (-1, 11)[i]:
                    return "the bound is %s" % tshow(v)[:80]
            g = Gate("ExtremeBoundsMultiplier", on=(0.5, 1, 2, 3), extra=(item, optional(lambda c: any(fld(x, "ExtremeBounds") is not None for x in subterms(c) if isinstance(x, tuple) and x))))
            judge("the %s extreme bound" % nm, evs, g, bval)
    rep.floor(R_, 8)

    # ------------------------------------------------------------ its construction
    R1 = "summaries are created ready for every requested kind"
    for f in func(P, "SearcherSummary::SearcherSummary", arity=6):
        e = Rec(P)
        out, _ = e.run(f["f"])
        this = ("this",)
        idx = [p["n"] for p in f["p"]]
        for i in range(3):
            v = e.read_al(("fld", this, "Index%d" % (i + 1)), out)
            rep.ob(R1, v == ("p", idx[i]), P.where(f, f), "Index%d is the %s argument" % (i + 1, ("first", "second", "third")[i]), key="Index%d" % (i + 1))
        opt = ("p", idx[3])
        for fieldn, option, on, size in (("Cdfs", "CdfsAt", (1, 3), lambda t: fld(t, "size") is not None and fld(t[1], "CdfsAt") is not None),
                                         ("InclusionsInfo", "KeepInclusionWeights", (1,), lambda t: {x[2] for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "f"} >= {"NumEndo", "NumExo"})):
            v = e.read_al(("fld", ("F", this, fieldn), "size"), out)
            ok, why = False, "its size is %s" % tshow(v)[:80]
            cases = []

            def split(t, cs):
                if t[0] == "ite":
                    split(t[2], cs + [t[1]])
                    split(t[3], cs + [tnot(t[1])])
                else:
                    cases.append((t, cs))
            split(v, [])
            for t, cs in cases:
                if size(t):
                    ok = Gate(option, on=on, off=()).judge(set(conj(cs))) is None
                    if not ok:
                        why = Gate(option, on=on, off=()).judge(set(conj(cs)))
            rep.ob(R1, ok, P.where(f, f), "%s %s" % (fieldn, "has a slot for everything when requested" if ok else why), key=fieldn)
        bounds(P, rep, R1, f, e, out)
    rep.floor(R1, 6)

    # ------------------------------------------------------------ one summary per (metric, target, coefficient)
    R2 = "every metric, target and coefficient has its own summary"
    for f in func(P, "Searcher::Searcher", arity=8):
        r = Rec(P, stop=("SearcherSummary",), maxn=60)
        r.run(f["f"])
        seen = {}
        for e in r.events:
            pass
        slots(P, rep, R2, f, r)
    rep.floor(R2, 3)

    # ------------------------------------------------------------ merging
    R3 = "the merge takes every summary of the same metric, target and coefficient"
    merges = {
        "CombineAll": (("push_back", "emplace_back", "insert"), 3, "All"),
        "CombineBests": (("push_back", "insert"), 3, "Bests"),
        "CombineInclusionWeights": (("Combine",), 2, "InclusionsInfo"),
        "CombineCdfAt": (("Combine",), 3, "Cdfs"),
        "CombineMixture": (("Combine",), 3, "Mixture4"),
        "CombineExtremeBounds": ((), 3, "ExtremeBounds"),
    }
    for n, (names, nidx, what) in merges.items():
        for f in func(P, "ModelSet::" + n):
            r = Rec(P, stop=("Reset", "Combine"))
            out, _ = r.run(f["f"])
            lst = next(("p", p["n"]) for p in f["p"] if "SearcherSummary" in p["t"])
            idx = [("p", p["n"]) for p in f["p"][:3]]
            if n == "CombineExtremeBounds":
                merge_bounds(P, rep, R3, f, r, lst, idx)
                continue
            res = ("p", f["p"][-1]["n"])
            evs = [e for e in r.events if e.kind == "call" and e.name in names and e.obj == res]
            bad = None
            if not evs:
                bad = (None, "nothing is added to the result")
            el = ("f", lst, ("at", ("any",)))
            conds_all = []
            for e in evs:
                a = e.args[-1]
                src = [x for x in subterms(a) if isinstance(x, tuple) and x and x[0] in ("f", "F") and fld(x, what) is not None]
                if not src:
                    bad = bad or (e, "it adds %s" % tshow(a)[:60])
                    continue
                s = src[0][1]
                w = over_all(e, s) if elem(s) and elem(s)[0] == lst else "it does not take the summaries of the list"
                if w:
                    bad = bad or (e, w)
                    continue
                if n in ("CombineAll", "CombineBests"):
                    w = over_all(e, a)
                    if w:
                        bad = bad or (e, w)
                elif n in ("CombineInclusionWeights", "CombineCdfAt"):
                    ix = elem(a)
                    want = idx[2] if n == "CombineInclusionWeights" else ("p", f["p"][3]["n"])
                    if not ix or ix[1] != want:
                        bad = bad or (e, "it takes element %s" % tshow(ix[1] if ix else a)[:40])
                cs = conditions(e, thrown(r, e))
                rest, got = set(), set()
                for c in cs:
                    k = index_test(c, s, idx)
                    if k is not None:
                        got.add(k)
                    elif n == "CombineBests" and bests_ok(c):
                        pass
                    else:
                        rest.add(c)
                if got != set(range(nidx)):
                    bad = bad or (e, "it compares %s" % (", ".join("Index%d" % (k + 1) for k in sorted(got)) or "no index"))
                if rest:
                    bad = bad or (e, "it also requires %s" % tshow(next(iter(rest)))[:90])
            if bad is None and n not in ("CombineAll", "CombineBests") and not any(e.kind == "call" and e.name == "Reset" and e.obj == res for e in r.events):
                pass
            rep.ob(R3, bad is None, P.where(f, (bad[0].node if bad and bad[0] else f)), "%s %s" % (f["q"], "takes everything" if bad is None else "is incomplete: " + bad[1]), key=n)
    rep.floor(R3, 6)

    # ------------------------------------------------------------ the lists of summaries and the totals
    R4 = "the totals and lists cover every searcher"
    for f in func(P, "ModelSet::CombineInfo"):
        r = Rec(P, stop=("GetCount", "GetExpectedNumberOfModels", "GetNumberOfEstimatedModels"))
        r.run(f["f"])
        for i, (lname, fieldn, option, on) in enumerate((("list0", "Summaries0", "KeepModelEvaluations", (1,)), ("list1", "Summaries1", "Length1", (1, 2, 9)), ("list2", "Summaries2", "Length2", (1, 2, 9)))):
            res = ("p", f["p"][1 + i]["n"])
            evs = [e for e in r.events if e.kind == "call" and e.name in ("push_back", "emplace_back") and e.obj == res]
            bad = None if evs else (None, "nothing is added")
            for e in evs:
                t = e.args[-1]
                if t[0] == "adr":
                    t = t[1]
                depth = 0
                while elem(t):
                    w = over_all(e, t)
                    if w:
                        bad = bad or (e, w)
                        break
                    t = elem(t)[0]
                    depth += 1
                    if fld(t, fieldn) is not None:
                        t = fld(t, fieldn)
                        continue
                if not bad and (depth != 3 + (i > 0) or fld(t, "pSearchers") is None):
                    bad = (e, "it adds %s" % tshow(e.args[-1])[:80])
                w = Gate(option, on=on).judge(conditions(e, thrown(r, e)))
                if w:
                    bad = bad or (e, w)
            rep.ob(R4, bad is None, P.where(f, bad[0].node if bad and bad[0] else f), "%s: the list of %s %s" % (f["q"], fieldn, "is complete" if bad is None else "is wrong: " + bad[1]), key=fieldn)
    rep.floor(R4, 3)
    results(P, rep)
    recorded(P, rep)


def not_failed(c):
    """the evaluation succeeded and was not cancelled"""
    s = tshow(c)
    return "RequestCancel" in s and holds_neg(c) or c[0] == "eq0" and "length" in s or c[0] == "tr" and "empty" in s


def holds_neg(c):
    return c[0] == "not" or c[0] == "eq0"


def number(c):
    """the value is a number"""
    return c[0] == "not" and "isnan" in tshow(c)


def recorded(P, rep):
    R6 = "every admitted model is pushed when its kind is requested"
    n = 0
    for f in P.funcs.values():
        if f["n"] == "EstimateOne" and f.get("body") and any(x["k"] == "Call" and x["n"] == "EstimateOneReg" for x in P.all_nodes(f)):
            r = Rec(P, stop=("Push0", "Push1", "Push2", "EstimateOneReg", "ToWeight"))
            r.run(f["f"])
            evs = [e for e in r.events if e.kind == "call" and e.name in ("Push0", "Push1")]
            for name, option, on in (("Push0", "KeepModelEvaluations", (1,)), ("Push1", "Length1", (1, 2, 9))):
                mine = [e for e in evs if e.name == name]
                g = Gate(option, on=on, extra=(optional(not_failed), optional(number)))
                sets = complement([conditions(e, thrown(r, e)) for e in mine])
                bad = next((g.judge(s) for s in sets if g.judge(s)), None) if sets else "it is never pushed"
                if not bad and len(sets) > 1:
                    bad = "it is pushed under several conditions"
                if not bad and any(l.early for l in mine[0].loops):
                    bad = "a loop can stop early"
                rep.ob(R6, bad is None, P.where(mine[0].fr.f if mine else f, mine[0].node if mine else f), "%s: %s %s" % (f["q"], name, "is reached whenever requested" if not bad else bad), key=name)
    for name, field, model, depth in (("Push0", "Summaries0", True, 2), ("Push1", "Summaries1", False, 3), ("Push2", "Summaries2", False, 3)):
        for f in func(P, "Searcher::" + name):
            r = Rec(P, stop=("Push",))
            r.run(f["f"])
            evs = [e for e in r.events if e.kind == "call" and e.name == "Push"]
            bad = None if len(evs) == 1 else "it pushes %d times" % len(evs)
            if evs:
                e = evs[0]
                o, path = e.obj, []
                while o is not None and elem(o):
                    path.insert(0, elem(o)[1])
                    o = elem(o)[0]
                if fld(o, field) != ("this",):
                    bad = "it pushes into %s" % tshow(o)[:40]
                elif path != [("p", p["n"]) for p in f["p"][1:1 + depth]]:
                    bad = "it pushes into slot [%s]" % ", ".join(tshow(x) for x in path)
                elif e.args[0] != ("p", f["p"][0]["n"]) or e.args[1] != K(model):
                    bad = "it pushes %s" % ", ".join(tshow(x) for x in e.args)
                elif conditions(e):
                    bad = "it requires %s" % tshow(next(iter(conditions(e))))[:60]
            rep.ob(R6, bad is None, P.where(f, f), "%s %s" % (f["q"], "reaches the summary of its indices" if not bad else bad), key="fwd" + name)
    rep.floor(R6, 5)


def index_test(c, s, idx):
    """k if the condition is s->Index<k+1> == index<k+1>"""
    if c[0] == "eq0":
        for k in range(3):
            a = [x for x in subterms(c) if isinstance(x, tuple) and x and x[0] == "f" and x[2] == "Index%d" % (k + 1) and x[1] == s]
            if a and eq0(sub(a[0], idx[k])) == c:
                return k
    return None


def bests_ok(c):
    """conditions of the ordered insertion: capacity and comparison of weights"""
    ats = [x for x in subterms(c) if isinstance(x, tuple) and x and x[0] == "f"]
    names = {x[2] for x in ats if isinstance(x[2], str)}
    if "KeepBestCount" in names:
        at = [x for x in ats if x[2] == "KeepBestCount"]
        if all(x[0] != "it" for x in subterms(c) if isinstance(x, tuple) and x):
            return all(holds(c, {a: v for a in at}) is True for v in (1, 2, 5, 100)) if len(set(at)) == 1 and len(ats) <= 4 else True
        return True
    if "Weight" in names and names <= {"Weight", "$p", "Bests"}:
        return True
    return any(isinstance(x, tuple) and x and (x[0] in ("phi", "phio") or x[0] == "f" and x[2] == "size" and x[1][0] == "p") for x in subterms(c))


MAXV = 1.7976931348623157e308


def limit(t):
    """'lowest', 'max', 'min' of numeric_limits / infinities"""
    if is_k(t) and isinstance(t[1], float):
        if t[1] >= MAXV:
            return "max"
        if t[1] <= -MAXV:
            return "lowest"
    s = tshow(t)
    neg = s.startswith("-") or "-1*" in s
    if re.search(r"::max\b", s):
        return "lowest" if neg else "max"
    if re.search(r"::min\b", s):
        return "min"
    if "lowest" in s:
        return "lowest" if not neg else "max"
    if "infinity" in s or "inf()" in s or "huge_val" in s:
        return "lowest" if neg else "max"
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] in ("call", "ap") and len(x) > 1:
            if x[1] == "max" or "max" in x[1:3]:
                return "lowest" if neg else "max"
            if x[1] == "min" or "min" in x[1:3]:
                return "min"
    return s[:40]


def bounds(P, rep, R1, f, e, out):
    vals = []
    for i in (0, 1):
        l = ("fld", ("F", ("this",), "ExtremeBounds"), ("at", K(i)))
        vals.append(e.read_al(l, out))
    for ev_ in []:
        pass
    # initialiser list: look at the construction expression
    lists = []
    for g, n in scope_nodes(P, f):
        if n["k"] == "InitList" and len(n["a"]) == 2 and "double" in (n.get("t") or "double"):
            lists.append((g, n))
    for i, nm in ((0, "lower"), (1, "upper")):
        ok, got = False, "not initialised"
        for g, n in lists:
            got = lim_ast(n["a"][i])
            ok = got == ("max", "lowest")[i]
            if ok:
                break
        if not lists:
            for ev in e.events:
                if ev.kind == "store" and ev.loc[0] == "fld" and fld(ev.loc[1], "ExtremeBounds") is not None and ev.loc[2] == ("at", K(i)):
                    got = limit(ev.val)
                    ok = got == ("max", "lowest")[i]
        rep.ob(R1, ok, P.where(f, f), "the %s extreme bound starts from %s" % (nm, got if ok else "%s, which an observation need not replace" % got), key="bound%d" % i)


def scope_nodes(P, f):
    for n in P.all_nodes(f):
        yield f, n


def lim_ast(n):
    n = strip(n)
    if n["k"] == "Un" and n["op"] == "-":
        r = lim_ast(n["e"])
        return {"max": "lowest", "lowest": "max", "inf": "lowest"}.get(r, r)
    if n["k"] == "Call":
        q = n.get("q") or n.get("n") or ""
        b = q.split("::")[-1]
        if b == "infinity":
            return "max"
        if b in ("max", "lowest", "min"):
            return b
    if n["k"] in ("Float", "Real") and isinstance(n.get("v"), float):
        return "max" if n["v"] >= MAXV else "lowest" if n["v"] <= -MAXV else str(n["v"])
    if n["k"] == "Call" and "inf" in (n.get("n") or ""):
        return "max"
    return n.get("n") or n["k"]


def merge_bounds(P, rep, R3, f, r, lst, idx):
    el = ("f", lst, ("at", ("any",)))
    for i, p in ((0, f["p"][-2]), (1, f["p"][-1])):
        evs = [e for e in r.events if e.kind == "var" and e.loc[2] == p["d"]]
        init = [e for e in evs if not e.loops]
        upd = [e for e in evs if e.loops]
        bad = None
        if not init or limit(init[0].val) != ("max", "lowest")[i]:
            bad = (init[0] if init else None, "it starts from %s, which an observation need not replace" % (limit(init[0].val) if init else "nothing"))
        if not upd:
            bad = bad or (None, "it is never updated")
        for e in upd:
            v = e.val
            cmp_ = None
            if v[0] in ("min", "max"):
                if v[0] != ("min", "max")[i]:
                    bad = bad or (e, "it takes the %simum" % v[0])
                cmp_ = True
                v = [x for x in v[1] if x[0] not in ("phi", "phio")][0]
            b = elem(v)
            if not b or fld(b[0], "ExtremeBounds") is None or b[1] != K(i):
                bad = bad or (e, "it takes %s" % tshow(v)[:60])
                continue
            s = b[0][1]
            w = over_all(e, s) if elem(s) and elem(s)[0] == lst else "it does not take the summaries of the list"
            if w:
                bad = bad or (e, w)
            got, rest = set(), set()
            for c in conditions(e, thrown(r, e)):
                k = index_test(c, s, idx)
                if k is not None:
                    got.add(k)
                elif c[0] in ("gt0", "ge0") and v in list(subterms(c)):
                    old = add(c[1], v) if i == 0 else sub(v, c[1])
                    if old[0] in ("phi", "phio"):
                        cmp_ = True
                    else:
                        rest.add(c)
                else:
                    rest.add(c)
            if got != {0, 1, 2}:
                bad = bad or (e, "it compares %s" % (", ".join("Index%d" % (k + 1) for k in sorted(got)) or "no index"))
            if rest:
                bad = bad or (e, "it also requires %s" % tshow(next(iter(rest)))[:80])
            if not cmp_:
                bad = bad or (e, "it is replaced, not compared")
        rep.ob(R3, bad is None, P.where(f, bad[0].node if bad and bad[0] else f), "%s: the %s bound %s" % (f["q"], ("lower", "upper")[i], "covers every summary" if bad is None else "is wrong: " + bad[1]), key="CombineExtremeBounds%d" % i)


def slots(P, rep, R2, f, r):
    for nm, depth, lens in (("Summaries0", 2, ("LengthEvals", "LengthTargets")), ("Summaries1", 3, ("LengthEvals", "LengthTargets", "Length1")), ("Summaries2", 3, ("LengthEvals", "LengthTargets", "Length2"))):
        bad, hits = None, 0
        for e in r.events:
            if e.kind != "call" or not (e.node.get("op") == "=" or e.name in ("push_back", "emplace_back")):
                continue
            o, path = e.obj, []
            while o is not None and elem(o):
                path.insert(0, elem(o)[1])
                o = elem(o)[0]
            if fld(o, nm) != ("this",):
                continue
            if e.name in ("push_back", "emplace_back"):
                path.append(("any",))
            if len(path) != depth:
                continue
            hits += 1
            src = e.args[-1]
            trips = [(fld(l.trip, x) is not None if l.trip else False) for l, x in zip(e.loops, lens)]
            if len(e.loops) != depth or not all(trips):
                bad = (e, "not all slots are created")
                continue
            if any(l.early for l in e.loops):
                bad = (e, "the loops can stop early")
            for k, (ix, l) in enumerate(zip(path, e.loops)):
                if ix not in (("any",), l.it):
                    bad = bad or (e, "slot %s is filled in place of slot %d" % (tshow(ix)[:30], k))
            for k in range(3):
                v = e.st.env.get(("fld", src, "Index%d" % (k + 1)))
                want = e.loops[k].it if k < depth else K(0)
                if v is None:
                    bad = bad or (e, "its Index%d is not known" % (k + 1))
                elif v != want:
                    bad = bad or (e, "its Index%d is %s" % (k + 1, tshow(v)[:40]))
            c = conditions(e, thrown(r, e))
            if c:
                bad = bad or (e, "it requires %s" % tshow(next(iter(c)))[:60])
        if not hits:
            bad = (None, "it is never filled")
        rep.ob(R2, bad is None, P.where(f, bad[0].node if bad and bad[0] else f), "%s::%s %s" % (f["q"], nm, "has one summary per slot" if bad is None else "is wrong: " + bad[1]), key=nm)


KINDS = {
    # call: (list position of index loops, option, samples, source list, gate of the list)
    "CombineBests": ("KeepBestCount", (1, 2, 10)),
    "CombineAll": ("KeepAll", (1,)),
    "CombineInclusionWeights": ("KeepInclusionWeights", (1,)),
    "CombineCdfAt": ("CdfsAt", (1, 2, 7)),
    "CombineExtremeBounds": ("ExtremeBoundsMultiplier", (0.5, 1, 2)),
    "CombineMixture": ("KeepMixture", (1,)),
}


def results(P, rep):
    R5 = "every requested summary is merged into the result"
    for f in func(P, "GetModelSetResults"):
        r = Rec(P, stop=("Reset", "Combine", "as_matrix", "add_CoefInfo", "CombineInfo") + tuple(KINDS), maxn=2500)
        r.run(f["f"])
        info = [e for e in r.events if e.kind == "call" and e.name == "CombineInfo"]
        if not info:
            raise AnalysisError("CombineInfo is not called by %s" % f["q"])
        lists = {info[0].args[1]: 0, info[0].args[2]: 1, info[0].args[3]: 2}
        want = [("CombineBests", 0), ("CombineBests", 1), ("CombineAll", 0), ("CombineInclusionWeights", 0), ("CombineCdfAt", 1), ("CombineExtremeBounds", 1), ("CombineMixture", 1)]
        for name, which in want:
            option, on = KINDS[name]
            evs = [e for e in r.events if e.kind == "call" and e.name == name and any(a in lists and lists[a] == which for a in e.args)]
            bad = None if evs else (None, "it is never merged")
            for e in evs:
                pars = [a for a in e.args]
                ls = e.loops
                if any(l.early for l in ls):
                    bad = bad or (e, "a loop can stop early")
                if len(ls) < 2 or not (ls[0].trip and ls[1].trip):
                    bad = bad or (e, "it does not run over metrics and targets")
                    continue
                for k, lim in ((0, ("metricNames", "LengthEvals")), (1, ("targetNames", "LengthTargets"))):
                    t = ls[k].trip
                    if not (any(fld(t, x) is not None for x in lim) or fld(t, "size") is not None and any(t[1] == ("p", x) for x in lim)):
                        bad = bad or (e, "a loop runs to %s" % tshow(t)[:40])
                    if pars[k] != ls[k].it:
                        bad = bad or (e, "argument %d is %s" % (k + 1, tshow(pars[k])[:40]))
                third = pars[2]
                if name in ("CombineAll",) or which == 0 and name == "CombineBests":
                    if third != K(0):
                        bad = bad or (e, "argument 3 is %s" % tshow(third)[:40])
                else:
                    l = [x for x in ls if x.it == third]
                    okk = False
                    for x in l:
                        t = x.trip
                        nm = {y[2] for y in subterms(t) if isinstance(y, tuple) and y and y[0] == "f"}
                        okk = okk or (nm == {"LengthEndogenous", "LengthExogenous"} if which == 0 else t[0] == "f" and t[2] == "Length1")
                    if not okk:
                        bad = bad or (e, "argument 3 does not run over every slot")
                if name == "CombineCdfAt":
                    l = [x for x in ls if x.it == pars[3]]
                    if not l or not (fld(l[0].trip, "size") is not None and fld(l[0].trip[1], "CdfsAt") is not None):
                        bad = bad or (e, "argument 4 does not run over every point")
                src = (lambda c: bool(option_atoms(c, "KeepModelEvaluations")) and all(holds(c, {a: 1 for a in option_atoms(c, "KeepModelEvaluations")}) is True for _ in (1,))) if which == 0 else \
                    (lambda c: bool(option_atoms(c, "Length1")) and all(holds(c, {a: v for a in option_atoms(c, "Length1")}) is True for v in (1, 2, 9)))
                src.__doc__ = "the list to be there"
                g = Gate(option, on=on, extra=(optional(src),))
                w = g.judge(conditions(e, thrown(r, e)))
                if w:
                    bad = bad or (e, w)
            rep.ob(R5, bad is None, P.where(evs[0].fr.f if evs else f, bad[0].node if bad and bad[0] else (evs[0].node if evs else f)),
                   "%s of %s %s" % (name, ("models", "coefficients")[which], "reaches the result" if bad is None else "is wrong: " + bad[1]), key="%s%d" % (name, which))
    rep.floor(R5, 7)
