"""What Searcher::EstimateOne implementations record: one description per push."""
from .absint import K, is_k, subterms, tnot, tshow, eq0, ge0, sub, add, ONE
from .events import conj, conditions, over_all, elem, fld, holds
from .program import AnalysisError


def get_of(t):
    """(matrix, row, col) of an element read"""
    if t[0] in ("call", "ap") and t[1] in ("Get", "Get0") and len(t) >= 5:
        return t[2], t[3], t[4]
    if t[0] in ("call", "ap") and len(t) > 3:
        xs = [x for x in t[1:] if isinstance(x, tuple)]
        if any(x in ("Get", "Get0") for x in t if isinstance(x, str)) and len(xs) >= 3:
            return xs[-3], xs[-2], xs[-1]
    return None


def leaves(t, conds=()):
    if t[0] == "ite":
        return leaves(t[2], conds + (t[1],)) + leaves(t[3], conds + (tnot(t[1]),))
    return [(t, conds)]


def ctor_fields(P, cls, nargs):
    """parameter position -> field, for the constructor of cls with at least nargs parameters"""
    from .absint import Eval
    best = None
    for f in P.funcs.values():
        if f.get("ctor") and f.get("c") == cls and len(f["p"]) >= nargs and not (len(f["p"]) == 1 and cls in f["p"][0]["t"]):
            if best is None or len(f["p"]) < len(best["p"]):
                best = f
    if best is None:
        raise AnalysisError("no constructor of %s with %d arguments" % (cls, nargs))
    e = Eval(P)
    out, _ = e.run(best["f"])
    m = {}
    for i, p in enumerate(best["p"]):
        pt = ("p", p["n"] or "arg%d" % i)
        for l, v in out.env.items():
            if l[0] == "fld" and l[1] == ("this",) and v == pt:
                m[i] = l[2]
            if l[0] == "alias" and v == pt and l[1][0] == "F" and l[1][1] == ("this",):
                m[i] = l[1][2]
    return m


class Push:
    pass


def pushes(P, f, r):
    """describe each Push0/1/2 of an EstimateOne"""
    out = []
    for e in r.events:
        if e.kind != "call" or e.name not in ("Push0", "Push1", "Push2"):
            continue
        p = Push()
        p.ev, p.level = e, int(e.name[-1])
        p.where = P.where(e.fr.f, e.node)
        ek = e.args[0]
        pp = e.st.env.get(("fld", ek, "$p"), ek)
        p.recs = []
        for leaf, conds in leaves(pp):
            made = r.made.get(leaf)
            if made is None:
                p.recs.append((None, conds))
                continue
            node, cls, args, facts = made
            m = ctor_fields(P, cls, len(args))
            p.recs.append(({m.get(i, i): a for i, a in enumerate(args)}, conds))
        out.append(p)
    return out


def loop_of(ev, it):
    for l in ev.loops:
        if l.it == it:
            return l
    return None


def names(t):
    return {x[2] for x in subterms(t) if isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "F") and isinstance(x[2], str)}


def same_elem(ix, it):
    return ix == it or ix == ("any",)


def check_indices(P, p):
    """C03: None or what is wrong with the indices and values of this push"""
    e = p.ev
    i, t = e.args[1], e.args[2]
    li = loop_of(e, i)
    te = elem(t)
    if li is None:
        return "the metric index is %s, not the index of the metric" % tshow(i)[:50]
    if te is None or fld(te[0], "TargetsPositions") is None:
        return "the target index is %s, not the position of the target" % tshow(t)[:50]
    j = te[1]
    lj = loop_of(e, j)
    if lj is None:
        for l in e.loops:
            if l is not li and j == ("any",) and l.trip is not None and "TargetsPositions" in names(l.trip):
                lj = l
    if lj is None or lj is li:
        return "the target does not run over the targets"
    if li.early or lj.early:
        return "the loop over metrics or targets can stop early"
    if p.level == 1:
        i1 = e.args[3]
        l1 = loop_of(e, i1)
        if l1 is None or l1 in (li, lj):
            return "the coefficient index is %s" % tshow(i1)[:50]
        if l1.early:
            return "the loop over coefficients can stop early"
    for rec, conds in p.recs:
        if rec is None:
            return "what is recorded is not known"
        g = get_of(rec.get("Metric", K(0)))
        if not g:
            return "the recorded metric is %s" % tshow(rec.get("Metric", K(0)))[:50]
        M, a, b = g
        if a != li.it or b != lj.it:
            return "the recorded metric is element (%s, %s) of the metrics" % (tshow(a)[:20], tshow(b)[:20])
        if "metrics" not in tshow(M):
            return "the recorded metric comes from %s" % tshow(M)[:40]
        lims = [li.trip, lj.trip]
        if li.trip is not None and not (names(li.trip) >= {"MetricsIn", "MetricsOut"} or fld(li.trip, "RowsCount") == M):
            return "the loop over metrics runs to %s" % tshow(li.trip)[:40]
        if lj.trip is not None and not ("TargetsPositions" in names(lj.trip) or fld(lj.trip, "ColsCount") == M):
            return "the loop over targets runs to %s" % tshow(lj.trip)[:40]
        w = check_weight(rec.get("Weight", K(0)), rec["Metric"], li.it, t)
        if w:
            return w
        if p.level == 1:
            for nm, want in (("Mean", "mean"), ("Variance", "var")):
                g = get_of(rec.get(nm, K(0)))
                if not g or want not in tshow(g[0]) or g[1] != e.args[3] or g[2] != lj.it:
                    return "the recorded %s is %s" % (nm.lower(), tshow(rec.get(nm, K(0)))[:60])
            l1 = loop_of(e, e.args[3])
            if l1.trip is not None and not (fld(l1.trip, "RowsCount") is not None and "type1" in tshow(l1.trip) or "Length1" in names(l1.trip)):
                return "the loop over coefficients runs to %s" % tshow(l1.trip)[:40]
        inner = None
        for c in set(conds) | conj(e.facts):
            at = [x for x in subterms(c) if isinstance(x, tuple) and x and x[0] == "f" and x[2] == "IsInnerExogenous"]
            if at:
                inner = holds(c, {at[0]: 1, ("tr", at[0]): 1})
        en, ex = tshow(rec.get("Endogenous", K(0))), tshow(rec.get("Exogenouses", K(0)))
        if inner is not None:
            if inner and not ("CurrentIndices" in en and "InnerIndices" in ex) or not inner and not ("InnerIndices" in en and "CurrentIndices" in ex):
                return "the endogenous and exogenous variables of the record are exchanged"
        elif en == ex:
            return "the same variables are recorded as endogenous and exogenous"
        if "extra" not in tshow(rec.get("Extra", K(0))).lower():
            return "the extra information recorded is %s" % tshow(rec.get("Extra", K(0)))[:40]
    return None


def check_weight(w, metric, it, tpos):
    for t, conds in leaves(w):
        if t[0] not in ("call", "ap") or not any("ToWeight" in str(x) for x in t[1:3]):
            return "its weight is %s" % tshow(t)[:60]
        xs = [x for x in t[1:] if isinstance(x, tuple)]
        score = any("Scoring" in str(x) for x in t[1:3])
        typ, m = xs[0], xs[1]
        if m != metric:
            return "its weight is that of %s" % tshow(m)[:50]
        el = elem(typ)
        if not el:
            return "its weight is that of metric %s" % tshow(typ)[:50]
        if score:
            n = fld(el[0], "MetricsOut")
            want = [x for x in subterms(sub(it, el[1])) if isinstance(x, tuple) and x and x[0] == "f" and x[2] == "size"]
            if n is None or not (want and fld(want[0][1], "MetricsIn") is not None and sub(it, el[1]) == want[0]):
                return "its weight is that of out-of-sample metric %s" % tshow(typ)[:60]
        else:
            if fld(el[0], "MetricsIn") is None or not same_elem(el[1], it):
                return "its weight is that of in-sample metric %s" % tshow(typ)[:60]
        if len(xs) > 2:
            for mn, cs in leaves(xs[2]):
                if mn == K(0):
                    continue
                e1 = elem(mn)
                e2 = elem(e1[0]) if e1 else None
                if not e2 or e1[1] != tpos or e2[1] != typ or fld(e2[0], "MinMetricOut" if score else "MinMetricIn") is None:
                    return "its weight uses the minimum %s" % tshow(mn)[:60]
    return None
