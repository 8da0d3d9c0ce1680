"""N01: names, orientations and option tables agree.

Every table is obtained by partial evaluation of the function that implements
it (constant enumerator / constant text in, result term out), so it does not
matter whether it is a switch, an if-chain or a helper."""
import re
from ..tables import Table, evaluate, enum_of, enumerators
from ..absint import is_k, tshow, to_poly, K, subterms, from_poly, mul, neg, add
from ..build import AnalysisError
from ..program import strip

LEVEL = "other"
TECHNIQUE = "partial evaluation of option tables over the typed AST (all enumerators)"
NOTE = ("Static analysis, complete over every enumerator of every option type with a printer/parser: the printed, parsed, orientation, "
        "weight and variance tables are computed from the source by abstract evaluation and compared. Trusts clang's AST, the evaluator, "
        "and that the text helpers (starts_with, AreEqual_i, EndsWith) do what their names say.")
EXPLANATION = ("Partial evaluation of every ToString/FromString pair and of the orientation/weight tables for every "
               "enumerator; agreement of the resulting tables is compared exactly.")


def single(t):
    """the single constant outcome of an evaluation, or None"""
    vs = {r[1] for r in t.rets}
    if len(vs) == 1 and not t.throws:
        return next(iter(vs))
    return None


def short(e):
    return e.split("::")[-1]


def str_test(f):
    cs = f[1] if f[0] == "or" else [f]
    return any((c[0] == "tr" and c[1][0] == "ap" and c[1][1].split("::")[-1] in ("starts_with", "ends_with", "iequals", "equals", "istarts_with", "iends_with"))
               or (c[0] == "eq0" and c[1][0] == "ap" and c[1][1] in ("strcmp", "std::strcmp")) for c in cs)


def literals(P, g):
    """text literals the parser compares its argument with -> results they lead to"""
    out = []

    class L(Table):
        def on_return(self, node, val, st, fr):
            super().on_return(node, val, st, fr)
            if fr.depth:
                return
            pos = [f for f in st.facts if str_test(f)]
            if len(pos) != 1:
                return
            for f in pos:
                for c in (f[1] if f[0] == "or" else [f]):
                    if c[0] == "tr" and c[1][0] == "ap" and c[1][1].split("::")[-1] in ("starts_with", "iequals", "equals", "istarts_with"):
                        for a in c[1][2:]:
                            if is_k(a) and isinstance(a[1], str):
                                out.append((a[1], c[1][1], val, node))
                    if c[0] == "eq0" and c[1][0] == "ap" and c[1][1] in ("strcmp", "std::strcmp"):
                        for a in c[1][2:]:
                            if is_k(a) and isinstance(a[1], str):
                                out.append((a[1], "equals", val, node))
    evaluate(P, g, {}, cls=L)
    return out


def fold(t):
    """log(exp(x)) -> x, exp(log(x)) -> x"""
    if t[0] == "ap" and len(t) == 3 and t[1].split("::")[-1] in ("log", "exp"):
        a = fold(t[2])
        n = t[1].split("::")[-1]
        if a[0] == "ap" and len(a) == 3 and a[1].split("::")[-1] == {"log": "exp", "exp": "log"}[n]:
            return a[2]
        return ("ap", t[1], a)
    if t[0] == "P":
        r = K(0)
        for m, c in t[1]:
            x = K(c)
            for y in m:
                x = mul(x, fold(y))
            r = add(r, x)
        return r
    return t


def sign(t, x):
    """'+', '-', '0' or '?' : how term t depends on symbol x"""
    if t == x:
        return "+"
    if x not in set(subterms(t)):
        return "0"
    if t[0] == "P":
        s = set()
        for m, c in t[1]:
            fs = [sign(y, x) for y in m]
            nz = [f for f in fs if f != "0"]
            if not nz:
                continue
            if len(m) == 1:
                f = nz[0]
                s.add(f if c > 0 else {"+": "-", "-": "+"}.get(f, f))
            else:
                s.add("?")
        if len(s) == 1:
            return s.pop()
        return "?"
    if t[0] == "ap" and len(t) == 3 and t[1].split("::")[-1] in ("exp", "log", "sqrt"):
        return sign(t[2], x)
    return "?"


def run(P, rep):
    tos = [f for f in P.by_q.get("ldt::ToString", []) if f.get("body") and f["p"] and enum_of(P, f["p"][0]["t"])]
    froms = {}
    for g in P.funcs.values():
        if g.get("body") and g["n"].startswith("FromString") and enum_of(P, g["rt"]):
            froms[enum_of(P, g["rt"])] = g
    names = {}
    for f in tos:
        en = enum_of(P, f["p"][0]["t"])
        rep.did("option types")
        where = P.where(f)
        forms = [{}]
        if len(f["p"]) > 1:
            forms = [{f["p"][1]["n"]: True}, {f["p"][1]["n"]: False}]
        for fm in forms:
            tab = {}
            for n, v in enumerators(P, en):
                t = evaluate(P, f, dict(fm, **{f["p"][0]["n"]: v}))
                s = single(t)
                ok = s is not None and is_k(s) and isinstance(s[1], str)
                rep.ob("every option has exactly one name", ok, where,
                       "ToString(%s::%s) = %s" % (short(en), n, tshow(s) if s else "not a single text"),
                       key="%s::%s" % (en, n))
                if ok:
                    tab[n] = s[1]
            by = {}
            for n, s in tab.items():
                by.setdefault(s, []).append(n)
            for s, ns in by.items():
                rep.ob("printed names are distinct", len(ns) == 1, where,
                       "%s prints '%s' for %s" % (short(en), s, "/".join(ns)), key="%s|%s" % (en, s))
            names.setdefault(en, []).append((fm, tab))
    for en, g in sorted(froms.items()):
        pn = g["p"][0]["n"]
        where = P.where(g)

        def parse(s):
            t = evaluate(P, g, {pn: s})
            vs = {r[1] for r in t.rets}
            if len(vs) == 1 and is_k(next(iter(vs))):
                return next(iter(vs))[1]
            return "error" if not vs else "?"
        idx = {v: n for n, v in enumerators(P, en)}
        for n, v in enumerators(P, en):
            ident = re.sub(r"^k", "", n).lower()
            r = parse(ident)
            rep.ob("an option's identifier is read as that option", r == v, where,
                   "FromString(\"%s\") gives %s, expected %s::%s" % (ident, idx.get(r, r), short(en), n),
                   key="%s|%s" % (en, ident))
            for fm, tab in names.get(en, []):
                s = tab.get(n)
                if s is None:
                    continue
                is_abr = bool(fm) and list(fm.values())[0] is True
                for form in {s.lower(), re.sub(r"[^a-z0-9]", "", s.lower())}:
                    r = parse(form)
                    ok = (r == v) if is_abr else r in (v, "error")
                    rep.ob("a printed name is not read as another option", ok, where,
                           "FromString(\"%s\") gives %s, printed for %s::%s" % (form, idx.get(r, r), short(en), n),
                           key="%s|%s|%s" % (en, n, form))
        for lit, how, val, node in literals(P, g):
            if not is_k(val):
                continue
            r = parse(lit)
            rep.ob("every accepted text leads to its own branch", r == val[1], P.where(g, node),
                   "FromString(\"%s\") gives %s although a branch for it returns %s::%s" % (lit, idx.get(r, r), short(en), idx.get(val[1], val[1])),
                   key="%s|lit|%s" % (en, lit))
    # ---- orientation and weights
    for cls, en in (("ldt::GoodnessOfFit", "ldt::GoodnessOfFitType"), ("ldt::Scoring", "ldt::ScoringType")):
        def one(name):
            m = P.method(cls, name)
            if len(m) != 1 or not m[0].get("body"):
                raise AnalysisError("anchor vanished: %s::%s" % (cls, name))
            return m[0]
        tw, fw, po = one("ToWeight"), one("FromWeight"), one("IsPositiveOriented")
        for n, v in enumerators(P, en):
            tp = [p["n"] for p in tw["p"] if enum_of(P, p["t"]) == en][0]
            fp = [p["n"] for p in fw["p"] if enum_of(P, p["t"]) == en][0]
            pp = [p["n"] for p in po["p"] if enum_of(P, p["t"]) == en][0]
            o = single(evaluate(P, po, {pp: v}))
            w = single(evaluate(P, tw, {tp: v}))
            key = "%s::%s" % (en, n)
            rep.ob("every metric has one orientation and one weight", o is not None and is_k(o) and w is not None,
                   P.where(po), "%s: orientation %s, weight %s" % (key, tshow(o) if o else "undefined", tshow(w) if w else "undefined"), key=key)
            if o is None or w is None:
                continue
            rest = [p["n"] for p in tw["p"] if p["n"] != tp]
            x = ("p", rest[0])
            s = sign(w, x)
            rep.ob("weight grows exactly for positively oriented metrics", s == ("+" if o[1] else "-"), P.where(tw),
                   "%s: positively oriented is %s but weight %s depends on the metric with sign %s" % (key, o[1], tshow(w), s), key=key)
            # inverse
            args = []
            rf = [p["n"] for p in fw["p"] if p["n"] != fp]
            a = {fp: v}
            t = Table(P)
            vals = []
            k = 0
            for p in fw["p"]:
                if p["n"] == fp:
                    vals.append(K(v))
                else:
                    vals.append(w if k == 0 else ("p", rest[k]))
                    k += 1
            t.run(fw["f"], args=vals)
            r = single(t)
            r = fold(r) if r is not None else None
            ok = False
            if r is not None:
                d = to_poly(add(r, neg(x)))
                ok = all(abs(c) < 1e-9 for c in d.values() if isinstance(c, (int, float)))
            rep.ob("FromWeight inverts ToWeight", ok, P.where(fw),
                   "%s: FromWeight(ToWeight(x)) = %s" % (key, tshow(r) if r else "undefined"), key=key)
    # ---- which scores need a predictive variance
    rv = P.method("ldt::Scoring", "RequiresVariance")
    if len(rv) != 1:
        raise AnalysisError("anchor vanished: Scoring::RequiresVariance")
    rv = rv[0]
    need = {}
    for n, v in enumerators(P, "ldt::ScoringType"):
        r = single(evaluate(P, rv, {rv["p"][0]["n"]: v}))
        rep.ob("RequiresVariance is defined for every score", r is not None and is_k(r), P.where(rv),
               "RequiresVariance(%s) = %s" % (n, tshow(r) if r else "undefined"), key=n)
        need[n] = r[1] if r is not None and is_k(r) else None
    crps = {f["f"] for f in P.funcs.values() if f.get("c") == "ldt::Scoring" and f["n"].startswith("GetScoreCrps")}
    scorers = []
    for f in P.funcs.values():
        if not f.get("body") or f.get("c") == "ldt::Scoring":
            continue
        if any(enum_of(P, p["t"]) == "ldt::ScoringType" for p in f["p"]) and crps & set(P.reach([f["f"]])):
            scorers.append(f)
    for f in scorers:
        pn = [p["n"] for p in f["p"] if enum_of(P, p["t"]) == "ldt::ScoringType"][0]
        for n, v in enumerators(P, "ldt::ScoringType"):
            t = evaluate(P, f, {pn: v})
            used = any(c[1] in crps for c in t.called)
            if t.throws and t.end_state is None:
                continue
            # calls inside lambdas handed to Apply are seen through the lambda body
            rep.ob("scores that use a variance request it", not used or need[n] is True, P.where(f),
                   "%s computes %s %s predictive variance, RequiresVariance says %s" % (f["q"], n, "with" if used else "without", need[n]),
                   key="%s|%s" % (f["q"], n))
    rep.floor("every option has exactly one name", 60)
    rep.floor("an option's identifier is read as that option", 60)
    rep.floor("FromWeight inverts ToWeight", 10)
    rep.floor("scores that use a variance request it", 6)
    rep.floor("every accepted text leads to its own branch", 30)
