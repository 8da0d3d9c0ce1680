"""O01: every user option reaches the engine field it names."""
import json, os
from ..program import walk
from ..options import (Facts, glue, exported, routes, strmap, enummap, updates as fill, keysread, plain, rexported, rfunctions, rlist, closure, component, stored, rassigns, rformals, rsyms, params,
                       CONSTR, is_list)
from ..rast import rcalls

LEVEL = "other"
TECHNIQUE = ("data-flow of named list elements and parameters through the R boundary (C++ syntax trees and R syntax trees), compared with a committed table of "
             "option, engine field and argument correspondences")
NOTE = ("For every option structure of the engine, each field is assigned from exactly the list element the table names, unchanged and under no further condition; "
        "every parameter of every exported function reaches the engine argument or field the table names (through helpers and locals, element by element where a "
        "constant index selects it), and only that one; the R constructors return each option under its own name, provide every name that the compiled side reads and "
        "no name that it ignores; the R functions pass their options in the order of the compiled parameters and do not replace one that was given; the texts that "
        "select a metric, distribution, distance or frequency name the enumerator of the table. What the engine does with a field is not part of this property.")
EXPLANATION = NOTE
REPLACED = {("get.search.modelchecks", "estimation")}     # documented: predictions need the estimation
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "options.json")


def base(s):
    return s.split("[")[0]


def renamer(rec, cur):
    """names of the current parameters in terms of the recorded ones (renamed parameters keep their position)"""
    m = {}
    if len(rec) == len(cur):
        for r, c in zip(rec, cur):
            if c not in rec and r not in cur:
                m[c] = r
    return lambda s: m.get(base(s), base(s)) + s[len(base(s)):]


def run(P, rep):
    T = json.load(open(TABLE))
    F = Facts(P)
    fields(P, rep, F, T)
    arguments(P, rep, F, T)
    names(P, rep, T)
    rside(P, rep, F, T)


def fields(P, rep, F, T):
    got = {}
    for a in F.assigns:
        got.setdefault("%s.%s" % (a["c"], a["f"]), []).append(a)
    for k, e in sorted(T["fields"].items()):
        src = [a for a in got.get(k, []) if not a["const"]]
        rep.ob("option read", bool(src) or not e["from"], k, "no assignment of %s from an option any more (table: from %s)" % (k, e["from"]), key=k)
    for k, as_ in sorted(got.items()):
        e = T["fields"].get(k)
        for a in as_:
            w = P.where(a["fn"], a["node"])
            if e is None:
                continue            # a field the table does not know: nothing is claimed for it
            if a["const"]:
                later = any(b["fn"] is a["fn"] and not b["const"] and (b["node"].get("l") or 0) > (a["node"].get("l") or 0) for b in as_)
                rep.ob("no constant", a["const"] in e["const"] or later, w, "%s is set to a constant: %s" % (k, a["const"]), key="%s %s" % (k, a["const"]))
                continue
            f = a["fn"]
            s = {x for x in a["keys"]}
            ps = {"(%s)" % x for x in a["pars"]}
            okf = any(s | ps == set(x) or s == {y for y in x if y[0] != "("} and len(ps) == len([y for y in x if y[0] == "("]) and not known(P, f, ps, x) for x in e["from"])
            rep.ob("option and field", okf, w, "%s takes its value from %s (table: %s)" % (k, sorted(s | ps), e["from"]), key=k + " source")
            c = {x for x in a["cond"] if x[0] != "("}
            rep.ob("no further condition", c <= set(e["cond"]) | s, w, "%s is assigned only under a condition on %s" % (k, sorted(c - set(e["cond"]) - s)), key=k + " cond")
            rep.ob("value unchanged", not a["arith"], w, "%s takes a changed value: %s" % (k, a["arith"]), key=k + " value")
            rep.ob("value not narrowed", not a["cast"], w, "%s is read with %s" % (k, a["cast"]), key=k + " cast")
    rep.floor("option and field", 45)


def known(P, f, ps, rec):
    """the parameters that are used are other ones of the same function"""
    names_ = {p["n"] for p in f["p"]}
    want = {y[1:-1] for y in rec if y[0] == "("}
    return bool(want & names_)


def arguments(P, rep, F, T):
    ex = exported(P)
    for n, rec in sorted(T["routes"].items()):
        f = ex.get(n)
        if f is None:
            rep.broken.append("exported function %s not found" % n)
            continue
        w = "%s:%d %s" % (f["file"], f["l"], n)
        cur = [p["n"] for p in f["p"]]
        ren = renamer(rec["formals"], cur)
        R = {}
        for k, v in routes(F, f).items():
            R[k] = ({frozenset(ren(x) for x in s) for s in v["s"]}, v["x"])
        callees = {k.split("|")[0] for k in R} | {q for q, _ in F.pairs(f)}
        reached = {base(x) for s, _ in R.values() for y in s for x in y}
        for p in rec["formals"]:
            rep.ob("parameter used", p in reached, w, "the option %s reaches no engine argument or field" % p, key="%s.%s" % (n, p))
        for k, v in sorted(rec["to"].items()):
            q, p = k.split("|")
            want = {frozenset(x) for x in v["s"] if len(x) <= 3}
            if k not in R:
                if q in callees:
                    k2 = renamed(P, q, p, T, R)
                    if k2 is None:
                        rep.ob("argument passed", False, w, "%s no longer receives %s as %s" % (q, fmt(want), p), key="%s %s" % (n, k))
                        continue
                    if k2 == "":
                        continue
                    got, x = R[k2]
                elif "::" not in q and "." in q:
                    rep.ob("argument passed", False, w, "%s no longer comes from %s" % (q, fmt(want)), key="%s %s" % (n, k))
                    continue
                else:
                    rep.did("callees of the table that are gone")
                    continue
            else:
                got, x = R[k]
            if v["x"]:
                ok = got == {frozenset(x) for x in v["s"]}
            else:
                ok = ("::" not in q or all(any(a <= b for b in got) for a in want)) and all(any(a <= b for a in want) or len(b) > 3 for b in got)
            rep.ob("argument passed", ok, w, "%s receives %s as %s (table: %s)" % (q, fmt(got), p, fmt(want)), key="%s %s" % (n, k))
        updates(P, rep, F, f, n, T["updates"].get(n, {}), ren)
        # constants
        for (q, p), vs in F.pairs(f).items():
            if q == "UpdateOptions" and p in ("isTimeSeries", "isDc"):
                want = "true" if n == {"isTimeSeries": "SearchVarma", "isDc": "SearchDc"}[p] else "false"
                for s, node, l, t in vs:
                    if l is not None:
                        rep.ob("kind of search", l == want, P.where(f, node), "%s = %s in %s" % (p, l, n), key="%s %s" % (n, p))
    rep.floor("argument passed", 250)
    rep.floor("kind of search", 6)


def updates(P, rep, F, f, n, rec, ren):
    """an option structure is filled under no condition but one on the list it is filled from"""
    for c, src, own, node in fill(F, f):
        extra = {ren(x) for x in src} - {ren(x) for x in own} - set(rec.get(c, ()))
        rep.ob("filled unconditionally", not extra, P.where(f, node), "%s is called only under a condition on %s" % (c, sorted(extra)), key="%s %s" % (n, c))


def renamed(P, q, p, T, R):
    """the key of the same argument when the parameter has another name now: None = it is not passed, '' = cannot tell"""
    cur = params(P, q)
    if any(p in ps for ps in cur):
        return None
    recs = {k.split("|")[1] for r in T["routes"].values() for k in r["to"] if k.split("|")[0] == q}
    new = [k for k in R if k.split("|")[0] == q and k.split("|")[1] not in recs]
    return new[0] if len(new) == 1 else ""


def fmt(ss):
    return " or ".join("+".join(sorted(s)) for s in sorted(ss, key=sorted)) or "nothing"


def names(P, rep, T):
    for f in P.funcs.values():
        if not f.get("body"):
            continue
        rec = T["names"].get(f["n"])
        if rec:
            w = "%s:%d %s" % (f["file"], f["l"], f["n"])
            m = strmap(P, f)
            for s, v in m:
                rep.ob("text and enumerator", s not in rec or rec[s] == v, w, "the text '%s' selects %s (table: %s)" % (s, v, rec.get(s)), key="%s %s" % (f["n"], s))
            have = {x["v"] for n in P.all_nodes(f) for x in [n] if x["k"] == "Str"}
            if len(m) * 2 >= len(rec):
                for s in rec:
                    rep.ob("text and enumerator", s in have or any(s.startswith(h) and dict(m).get(h) == rec[s] for h in have), w,
                           "the text '%s' is not recognised any more" % s, key="%s %s gone" % (f["n"], s))
            prefix(P, rep, f, w)
        if f["n"] == "ToString" and f["p"]:
            rec = T["texts"].get(plain(f["p"][0]["t"]).replace("const ", "").replace(" &", ""))
            if rec:
                for v, t in enummap(P, f).items():
                    rep.ob("enumerator and text", v not in rec or rec[v] == t, "%s:%d %s" % (f["file"], f["l"], f["q"]),
                           "%s is named %s (table: %s)" % (v, t, rec.get(v)), key="%s %s" % (f["p"][0]["t"], v))
    rep.floor("text and enumerator", 120)
    rep.floor("enumerator and text", 60)


def prefix(P, rep, f, w):
    """in a chain of prefix tests no text is hidden by an earlier, shorter one"""
    def chain(n):
        out = []
        while n is not None and n["k"] == "If":
            c = n["c"]
            st = [x for x in walk(c) if x["k"] == "Call" and x.get("n") == "StartsWith"]
            out.append((n, [y["v"] for x in st for y in walk(x) if y["k"] == "Str"], [x["v"] for x in walk(c) if x["k"] == "Str"]))
            n = n.get("b")
            if n is not None and n["k"] == "Block" and len(n["s"]) == 1:
                n = n["s"][0]
        return out

    seq = []

    def go(n, top):
        if n is None:
            return
        if n["k"] == "If":
            c = chain(n)
            for i in range(len(c)):
                for j in range(i + 1, len(c)):
                    bad = [(a, b) for a in c[i][1] for b in c[j][2] if b.startswith(a)]
                    rep.ob("text reachable", not bad, w, "the test for '%s' hides the later one for '%s'" % (bad[0] if bad else ("", "")), key="%s %s" % (f["n"], bad))
            for x in c:
                go(x[0]["a"], False)
        elif n["k"] == "Block":
            ifs = [s for s in n["s"]]
            for s in ifs:
                go(s, True)
    go(f["body"], True)


def rside(P, rep, F, T):
    R = rfunctions()
    for r, rec in sorted(T["constructors"].items()):
        fn = R.get(r)
        if fn is None:
            rep.broken.append("R function %s not found" % r)
            continue
        fm = set(rformals(fn))
        L = rlist(fn)
        direct = {k: [k] for k in rec if k in fm}
        for k, want in rec.items():
            if k not in L:
                rep.ob("constructor keeps the option", False, r, "%s does not return '%s'" % (r, k), key="%s %s" % (r, k))
                continue
            got = closure(fn, L[k], fm)
            ok = set(want) <= got and (k not in fm or k in rsyms(L[k]) or got == {k})
            rep.ob("constructor keeps the option", ok, r, "%s returns '%s' from %s (table: %s)" % (r, k, sorted(got), want), key="%s %s" % (r, k))
        overwritten(rep, r, fn, fm)
    if F is not None:
        for u, r in sorted(CONSTR.items()):
            fs = [f for f in glue(P) if f["n"] == u]
            if not fs or r not in R:
                continue
            read = keysread(F, fs[0])
            give = set(rlist(R[r]))
            rec = set(T["keys"][u])
            for k in sorted(rec):
                rep.ob("option of the list is read", k in read, "%s:%d %s" % (fs[0]["file"], fs[0]["l"], u), "%s never reads '%s'" % (u, k), key="%s %s" % (u, k))
            for k in sorted(read):
                if k in rec and k not in give and k not in ("lower", "upper"):
                    rep.ob("option read is given", False, r, "%s reads '%s', which %s does not return" % (u, k, r), key="%s %s" % (r, k))
                elif k in give:
                    rep.ob("option read is given", True, r, k)
                elif k not in rec and not inner(fs[0], k):
                    rep.ob("option read is given", False, u, "%s reads '%s', which %s does not return" % (u, k, r), key="%s %s" % (r, k))
            ign = {"stepsNumVariables", "stepsFixedNames", "stepsSavePre", "startFrequency"}
            for k in sorted(give - ign):
                rep.ob("option given is read", k in read, r, "%s returns '%s', which %s never reads" % (r, k, u), key="%s %s unread" % (r, k))
    named(rep, R, T["passed"], T["stored"])
    ex = rexported()
    for n, rr in sorted(T["r"].items()):
        for rn, args in rr.items():
            cs = [(fn, c) for x, fn, c in ex.get(n, []) if x == rn]
            if not cs:
                rep.did("R callers of the table that are gone")
                continue
            for fn, c in cs:
                fm = set(rformals(fn))
                w = "%s line %s" % (rn, c.get("l"))
                if len(c["a"]) != len(args):
                    rep.ob("order of arguments", len(c["a"]) == nformals(P, n), w, "%s gets %d arguments" % (n, len(c["a"])), key="%s %s count" % (rn, n))
                    continue
                for i, (a, want) in enumerate(zip(c["a"], args)):
                    got = closure(fn, a["v"], fm)
                    isf = a["v"]["k"] == "sym" and a["v"]["n"] in fm
                    if isinstance(want, str):
                        ok = isf and a["v"]["n"] == want or not isf and want in got
                    else:
                        ok = not isf and set(want) <= got or isf and set(want) == {a["v"]["n"]}
                    rep.ob("order of arguments", ok, w, "argument %d of .%s is %s (table: %s)" % (i + 1, n, a["v"].get("n") if isf else sorted(got), want),
                           key="%s %s %d" % (rn, n, i))
                overwritten(rep, rn, fn, fm)
    rep.floor("constructor keeps the option", 55)
    rep.floor("option of the list is read", 55)
    rep.floor("order of arguments", 100)
    rep.floor("option not replaced", 60)


def named(rep, R, passed, keep):
    """f(a = x$b) where f (or the function around it) has an option b as well"""
    for name, fn in sorted(R.items()):
        fm = set(rformals(fn))
        for c in rcalls(fn["body"]):
            cal = R.get(c["fn"])
            cf = set(rformals(cal)) if cal else set()
            for a in c["a"]:
                s = component(a["v"]) if a["n"] else None
                if not s or s == "object":
                    continue
                bad = s != a["n"] and (s in fm and a["n"] in fm or s in cf and a["n"] in cf)
                rep.ob("named argument", not bad, "%s line %s" % (name, c.get("l")), "%s(%s = %s): the argument %s takes the option %s" % (c["fn"], a["n"], s, a["n"], s),
                       key="%s %s %s" % (name, c["fn"], a["n"]))
    rep.floor("named argument", 150)
    for name, cs in sorted(passed.items()):
        fn = R.get(name)
        for cal, want in sorted(cs.items()):
            calls = [c for c in rcalls(fn["body"]) if c["fn"] == cal] if fn else []
            for c in calls:
                have = {a["n"]: a["v"] for a in c["a"] if a["n"]}
                if len(have) * 2 < len(want):
                    continue
                w = "%s line %s" % (name, c.get("l"))
                for k, comp in sorted(want.items()):
                    v = have.get(k)
                    if v is None:
                        ok, what = False, "is not passed"
                    else:
                        ok = not (v["k"] in ("null", "num", "bool", "str") or not rsyms(v))
                        what = "is replaced by a constant"
                        if ok and component(v) and component(v) != comp and component(v) in set(want.values()):
                            ok, what = False, "takes " + component(v)
                    rep.ob("option passed on", ok, w, "%s: the option %s (from %s) %s" % (cal, k, comp, what), key="%s %s %s" % (name, cal, k))
    rep.floor("option passed on", 40)
    for name, want in sorted(keep.items()):
        fn = R.get(name)
        st = stored(fn) if fn else []
        fm = set(rformals(fn)) if fn else set()
        for k, v, line in st:
            rep.ob("option reported", not (v and v != k and v in fm and k in fm), "%s line %s" % (name, line), "info$%s reports %s" % (k, v), key="%s %s" % (name, k))
        if len(st) * 2 >= len(want):
            for k in want:
                rep.ob("option reported", any(x[0] == k for x in st), name, "info$%s is not reported any more" % k, key="%s %s gone" % (name, k))
    rep.floor("option reported", 80)


def inner(f, k):
    return True if k in ("aic", "sic", "brierIn", "brierOut", "rmse", "rmspe", "mae", "mape", "crps") else False


def nformals(P, n):
    f = exported(P).get(n)
    return len(f["p"]) if f else -1


def overwritten(rep, r, fn, fm):
    for l, e, conds, line in rassigns(fn):
        if l["k"] == "sym" and l["n"] in fm:
            ok = (r, l["n"]) in REPLACED or l["n"] in closure(fn, e, fm) or any(l["n"] in rsyms(c) for c in conds)
            rep.ob("option not replaced", ok, "%s line %s" % (r, line), "%s replaces its argument %s by a value that does not depend on it" % (r, l["n"]), key="%s %s" % (r, l["n"]))
