"""U01: no result depends on an uninitialised scalar or pointer."""
from ..program import walk, strip
from ..absint import base_type
from ..definit import Definit, summary

LEVEL = "other"
TECHNIQUE = "definite-assignment dataflow over every constructor and function, interprocedural through references and members"
NOTE = ("Static analysis over every class and function of the parsed translation units. Members must be initialised by a default "
        "initialiser or on every normally ending path of every constructor; scalar locals must be assigned before every read. "
        "Contents of heap buffers and of the translated Fortran (.c) files are outside the rule.")
EXPLANATION = NOTE

SCALAR = {"int", "unsigned int", "long", "unsigned long", "bool", "char", "double", "float", "short", "unsigned short",
          "long long", "unsigned long long", "unsigned char", "signed char", "long double", "size_t"}


def scalar(P, t):
    t = t.strip()
    if t.endswith("*") or t.endswith("*const"):
        return True
    b = base_type(t)
    return (b in SCALAR or b in P.enums) and not t.endswith("&")


def own(f):
    return not f["file"].startswith("/") and not f["file"].endswith(".c")


def run(P, rep):
    sm = {}
    rep.did("translation units", P.raw.get("tus") if isinstance(P.raw.get("tus"), int) else len(P.raw.get("tus") or []))
    # ---- members
    for r in sorted(P.records.values(), key=lambda r: r["n"]):
        if (r.get("file") or "/").startswith("/") or (r.get("file") or "").endswith(".c") or r.get("union") or r.get("lambda"):
            continue
        fs = [fd for fd in r["fields"] if not fd["ini"] and scalar(P, fd["t"])]
        if not r["fields"]:
            continue
        rep.did("classes")
        if not fs:
            for fd in r["fields"]:
                if scalar(P, fd["t"]):
                    rep.ob("member initialised by every constructor", True, "%s:%s" % (r["file"], fd["l"]), "%s::%s" % (r["n"], fd["n"]))
            continue
        cs = [c for c in P.ctors(r["n"]) if c.get("body") and not c.get("implicit")]
        for fd in r["fields"]:
            if fd["ini"] and scalar(P, fd["t"]):
                rep.ob("member initialised by every constructor", True, "%s:%s" % (r["file"], fd["l"]), "%s::%s" % (r["n"], fd["n"]))
        res = {}
        for c in cs:
            tr = {("m", fd["n"]) for fd in fs}
            bad = set()
            d = Definit(P, c, tr, sm, lambda g, e, k: bad.add((k[1], e.get("l"))))
            out = d.run()
            a = frozenset.intersection(*[p.a for p in out]) if out else frozenset(tr)
            res[c["f"]] = (c, a, bad)
        base = r["n"].split("<")[0]
        for fd in fs:
            k = ("m", fd["n"])
            if not cs:
                rep.ob("member initialised by every constructor", False, "%s:%s" % (r["file"], fd["l"]),
                       "%s::%s has no initialiser and %s has no constructor that sets it" % (r["n"], fd["n"], base),
                       key="%s::%s" % (base, fd["n"]))
            for c, a, bad in res.values():
                rep.ob("member initialised by every constructor", k in a, P.where(c),
                       "%s::%s is not set on every path of the constructor %s(%s)" % (r["n"], fd["n"], base, ", ".join(p["t"] for p in c["p"])),
                       key="%s::%s" % (base, fd["n"]))
        for c, a, bad in res.values():
            for n, l in bad:
                rep.ob("member read only after it is set", False, "%s:%s" % (c["file"], l),
                       "constructor of %s reads %s before setting it" % (r["n"], n), key="%s::%s" % (base, n))
            rep.ob("member read only after it is set", True, P.where(c), r["n"])
    # ---- locals
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"], f["f"])):
        if not own(f) or not f.get("body"):
            continue
        rep.did("functions")
        units = [(f, f)]
        for n in P.all_nodes(f):
            if n["k"] == "Lambda" and n.get("body"):
                units.append((dict(f, body=n["body"], inits=None), f))
        for u, f0 in units:
            tr = {}
            lam = set()
            for n in walk(u["body"]):
                if n["k"] == "Lambda":
                    lam |= {id(x) for x in walk(n["body"])}
            for n in walk(u["body"]):
                if n["k"] == "Decl" and id(n) not in lam:
                    for v in n["v"]:
                        if v.get("init") is None and not v.get("static") and scalar(P, v["t"]):
                            tr[("d", v["d"])] = v
            if not tr:
                continue
            bad = {}
            d = Definit(P, u, set(tr), sm, lambda g, e, k: bad.setdefault(k, e))
            d.run()
            for k, v in tr.items():
                e = bad.get(k)
                rep.ob("local assigned before it is read", k not in bad, "%s:%s" % (f["file"], (e or v).get("l") or f["l"]),
                       "%s: '%s' may be read before it is assigned" % (f["q"], v["n"]), key="%s|%s" % (f["q"], v["n"]))
    rep.floor("member initialised by every constructor", 300)
    rep.floor("local assigned before it is read", 20)
