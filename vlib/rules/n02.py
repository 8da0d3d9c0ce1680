"""N02: every option value is served or refused."""
import itertools, re
from ..program import strip, walk, show
from ..flow import completes, enum_vals
from ..tables import evaluate, enum_of, enumerators, Table
from ..absint import base_type, K, is_k
from ..build import AnalysisError

LEVEL = "other"
TECHNIQUE = "exhaustiveness and fall-through analysis of every selection over an option type; partial evaluation of factories"
NOTE = ("Static analysis, complete over every switch, enumerator chain, compile-time selection and factory in the parsed translation units "
        "(all of src, the R glue). Whether the code in an option's own arm computes the right thing is outside the rule.")
EXPLANATION = ("Every switch, every enumerator chain and every compile-time selection over an option type is enumerated; "
               "each enumerator must reach an arm of its own or an arm that raises. Factories are partially evaluated for every "
               "combination of option values and the template arguments of the constructed class compared with the values.")

# option arguments that do not matter for the selected class: (class, option type, other option, values)
IRRELEVANT = {
    ("ldt::CorrelationMethod", "ldt::DistanceMethod"): {"kEuclidean", "kManhattan", "kMaximum"},  # not based on a correlation
}


def own(P, f):
    return f["file"].startswith(("src/", "include/", "Rpackage")) and "/lbfgsb/" not in f["file"]


def const_only(n):
    """a statement that only returns constants (classification table)"""
    for x in walk(n):
        if x["k"] in ("Call", "Ctor", "New", "Throw") or (x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")):
            return False
    return any(x["k"] == "Return" for x in walk(n))


def tests(c):
    c = strip(c)
    if c["k"] == "Bin" and c["op"] == "||":
        a, b = tests(c["a"]), tests(c["b"])
        return a + b if a and b else []
    if c["k"] == "Bin" and c["op"] == "==":
        for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
            y = strip(y)
            if y["k"] == "Ref" and y.get("dk") == "enum":
                return [(show(x), y["n"], y["v"], base_type(y.get("t") or x.get("t")))]
    return []


def run(P, rep):
    seen = set()
    seen_chain = set()
    cx = {}
    for f in P.funcs.values():
        if not f.get("body") or not own(P, f):
            continue
        inner = set()
        for n in P.all_nodes(f):
            if n["k"] == "Switch":
                ct = base_type(n.get("ct"))
                en = P.enums.get(ct)
                where = P.where(f, n)
                if where in seen:
                    continue
                seen.add(where)
                body = n["b"]["s"] if n["b"]["k"] == "Block" else [n["b"]]
                default = [c for c in walk(n["b"]) if c["k"] == "Default"]
                if en is not None:
                    rep.did("switches over option types")
                    cs = {c.get("v") for c in walk(n["b"]) if c["k"] == "Case"}
                    missing = [x["n"] for x in en["v"] if x["v"] not in cs]
                    ok, what = True, "switch over %s in %s covers %d of %d values" % (ct, f["q"], len(cs), len(en["v"]))
                    if missing:
                        if not default:
                            ok = False
                            what = "switch over %s in %s has no arm and no default for %s" % (ct, f["q"], ", ".join(missing[:6]))
                        else:
                            # statements from the default label on
                            i = next((i for i, s in enumerate(body) if any(x is default[0] for x in walk(s))), None)
                            tail = {"k": "Block", "s": body[i:] if i is not None else [default[0]]}
                            r = completes(tail, P)
                            if r != {"T"} and not all(const_only(s) for s in body):
                                ok = False
                                what = "default of the switch over %s in %s serves %s silently" % (ct, f["q"], ", ".join(missing[:6]))
                    rep.ob("switch serves or refuses every value", ok, where, what, key="%s|%s" % (f["q"], ct))
                for a, b in zip(body, body[1:]):
                    if b["k"] in ("Case", "Default"):
                        ok = "N" not in completes(a, P)
                        if en is None and "/optimization/" in f["file"]:
                            continue
                        rep.ob("no arm runs on into the next value's arm", ok, P.where(f, a),
                               "an arm of the switch over %s in %s continues into the next one" % (ct, f["q"]),
                               key="%s|%s|%s" % (f["q"], ct, a.get("v")))
            elif n["k"] == "If" and id(n) not in inner:
                arms, m, same = [], n, None
                while m is not None and m["k"] == "If":
                    t = tests(m["c"])
                    if not t or (same is not None and any(x[0] != same for x in t)):
                        break
                    same = t[0][0]
                    arms.append((m, t))
                    nx = m.get("b")
                    if nx is not None and nx["k"] == "Block" and len(nx["s"]) == 1 and nx["s"][0]["k"] == "If":
                        nx = nx["s"][0]
                    if nx is not None and nx["k"] == "If":
                        inner.add(id(nx))
                    m = nx
                if len(arms) < 2 or n.get("cx"):
                    continue
                where = P.where(f, n)
                if where in seen_chain:
                    continue
                seen_chain.add(where)
                en = P.enums.get(arms[0][1][0][3])
                if not en:
                    continue
                vals = {x[2] for _, t in arms for x in t}
                allv = {x["v"] for x in en["v"]}
                rep.did("enumerator chains")
                if allv - vals and 2 * len(vals) > len(allv):
                    ok = m is not None and completes(m, P) == {"T"}
                    rep.ob("enumerator chain serves or refuses every value", ok, where,
                           "chain over %s in %s leaves %s without an arm of their own" % (en["n"], f["q"], [x["n"] for x in en["v"] if x["v"] not in vals][:6]),
                           key="%s|%s" % (f["q"], en["n"]))
                else:
                    rep.ob("enumerator chain serves or refuses every value", True, where,
                           "chain over %s in %s" % (en["n"], f["q"]))
            if n["k"] == "If" and n.get("cx") and id(n) not in inner:
                # compile-time selection: did some arm get selected in this instantiation?
                m, taken, arms, els = n, False, 0, False
                while m is not None and m["k"] == "If" and m.get("cx"):
                    arms += 1
                    if m.get("cxv"):
                        taken = True
                    nx = m.get("b")
                    if nx is not None and nx["k"] == "If":
                        inner.add(id(nx))
                    elif nx is not None:
                        els = True
                    m = nx
                k = (f["file"], n["l"])
                cx.setdefault(k, []).append((f, taken or els, arms, n))
        # undefined result
        if f.get("rt") not in ("void", "", None) and not f.get("ctor") and not f.get("dtor") and not f["file"].endswith(".c"):
            r = completes(f["body"], P)
            rep.ob("no value-returning function ends without a value", "N" not in r, P.where(f),
                   "%s can reach its end without returning a value" % f["q"], key=f["q"])
    for k, lst in sorted(cx.items()):
        some = [x for x in lst if x[1]]
        multi = max(x[2] for x in lst) > 1
        for f, took, arms, n in lst:
            ok = took or not multi or not (2 * len(some) > len(lst))
            rep.ob("every instantiation takes an arm of a compile-time selection", ok, P.where(f, n),
                   "%s takes no arm of the selection that other instantiations take" % f["q"], key="%s" % f["q"])
    # ---- factories
    nf = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"], f["f"])):
        if not f.get("body") or not own(P, f) or f.get("ctor"):
            continue
        ps = [(p["n"], enum_of(P, p["t"])) for p in f["p"]]
        es = [(n, e) for n, e in ps if e]
        if not es:
            continue
        bools = [p["n"] for p in f["p"] if base_type(p["t"]) == "bool"]
        if not makes_class(P, f, {e for _, e in es}):
            continue
        nf += 1
        rep.did("factories")
        choices = [[(n, e, en, v) for en, v in enumerators(P, e)] for n, e in es]
        choices += [[(b, "bool", str(v).lower(), v) for v in (False, True)] for b in bools]
        outcomes = {}
        for combo in itertools.product(*choices):
            t = evaluate(P, f, {c[0]: c[3] for c in combo})
            made = sorted({n[1] for n in t.news if direct(n[2]) and has_enum_arg(n[1], {e for _, e in es})})
            ctx = ", ".join("%s=%s" % (c[0], c[2]) for c in combo)
            served = t.end_state is not None
            rep.ob("every option combination is served or refused", (not served) or len(made) == 1, P.where(f),
                   "%s(%s) constructs %s" % (f["q"], ctx, made or "nothing"), key="%s|%s" % (f["q"], ctx))
            if not served:
                continue
            for cls in made:
                args = targs(cls)
                for pn, e, en, v in combo:
                    if e == "bool":
                        ba = [a for a in args if a in ("true", "false")]
                        if len(bools) == 1 and len(ba) == 1:
                            rep.ob("the constructed implementation is the one for the value", ba[0] == en, P.where(f),
                                   "%s(%s) constructs %s" % (f["q"], ctx, cls), key="%s|%s|%s" % (f["q"], pn, ctx))
                        continue
                    mine = [a.split("::")[-1] for a in args if a.split("::")[0] == e.split("::")[-1]]
                    if not mine:
                        continue
                    if mine[0] != en:
                        ex = False
                        for (a, b), vals in IRRELEVANT.items():
                            if a == e and any(c[1] == b and c[2] in vals for c in combo):
                                ex = True
                        if ex:
                            continue
                    rep.ob("the constructed implementation is the one for the value", mine[0] == en, P.where(f),
                           "%s(%s) constructs %s" % (f["q"], ctx, cls), key="%s|%s|%s" % (f["q"], pn, ctx))
    rep.floor("switch serves or refuses every value", 40)
    rep.floor("the constructed implementation is the one for the value", 80)
    rep.floor("no value-returning function ends without a value", 500)


def direct(fr):
    """the construction is made by the factory (or a plain helper), not by a constructor it runs"""
    while fr is not None:
        if fr.f.get("ctor"):
            return False
        fr = fr.parent
    return True


def targs(cls):
    m = re.match(r"^[^<]*<(.*)>$", cls)
    if not m:
        return []
    return [a.strip().replace("ldt::", "") for a in m.group(1).split(",")]


def has_enum_arg(cls, ens):
    names = {e.split("::")[-1] for e in ens}
    return any(a.split("::")[0] in names for a in targs(cls))


def makes_class(P, f, ens):
    for k in P.reach([f["f"]], stop=lambda g: g["f"] != f["f"] and g.get("ctor")):
        g = P.funcs[k]
        if g.get("ctor") and g.get("c") and has_enum_arg(g["c"], ens):
            # the class must be made directly in f (or a helper without its own option parameter)
            break
    for n in P.all_nodes(f):
        if n["k"] == "Call" and n.get("mkc") and has_enum_arg(n["mkc"], ens):
            return True
        if n["k"] == "New" and has_enum_arg(n.get("at", ""), ens):
            return True
    return False
