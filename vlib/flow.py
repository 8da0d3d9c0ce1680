"""How statements can complete (structured control flow)."""
from .program import strip, walk
from .absint import base_type


def fold(e):
    """constant value of an expression, or None"""
    e = strip(e)
    if e is None:
        return None
    k = e["k"]
    if k in ("Int", "Bool", "Char"):
        return e["v"]
    if k == "Ref" and e.get("dk") == "enum":
        return e["v"]
    if k == "Un" and e["op"] == "!":
        v = fold(e["e"])
        return None if v is None else (not v)
    if k == "Bin":
        a, b, op = fold(e["a"]), fold(e["b"]), e["op"]
        if op == "||":
            if (a is not None and a) or (b is not None and b):
                return True
            return False if a is not None and b is not None else None
        if op == "&&":
            if (a is not None and not a) or (b is not None and not b):
                return False
            return True if a is not None and b is not None else None
        if a is None or b is None:
            return None
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b,
                "<=": lambda: a <= b, ">=": lambda: a >= b}.get(op, lambda: None)()
    return None


NORET = {"Rcpp::stop", "abort", "exit", "std::terminate", "std::abort", "std::exit"}


def enum_vals(P, t):
    en = P.enums.get(base_type(t))
    return {x["v"] for x in en["v"]} if en else None


def completes(n, P):
    """subset of {N(ormal), B(reak), C(ontinue), R(eturn), T(hrow)}"""
    if n is None:
        return {"N"}
    k = n["k"]
    if k == "Block":
        out, live = set(), True
        for s in n["s"]:
            if not live:
                continue
            r = completes(s, P)
            out |= r - {"N"}
            live = "N" in r
        return out | ({"N"} if live else set())
    if k == "Return":
        return {"R"}
    if k == "Break":
        return {"B"}
    if k == "Continue":
        return {"C"}
    if k == "If":
        v = n["cxv"] if "cxv" in n else fold(n["c"])
        out = set()
        if v is None or v:
            out |= completes(n["a"], P)
        if v is None or not v:
            out |= completes(n.get("b"), P)
        return out
    if k in ("Case", "Default", "Label"):
        return completes(n["s"], P)
    if k == "Expr":
        e = strip(n["e"])
        if e["k"] == "Throw":
            return {"T"}
        if e["k"] == "Call" and (e.get("q") in NORET):
            return {"T"}
        if e["k"] == "Call" and e.get("f") in P.funcs:
            g = P.funcs[e["f"]]
            if g.get("body") and not e.get("virt") and only_throws(g, P):
                return {"T"}
        return {"N"}
    if k == "Switch":
        body = n["b"]["s"] if n["b"]["k"] == "Block" else [n["b"]]
        out, live = set(), False
        for s in body:
            if s["k"] not in ("Case", "Default") and not live:
                continue
            r = completes(s, P)
            out |= r - {"N"}
            live = "N" in r
        res = out - {"B"}
        d = any(c["k"] == "Default" for c in walk(n["b"]))
        if "B" in out or live:
            res.add("N")
        if not d:
            vs = enum_vals(P, n.get("ct"))
            cs = {c.get("v") for c in walk(n["b"]) if c["k"] == "Case"}
            if not vs or vs - cs:
                res.add("N")
        return res
    if k in ("While", "For", "DoWhile", "RangeFor"):
        r = completes(n["b"], P)
        c = n.get("c")
        inf = (k == "For" and c is None) or (c is not None and k != "RangeFor" and fold(c))
        out = r & {"R", "T"}
        if inf:
            return out | ({"N"} if "B" in r else set())
        return out | {"N"}
    if k == "Try":
        r = set(completes(n["b"], P)) | {"T"}
        hs = n["h"]
        if any(h.get("t") in (None, "", "...") for h in hs):
            r.discard("T")
        for h in hs:
            r |= completes(h["b"], P)
        return r
    if k == "OMP":
        return completes(n.get("b"), P)
    return {"N"}


def only_throws(g, P, _busy=set()):
    k = g["f"]
    c = P.__dict__.setdefault("_only_throws", {})
    if k in c:
        return c[k]
    c[k] = False
    r = completes(g["body"], P)
    c[k] = r == {"T"}
    return c[k]
