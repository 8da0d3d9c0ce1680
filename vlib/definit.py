"""Definite assignment (must-analysis over the structured AST, with branch
correlation on syntactically equal conditions, interprocedural through
reference/pointer parameters and members of *this)."""
from .program import strip, walk, show
from .flow import fold, NORET, only_throws, enum_vals
from .absint import base_type

MAXP = 24


class S:
    """one abstract path: definitely assigned keys + conditions known on it"""
    __slots__ = ("a", "c")

    def __init__(self, a=frozenset(), c=frozenset()):
        self.a, self.c = a, c

    def add(self, k):
        return S(self.a | {k}, self.c) if k not in self.a else self


def join(ps):
    out = {}
    for p in ps:
        q = out.get(p.a)
        out[p.a] = S(p.a, p.c if q is None else (p.c & q.c))
    r = list(out.values())
    if len(r) > MAXP:
        a = frozenset.intersection(*[x.a for x in r])
        c = frozenset.intersection(*[x.c for x in r])
        r = [S(a, c)]
    return r


class Definit:
    def __init__(self, P, f, tracked, summaries, report=None):
        self.P, self.f, self.tr, self.sm = P, f, tracked, summaries
        self.report = report or (lambda *a: None)
        self.brk, self.cnt, self.ret, self.thr = [], [], [], []
        self.lam = 0

    # keys
    def key(self, e):
        e = strip(e)
        if e is None:
            return None
        if e["k"] == "Ref" and e.get("dk") in ("var", "parm", "local"):
            return ("d", e["d"])
        if e["k"] == "Mem" and e.get("b") and strip(e["b"])["k"] == "This":
            return ("m", e["n"])
        if e["k"] == "Un" and e["op"] == "*":
            return self.key(e["e"])
        if e["k"] == "Sub":
            return self.key(e["b"])
        if e["k"] == "Mem" and not e.get("ar", False):
            return None
        return None

    def assign(self, e, ps):
        k = self.key(e)
        nm = self.name(e)
        out = []
        for p in ps:
            c = p.c
            if nm:
                c = frozenset(x for x in c if nm not in x[2])
            out.append(S(p.a | {k} if k in self.tr else p.a, c))
        return join(out)

    def const(self, nm, e, ps):
        v = fold(e) if e is not None else None
        if v is None or nm is None:
            return ps
        return [S(p.a, p.c | {("=" + nm, v, frozenset([nm]), False)}) for p in ps]

    def name(self, e):
        e = strip(e)
        while e is not None and e["k"] in ("Sub", "Un", "Mem") and not e["k"] == "Mem":
            e = strip(e.get("b") or e.get("e"))
        if e is None:
            return None
        return e.get("n")

    # expressions: returns paths
    def ex(self, e, ps, rv=False):
        """evaluate e (rv: its value is read)"""
        if e is None or not ps:
            return ps
        k = e["k"]
        if k in ("ICast", "Cast"):
            return self.ex(e["e"], ps, rv or e.get("ck") == "LValueToRValue")
        if k in ("Ref", "Mem"):
            if k == "Mem" and e.get("b"):
                b = strip(e["b"])
                if b["k"] != "This":
                    ps = self.ex(e["b"], ps, rv and b["k"] in ("Ref",) and e.get("ar", False))
                    return ps
            kk = self.key(e)
            if rv and kk in self.tr:
                for p in ps:
                    if kk not in p.a:
                        self.report(self.f, e, kk)
                        ps = [x.add(kk) for x in ps]
                        break
            return ps
        if k == "Bin":
            op = e["op"]
            if op == "=":
                ps = self.ex(e["b"], ps, True)
                if self.key(e["a"]) not in self.tr or strip(e["a"])["k"] == "Sub":
                    ps = self.ex(e["a"], ps)
                ps = self.assign(e["a"], ps)
                return self.const(strip(e["a"]).get("n"), e["b"], ps) if strip(e["a"])["k"] == "Ref" else ps
            if op in ("&&", "||"):
                t, f = self.cond(e, ps)
                return join(t + f)
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                ps = self.ex(e["b"], ps, True)
                ps = self.ex(e["a"], ps, True)
                return self.assign(e["a"], ps)
            ps = self.ex(e["a"], ps, True)
            return self.ex(e["b"], ps, True)
        if k == "Un":
            if "++" in e["op"] or "--" in e["op"]:
                ps = self.ex(e["e"], ps, True)
                return self.assign(e["e"], ps)
            if e["op"] == "&":
                i = strip(e["e"])
                if self.key(i) in self.tr and i["k"] in ("Ref", "Mem"):
                    return ps
                return self.ex(e["e"], ps)
            return self.ex(e["e"], ps, e["op"] != "&")
        if k == "Cond":
            t, f = self.cond(e["c"], ps)
            return join(self.ex(e["a"], t, rv) + self.ex(e["b"], f, rv))
        if k == "Sub":
            ps = self.ex(e["i"], ps, True)
            return self.ex(e["b"], ps, rv)
        if k == "Lambda":
            return self.lambda_(e, ps)
        if k in ("Call", "Ctor"):
            return self.call(e, ps)
        if k == "Throw":
            self.ex(e.get("e"), ps)
            self.thr += ps
            return []
        if k == "New":
            ps = self.ex(e.get("n"), ps, True)
            return self.ex(e.get("init"), ps)
        for c in e.values():
            if isinstance(c, dict) and "k" in c:
                ps = self.ex(c, ps, rv)
            elif isinstance(c, list):
                for x in c:
                    if isinstance(x, dict) and "k" in x:
                        ps = self.ex(x, ps, True)
        return ps

    def lambda_(self, e, ps):
        """variables a lambda assigns through its captures count as assigned once it exists"""
        ks = set()
        for x in walk(e.get("body")):
            if x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                ks.add(self.key(x["a"]))
        ks &= set(self.tr)
        return [S(p.a | ks, p.c) for p in ps] if ks else ps

    def call(self, e, ps):
        if e.get("o"):
            ps = self.ex(e["o"], ps, e.get("ar", False))
        args = e.get("a") or []
        pts = e.get("pt") or []
        outs = []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            ref = isinstance(pt, str) and (pt.rstrip().endswith("&") or pt.rstrip().endswith("*")) and not pt.strip().startswith("const ")
            i2 = strip(a)
            byaddr = i2["k"] == "Un" and i2["op"] == "&"
            tgt = i2["e"] if byaddr else i2
            if (ref or byaddr) and self.key(tgt) in self.tr and strip(tgt)["k"] in ("Ref", "Mem") and (byaddr or pt.rstrip().endswith("&")):
                outs.append((i, tgt))
            else:
                rv = not (isinstance(pt, str) and pt.rstrip().endswith("&"))
                cref = isinstance(pt, str) and pt.rstrip().endswith("&") and pt.strip().startswith("const ")
                ps = self.ex(a, ps, rv or cref)
        q = e.get("q")
        if q in NORET:
            self.thr += ps
            return []
        ts = self.P.targets(e)
        if ts and len(ts) == 1 and self.P.funcs[ts[0]].get("body") and only_throws(self.P.funcs[ts[0]], self.P):
            self.thr += ps
            return []
        gs = [summary(self.P, t, self.sm) for t in ts]
        for i, tgt in outs:
            kk = self.key(tgt)
            if gs:
                if all(i in g["out"] for g in gs):
                    ps = self.assign(tgt, ps)
                elif any(i in g["reads"] for g in gs):
                    ps = self.ex(tgt, ps, True)
                else:
                    # may be assigned
                    pass
            else:
                ps = self.assign(tgt, ps)
        if gs and e.get("o") and strip(e["o"])["k"] == "This":
            fs = frozenset.intersection(*[g["fields"] for g in gs])
            for kk in fs & self.tr:
                ps = [p.add(kk) for p in ps]
        # a called member function may change members: drop conditions over members
        if ts:
            ps = [S(p.a, frozenset(c for c in p.c if not c[3])) for p in ps]
        return ps

    # conditions
    def cond(self, e, ps):
        i = strip(e)
        v = fold(i)
        if v is not None:
            return (ps, []) if v else ([], ps)
        if i["k"] == "Bin" and i["op"] == "&&":
            t, f = self.cond(i["a"], ps)
            t2, f2 = self.cond(i["b"], t)
            return t2, join(f + f2)
        if i["k"] == "Bin" and i["op"] == "||":
            t, f = self.cond(i["a"], ps)
            t2, f2 = self.cond(i["b"], f)
            return join(t + t2), f2
        if i["k"] == "Un" and i["op"] == "!":
            t, f = self.cond(i["e"], ps)
            return f, t
        if i["k"] == "Bin" and i["op"] == "=":
            ps = self.ex(e, ps, True)
            return ps, ps
        ps = self.ex(e, ps, True)
        txt = show(i)
        names = frozenset(n.get("n") for n in walk(i) if n["k"] in ("Ref", "Mem", "Call"))
        mem = any(n["k"] in ("Mem", "Call") for n in walk(i))
        neg = False
        if i["k"] == "Bin" and i["op"] in ("!=",):
            txt, neg = show(dict(i, op="==")), True
        if i["k"] == "Bin" and i["op"] in (">=",):
            txt, neg = show(dict(i, op="<")), True
        if i["k"] == "Bin" and i["op"] in ("<=",):
            txt, neg = show(dict(i, op=">")), True
        t, f = [], []
        for p in ps:
            known = None
            for c in p.c:
                if c[0] == txt:
                    known = c[1]
            cv = self.const_cmp(i, p)
            if cv is not None:
                known = cv != neg
            if known is None or known != neg:
                t.append(S(p.a, p.c | {(txt, not neg, names, mem)}) if known is None else p)
            if known is None or known == neg:
                f.append(S(p.a, p.c | {(txt, neg, names, mem)}) if known is None else p)
        return t, f

    def const_cmp(self, i, p):
        """truth of a comparison of a variable whose constant value is known on this path"""
        if i["k"] != "Bin" or i["op"] not in ("==", "!=", "<", ">", "<=", ">="):
            return None
        a, b = strip(i["a"]), strip(i["b"])
        if a["k"] != "Ref" or fold(b) is None:
            return None
        for c in p.c:
            if c[0] == "=" + str(a.get("n")):
                x, y = c[1], fold(b)
                return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[i["op"]]
        return None

    # statements
    def st(self, n, ps):
        if n is None or not ps:
            return ps
        k = n["k"]
        if k == "Block":
            for s in n["s"]:
                ps = self.st(s, ps)
            return join(ps) if ps else ps
        if k == "Expr":
            return self.ex(n["e"], ps)
        if k == "Decl":
            for v in n["v"]:
                kk = ("d", v.get("d"))
                if v.get("init") is not None:
                    ps = self.ex(v["init"], ps, not (v.get("t", "").rstrip().endswith("&")))
                    if kk in self.tr:
                        ps = [p.add(kk) for p in ps]
                elif kk in self.tr:
                    ps = [S(p.a - {kk}, p.c) for p in ps]
                nm = v.get("n")
                ps = [S(p.a, frozenset(c for c in p.c if nm not in c[2])) for p in ps]
                ps = self.const(nm, v.get("init"), ps)
            return ps
        if k == "Return":
            ps = self.ex(n.get("e"), ps, True)
            self.ret += ps
            return []
        if k == "Break":
            self.brk += ps
            return []
        if k == "Continue":
            self.cnt += ps
            return []
        if k == "If":
            ps = self.st(n.get("init"), ps) if n.get("init") else ps
            ps = self.st(n["cv"], ps) if n.get("cv") else ps
            if "cxv" in n:
                t, f = (ps, []) if n["cxv"] else ([], ps)
            else:
                t, f = self.cond(n["c"], ps)
            return join(self.st(n["a"], t) + (self.st(n["b"], f) if n.get("b") else f))
        if k in ("Case", "Default", "Label"):
            return self.st(n.get("s"), ps)
        if k == "Switch":
            ps = self.ex(n["c"], ps, True)
            sb, self.brk = self.brk, []
            body = n["b"]["s"] if n["b"]["k"] == "Block" else [n["b"]]
            cur = []
            for s in body:
                if s["k"] in ("Case", "Default"):
                    cur = join(cur + ps)
                cur = self.st(s, cur)
            d = any(c["k"] == "Default" for c in walk(n["b"]))
            out = cur + self.brk
            if not d:
                vs = enum_vals(self.P, n.get("ct"))
                cs = {c.get("v") for c in walk(n["b"]) if c["k"] == "Case"}
                if not vs or vs - cs:
                    out = out + ps
            self.brk = sb
            return join(out)
        if k in ("While", "For", "DoWhile", "RangeFor"):
            sb, sc, self.brk, self.cnt = self.brk, self.cnt, [], []
            if k == "For":
                ps = self.st(n.get("i"), ps) if n.get("i") and n["i"]["k"] in ("Decl", "Expr", "Block") else self.ex(n.get("i"), ps)
            if k == "RangeFor":
                ps = self.ex(n.get("r"), ps)
            # conditions that the loop may invalidate
            w = set()
            mem = False
            for x in walk(n):
                if x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    w.add(self.name(x["a"]))
                if x["k"] == "Un" and ("++" in x["op"] or "--" in x["op"]):
                    w.add(self.name(x["e"]))
                if x["k"] == "Decl":
                    for v in x["v"]:
                        w.add(v.get("n"))
                if x["k"] == "Call":
                    mem = True
            ps0 = ps
            ps = [S(p.a, frozenset(c for c in p.c if not (c[2] & w) and not (mem and c[3]))) for p in ps]
            if k == "DoWhile":
                b = self.st(n["b"], ps)
                t, f = self.cond(n["c"], join(b + self.cnt))
                out = f + self.brk
            else:
                c = n.get("c") if k != "RangeFor" else None
                # first pass (start values of counters known), then any later pass
                if c is not None:
                    t, f = self.cond(c, ps0)
                else:
                    t, f = ps0, (ps0 if k == "RangeFor" else [])
                b = join(self.st(n["b"], t) + self.cnt)
                self.cnt = []
                if k == "For" and n.get("n"):
                    b = self.ex(n["n"], b)
                b = [S(p.a, frozenset(x for x in p.c if not (x[2] & w) and not (mem and x[3]))) for p in b]
                if b:
                    t, f2 = self.cond(c, join(b)) if c is not None else (b, b if k == "RangeFor" else [])
                    f = f + f2
                    b = self.st(n["b"], t)
                    b = join(b + self.cnt)
                if k == "For" and n.get("n"):
                    b = self.ex(n["n"], b)
                # exit after at least one iteration: assigned sets only grow, so f (zero iterations) covers it
                out = f + self.brk
                if c is not None and fold(c):
                    out = list(self.brk)
            self.brk, self.cnt = sb, sc
            return join([S(p.a, frozenset(c for c in p.c if not (c[2] & w))) for p in out]) if out else []
        if k == "Try":
            entry = ps
            st, self.thr = self.thr, []
            out = self.st(n["b"], ps)
            thr, self.thr = self.thr, st
            hs = n["h"]
            a = frozenset.intersection(*[p.a for p in entry]) if entry else frozenset()
            for h in hs:
                out = out + self.st(h["b"], [S(a)])
            return join(out) if out else []
        if k == "OMP":
            return self.st(n.get("b"), ps)
        if k == "Goto":
            return []
        if k == "Null":
            return ps
        return self.ex(n, ps)

    def run(self, start=frozenset()):
        ps = [S(start)]
        for i in self.f.get("inits") or []:
            if i.get("e"):
                ps = self.ex(i["e"], ps, True)
            if i.get("m"):
                kk = ("m", i["m"])
                if kk in self.tr:
                    ps = [p.add(kk) for p in ps]
            elif i.get("del") or i.get("deleg"):
                ps = [S(p.a | {k for k in self.tr if k[0] == "m"}, p.c) for p in ps]
        ps = self.st(self.f.get("body"), ps)
        out = ps + self.ret
        return out


def summary(P, fk, sm):
    """indices of reference/pointer parameters surely assigned on return / surely read first,
    and members of *this surely assigned"""
    if fk in sm:
        return sm[fk]
    sm[fk] = dict(out=frozenset(), reads=frozenset(), fields=frozenset())
    f = P.funcs[fk]
    if not f.get("body"):
        return sm[fk]
    tr = {}
    for i, p in enumerate(f["p"]):
        t = p["t"].rstrip()
        if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
            tr[("d", p["d"])] = i
    reads = set()
    fields = {("m", n) for c, fd in (P.all_fields(f["c"]) if f.get("c") in P.records else []) for n in [fd["n"]]}
    reftr = {k for k in tr if f["p"][tr[k]]["t"].rstrip().endswith("&")}
    d = Definit(P, f, set(tr) | fields, sm, lambda g, e, k: reads.add(k))
    out = d.run(frozenset())
    a = frozenset.intersection(*[p.a for p in out]) if out else frozenset(set(tr) | fields)
    sm[fk] = dict(out=frozenset(tr[k] for k in tr if k in a), reads=frozenset(tr[k] for k in reftr if k in reads),
                  fields=frozenset(k for k in fields if k in a))
    return sm[fk]
