"""Path-set interpreter: follows every path of a function with a small state
(tags chosen by the client, known values of local flags); calls that matter
are followed, exceptions included."""
from .program import kids, strip, walk, AnalysisError
from .rules.r01 import own, node_throws

MAXSTATES = 4000


class Out:
    __slots__ = ("fall", "brk", "cont", "ret", "thr")

    def __init__(self, fall=()):
        self.fall, self.brk, self.cont, self.ret, self.thr = set(fall), set(), set(), set(), set()

    def take(self, o, fall=False):
        self.brk |= o.brk
        self.cont |= o.cont
        self.ret |= o.ret
        self.thr |= o.thr
        if fall:
            self.fall |= o.fall


class Paths:
    """states are (tags: frozenset, env: frozenset of (frame, decl, value))"""

    def __init__(self, P):
        self.P = P
        self.stack = []
        self.throws = set()     # collected while an expression is evaluated
        self.lam = {}

    # ---- client hooks
    def atom(self, n, st):
        """None, or list of (state, value) for an expression the client knows"""
        return None

    def prim(self, n, st):
        """None, or (list of (state, value), set of throw states) for a call the client knows"""
        return None

    def enter_loop(self, n, st):
        return st

    def follow(self, f):
        """is this callee interpreted?"""
        return False

    def quiet_call(self, n):
        return not node_throws(self.P, n)

    def decl(self, v, pairs):
        return pairs

    # ---- env
    def get(self, st, d):
        fr = self.stack[-1]
        for a, b, v in st[1]:
            if a == fr and b == d:
                return v
        for a, b, v in st[1]:           # captured by a lambda
            if b == d and a in self.stack:
                return v
        return None

    def put(self, st, d, v):
        fr = self.stack[-1]
        for a, b, _ in st[1]:
            if b == d and a in self.stack:
                fr = a
        e = frozenset(x for x in st[1] if not (x[0] == fr and x[1] == d))
        if v is not None and d not in self.counting(fr):
            e |= {(fr, d, v)}
        return (st[0], e)

    def counting(self, fr):
        """variables that are counted up or down: their values are not followed"""
        c = self.P.__dict__.setdefault("_counting", {})
        if fr not in c:
            out = set()
            f = self.P.funcs.get(fr) if isinstance(fr, str) else None
            if f:
                for n in self.P.all_nodes(f):
                    e = None
                    if n["k"] == "Un" and n["op"].rstrip("p") in ("++", "--"):
                        e = strip(n["e"])
                    elif n["k"] == "Bin" and n["op"] in ("+=", "-=", "*="):
                        e = strip(n["a"])
                    if e is not None and e["k"] == "Ref" and "d" in e:
                        out.add(e["d"])
            c[fr] = out
        return c[fr]

    # ---- strings are known to be empty ("") or not ("MSG")
    def strings(self, n, st):
        k = n["k"]
        if k == "Str":
            return [(st, "" if n["v"] == "" else "MSG")]
        if k == "Ctor" and n.get("c", "").startswith("std::basic_string"):
            if not n["a"]:
                return [(st, "")]
            r = self.ev(n["a"][0], st)
            for a in n["a"][1:]:
                r = [(s2, v) for s, v in r for s2, _ in self.ev(a, s)]
            return [(s, v if isinstance(v, str) else None) for s, v in r]
        if k == "Call" and n.get("q") == "std::move" and len(n["a"]) == 1:
            return self.ev(n["a"][0], st)
        if k == "Call" and (n.get("oc") or "").startswith("std::basic_string") and n.get("o") is not None:
            if n.get("op") in ("=", "+="):
                o = strip(n["o"])
                if o["k"] == "Ref" and o.get("dk") in ("var", "parm"):
                    out = []
                    for s, v in self.ev(n["a"][0], st):
                        if n["op"] == "+=":
                            c = self.get(s, o["d"])
                            v = "MSG" if "MSG" in (c, v) else None if None in (c, v) else ""
                        out.append((self.put(s, o["d"], v), v))
                    return out
            if n["n"] in ("empty", "length", "size") and not n["a"]:
                return [(s, None if not isinstance(v, str) else (v == "") if n["n"] == "empty" else (1 if v else 0)) for s, v in self.ev(n["o"], st)]
        if k == "Call" and n.get("op") == "+" and len(n["a"]) == 2 and n.get("q") == "std::operator+":
            return [(s2, "MSG" if "MSG" in (v, w) else "" if v == w == "" else None) for s, v in self.ev(n["a"][0], st) for s2, w in self.ev(n["a"][1], s)]
        if k == "Call" and n.get("op") in ("==", "!=") and (n.get("q") or "").startswith("std::operator") and len(n["a"]) == 2:
            out = []
            for s, v in self.ev(n["a"][0], st):
                for s2, w in self.ev(n["a"][1], s):
                    r = None
                    if "" in (v, w) and isinstance(v, str) and isinstance(w, str):
                        r = (v == w) == (n["op"] == "==")
                    out.append((s2, r))
            return out
        return None

    # ---- expressions: list of (state, value)
    def ev(self, n, st):
        if n is None:
            return [(st, None)]
        r = self.atom(n, st)
        if r is None:
            r = self.strings(n, st)
        if r is not None:
            return self.uniq(r)
        k = n["k"]
        if k in ("ICast", "Cast"):
            return self.ev(n["e"], st)
        if k == "Bool":
            return [(st, bool(n["v"]))]
        if k == "Int":
            return [(st, int(n["v"]))]
        if k == "Ref":
            return [(st, self.get(st, n["d"]) if n.get("dk") in ("var", "parm") else None)]
        if k == "Un" and n["op"] == "!":
            return [(s, None if v is None else not v) for s, v in self.ev(n["e"], st)]
        if k == "Un" and n["op"].rstrip("p") in ("++", "--"):
            out = []
            for s, v in self.ev(n["e"], st):
                e = strip(n["e"])
                if e["k"] == "Ref" and e.get("dk") in ("var", "parm"):
                    s = self.put(s, e["d"], None)
                out.append((s, None))
            return out
        if k == "Bin" and n["op"] in ("&&", "||"):
            stop = n["op"] == "||"
            out = []
            for s, v in self.ev(n["a"], st):
                for s1, t in self.split(n["a"], s, v):
                    if t == stop:
                        out.append((s1, stop))
                    else:
                        for s2, w in self.ev(n["b"], s1):
                            out.append((s2, None if w is None else bool(w)))
            return self.uniq(out)
        if k == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for s, a in self.ev(n["a"], st):
                for s2, b in self.ev(n["b"], s):
                    out.append((s2, None if a is None or b is None else cmp(n["op"], a, b)))
            return self.uniq(out)
        if k == "Bin" and n["op"] in ("=", "|=", "&="):
            out = []
            e = strip(n["a"])
            for s, v in self.ev(n["b"], st):
                if e["k"] == "Ref" and e.get("dk") in ("var", "parm"):
                    if n["op"] != "=":
                        c = self.get(s, e["d"])
                        if n["op"] == "|=":
                            v = True if True in (c, v) else None if None in (c, v) else bool(c or v)
                        else:
                            v = False if False in (c, v) else None if None in (c, v) else bool(c and v)
                    s = self.put(s, e["d"], v)
                    out.append((s, v))
                else:
                    for s2, _ in self.ev(n["a"], s):
                        out.append((s2, v))
            return self.uniq(out)
        if k == "Bin" and n["op"] == ",":
            return self.uniq([x for s, _ in self.ev(n["a"], st) for x in self.ev(n["b"], s)])
        if k == "Cond":
            out = []
            for s, v in self.ev(n["c"], st):
                for s1, t in self.split(n["c"], s, v):
                    out += self.ev(n["a"] if t else n["b"], s1)
            return self.uniq(out)
        if k == "Lambda":
            return [(st, None)]
        if k == "Throw":
            for s, _ in self.ev(n.get("e"), st):
                self.throws.add(s)
            return []
        if k in ("Call", "Ctor"):
            return self.call(n, st)
        return self.seq([c for c in kids(n)], st)

    def uniq(self, ps):
        return list(dict.fromkeys(ps))

    def seq(self, es, st):
        cur = [(st, None)]
        for e in es:
            cur = self.uniq([(s2, None) for s, _ in cur for s2, _ in self.ev(e, s)])
        return cur

    def split(self, n, st, v):
        """truth values of a condition"""
        if v is None:
            return [(st, True), (st, False)]
        return [(st, bool(v))]

    def call(self, n, st):
        args = list(n.get("a") or [])
        cur = [(st, ())]
        o = n.get("o") if n["k"] == "Call" else None
        lam = None
        if n["k"] == "Call":
            c = strip(o) if o is not None else strip(n.get("callee")) if n.get("callee") else None
            if c is not None and c["k"] == "Lambda":
                lam = c
            elif c is not None and c["k"] == "Ref" and (c.get("d") in self.lam) and (n.get("op") == "()" or n.get("n") in (None, "operator()")):
                lam = self.lam[c["d"]]
        if o is not None and lam is None:
            cur = [(s, ()) for s, _ in self.ev(o, st)]
        for a in args:
            cur = self.uniq([(s2, vs + (v,)) for s, vs in cur for s2, v in self.ev(a, s)])
        out = []
        for s, vs in cur:
            r = self.prim(n, s)
            if r is not None:
                vals, thr = r
                self.throws |= set(thr)
                out += vals
                continue
            if lam is not None:
                out += self.enter(("lam", lam.get("l"), id(lam)), lam.get("b") or lam.get("body"), lam.get("p") or [], vs, s)
                continue
            tg = self.P.targets(n)
            if len(tg) == 1 and tg[0] not in self.stack and self.P.funcs[tg[0]].get("body") and self.follow(self.P.funcs[tg[0]]):
                f = self.P.funcs[tg[0]]
                out += self.enter(tg[0], f["body"], f["p"], vs, s)
                continue
            # a callee may change flags handed by reference
            s2 = s
            for a in args:
                e = strip(a)
                if e["k"] == "Ref" and e.get("dk") in ("var", "parm") and self.get(s2, e["d"]) is not None and self.by_ref(n, args.index(a)):
                    s2 = self.put(s2, e["d"], None)
            if not self.quiet_call(n):
                self.throws.add(s2)
            out.append((s2, None))
        return self.uniq(out)

    def by_ref(self, n, i):
        pt = n.get("pt") or []
        return i < len(pt) and pt[i] and ("&" in pt[i] and "const" not in pt[i])

    def enter(self, key, body, params, vs, s):
        self.stack.append(key)
        try:
            for p, v in zip(params, vs):
                if p.get("d") is not None:
                    s = self.put0(s, key, p["d"], v)
            saved = self.throws
            self.throws = set()
            o = self.run_block(body, {s})
            thr = o.thr | self.throws
            self.throws = saved
        finally:
            self.stack.pop()
        drop = lambda x: (x[0], frozenset(e for e in x[1] if e[0] != key))
        self.throws |= {drop(x) for x in thr}
        return self.uniq([(drop(x), None) for x in o.fall] + [(drop(x), v) for x, v in o.ret])

    def put0(self, st, fr, d, v):
        e = frozenset(x for x in st[1] if not (x[0] == fr and x[1] == d))
        if v is not None and d not in self.counting(fr):
            e |= {(fr, d, v)}
        return (st[0], e)

    # ---- statements
    def run_block(self, n, states):
        o = Out()
        if n is None:
            o.fall = set(states)
            return o
        if len(states) > MAXSTATES:
            raise AnalysisError("too many path states in %s line %s" % (self.stack, n.get("l")))
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, states)
        # an expression used as a statement
        for s in states:
            self.x(n, s, o, lambda o, s2, v: o.fall.add(s2))
        return o

    def x(self, e, st, o, done):
        saved = self.throws
        self.throws = set()
        for s2, v in self.ev(e, st):
            done(o, s2, v)
        o.thr |= self.throws
        self.throws = saved

    def s_Block(self, n, states):
        o = Out()
        cur = set(states)
        for c in n.get("s") or []:
            if not cur:
                break
            r = self.run_block(c, cur)
            o.take(r)
            cur = r.fall
        o.fall = cur
        ds = {v["d"] for c in n.get("s") or [] if c["k"] == "Decl" for v in c["v"]}
        if ds:
            fr = self.stack[-1]
            drop = lambda x: (x[0], frozenset(e for e in x[1] if not (e[0] == fr and e[1] in ds)))
            o.fall = {drop(x) for x in o.fall}
            o.brk = {drop(x) for x in o.brk}
            o.cont = {drop(x) for x in o.cont}
            o.ret = {(drop(x), v) for x, v in o.ret}
            o.thr = {drop(x) for x in o.thr}
        return o

    def s_Expr(self, n, states):
        o = Out()
        for s in states:
            self.x(n["e"], s, o, lambda o, s2, v: o.fall.add(s2))
        return o

    def s_Decl(self, n, states):
        o = Out()
        cur = set(states)
        for v in n["v"]:
            init = v.get("init") if v.get("init") is not None else v.get("e") if v.get("e") is not None else v.get("i")
            if init is not None and strip(init)["k"] == "Lambda":
                self.lam[v["d"]] = strip(init)
                continue
            nxt = Out()
            for s in cur:
                if init is None:
                    nxt.fall.add(self.put0(s, self.stack[-1], v["d"], None))
                else:
                    self.x(init, s, nxt, lambda o, s2, val: o.fall.add(self.declared(v, s2, val)))
            o.thr |= nxt.thr
            cur = nxt.fall
        o.fall = cur
        return o

    def declared(self, v, s, val):
        return self.put0(s, self.stack[-1], v["d"], val)

    def s_If(self, n, states):
        o = Out()
        cur = set(states)
        if n.get("init"):
            r = self.run_block(n["init"], cur)
            o.take(r)
            cur = r.fall
        if n.get("cx") is not None and n.get("c") is None:
            return self.const_if(n, cur, o)
        if n.get("cv"):
            r = self.run_block(n["cv"], cur)
            o.take(r)
            cur = r.fall
        T, F = set(), set()

        def done(o, s2, v):
            for s3, t in self.split(n["c"], s2, v):
                (T if t else F).add(s3)
        for s in cur:
            self.x(n["c"], s, o, done)
        if T:
            r = self.run_block(n["a"], T)
            o.take(r, True)
        if F:
            if n.get("b"):
                r = self.run_block(n["b"], F)
                o.take(r, True)
            else:
                o.fall |= F
        return o

    def const_if(self, n, cur, o):
        b = n["a"] if n.get("cxv", n.get("cx")) else n.get("b")
        r = self.run_block(b, cur)
        r.take(o)
        return r

    def loop(self, n, states, cond, body, step, first_body=False):
        o = Out()
        seen = set()
        work = set(states)
        body_first = first_body
        seen_body = set()
        while True:
            enter = set()
            if body_first:
                enter = work
                body_first = False
            else:
                work = work - seen
                seen |= work
                if cond is None:
                    enter = work
                else:
                    def done(o, s2, v):
                        for s3, t in self.split(cond, s2, v):
                            (enter if t else o.fall).add(s3)
                    for s in work:
                        self.x(cond, s, o, done)
            enter = {self.enter_loop(n, s) for s in enter} - seen_body
            seen_body |= enter
            if len(seen_body) > MAXSTATES:
                raise AnalysisError("too many path states in %s line %s" % (self.stack, n.get("l")))
            if not enter:
                return o
            r = self.run_block(body, enter)
            o.fall |= r.brk
            o.ret |= r.ret
            o.thr |= r.thr
            work = r.fall | r.cont
            if step is not None:
                so = Out()
                for s in work:
                    self.x(step, s, so, lambda o, s2, v: o.fall.add(s2))
                o.thr |= so.thr
                work = so.fall

    def s_For(self, n, states):
        o = Out()
        cur = set(states)
        if n.get("i"):
            r = self.run_block(n["i"], cur)
            o.take(r)
            cur = r.fall
        r = self.loop(n, cur, n.get("c"), n["b"], n.get("n"))
        r.take(o)
        return r

    def s_While(self, n, states):
        return self.loop(n, states, n["c"], n["b"], None)

    def s_DoWhile(self, n, states):
        return self.loop(n, states, n["c"], n["b"], None, first_body=True)

    def s_RangeFor(self, n, states):
        o = Out()
        cur = set()
        for s in states:
            self.x(n["r"], s, o, lambda o, s2, v: cur.add(s2))
        r = self.loop(n, cur, {"k": "Unknown"}, n["b"], None)
        r.take(o)
        return r

    def ev_unknown(self, st):
        return [(st, None)]

    def s_Return(self, n, states):
        o = Out()
        for s in states:
            if n.get("e") is None:
                o.ret.add((s, None))
            else:
                self.x(n["e"], s, o, lambda o, s2, v: o.ret.add((s2, v)))
        return o

    def s_Break(self, n, states):
        o = Out()
        o.brk = set(states)
        return o

    def s_Continue(self, n, states):
        o = Out()
        o.cont = set(states)
        return o

    def s_Try(self, n, states):
        r = self.run_block(n["b"], states)
        thr = r.thr
        r.thr = set()
        rest = set(thr)
        for h in n["h"]:
            if not thr:
                break
            # any handler may be the one that fits; only catch (...) fits all
            every = h.get("t") in (None, "...")
            hs = {self.caught(h, s) for s in (rest if every else thr)}
            ho = self.run_block(h["b"], hs)
            r.take(ho, True)
            if every:
                rest = set()
        r.thr |= rest
        return r

    def caught(self, h, s):
        return s

    def s_OMP(self, n, states):
        return self.run_block(n["b"], states)

    def s_Switch(self, n, states):
        o = Out()
        cur = set()
        for s in states:
            self.x(n["c"], s, o, lambda o, s2, v: cur.add(s2))
        body = n["b"]
        ss = body.get("s") if body["k"] == "Block" else [body]
        live = set()
        default = False
        for c in ss:
            x = c
            while x is not None and x["k"] in ("Case", "Default", "Label"):
                if x["k"] == "Default":
                    default = True
                live |= cur
                x = x.get("s")
            if x is None or not live:
                continue
            r = self.run_block(x, live)
            o.fall |= r.brk
            o.cont |= r.cont
            o.ret |= r.ret
            o.thr |= r.thr
            live = r.fall
        o.fall |= live
        if not default:
            o.fall |= cur
        return o

    def s_Null(self, n, states):
        return Out(states)

    # ---- whole function
    def run(self, f, tags=()):
        self.stack = [f["f"]]
        for g in self.P.all_nodes(f):
            if g["k"] == "Decl":
                for v in g["v"]:
                    init = v.get("init") if v.get("init") is not None else v.get("e") if v.get("e") is not None else v.get("i")
                    if init is not None and strip(init)["k"] == "Lambda":
                        self.lam[v["d"]] = strip(init)
        o = self.run_block(f["body"], {(frozenset(tags), frozenset())})
        return o


def cmp(op, a, b):
    return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
