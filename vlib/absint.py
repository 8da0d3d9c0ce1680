"""Abstract evaluator over the resolved AST.

One abstract state per program point (branches are merged, loops are
summarised, nothing is enumerated path by path and no solver is involved):
  * scalars are terms in a polynomial normal form over symbols (parameters,
    initial field values, results of uninterpreted calls) with conditional
    ('ite') terms where branches with different values merge;
  * facts are conditions known to hold at a point (from dominating branches,
    early exits and validated loops);
  * calls to repository functions are expanded in place when the client's
    policy asks for it, so that extracting a helper, reordering statements or
    rewriting a loop does not change what is seen.
Clients subclass Eval and override the on_* hooks.
"""
from .program import strip, walk, kids, AnalysisError

_ids = {}


_terms = []


def tid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_ids)
        _ids[t] = i
        _terms.append(t)
    return i


def joined(t):
    """the values that were joined in t"""
    if t[0] != "j":
        return [t]
    return [x for i in t[1:] for x in joined(_terms[i])]


def K(v):
    return ("k", v)


TRUE, FALSE = K(True), K(False)
ZERO, ONE = K(0), K(1)


def is_k(t):
    return t[0] == "k"


# ------------------------------------------------------------------ polys
def to_poly(t):
    """term -> dict mono->coef"""
    if t[0] == "k":
        v = t[1]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            return {(): v} if v else {}
        return {(t,): 1}
    if t[0] == "P":
        return dict(t[1])
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ("P", frozenset(d.items()))


def add(a, b, s=1):
    if a[0] == "ptr" and b[0] != "ptr":
        return ("ptr", a[1], add(a[2], b, s))
    if b[0] == "ptr" and a[0] != "ptr" and s == 1:
        return ("ptr", b[1], add(b[2], a))
    if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and s == -1:
        return add(a[2], b[2], -1)
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return from_poly(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


MAXTERMS = 400


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        return ("ap", "*", a, b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=tid))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def div(a, b):
    if is_k(a) and is_k(b) and isinstance(a[1], int) and isinstance(b[1], int) and b[1]:
        q = abs(a[1]) // abs(b[1])
        return K(q if (a[1] < 0) == (b[1] < 0) else -q)
    if b == ONE:
        return a
    return ("ap", "/", a, b)


def tmax(a, b):
    s = set()
    for x in (a, b):
        if x[0] == "max":
            s |= x[1]
        else:
            s.add(x)
    ks = [x for x in s if is_k(x) and isinstance(x[1], (int, float))]
    if len(ks) > 1:
        m = max(ks, key=lambda x: x[1])
        s -= set(ks)
        s.add(m)
    if len(s) == 1:
        return next(iter(s))
    return ("max", frozenset(s))


def ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "not":
        return ite(c[1], b, a)
    # ptr with the same base: keep the base visible
    if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
        return ("ptr", a[1], ite(c, a[2], b[2]))
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return tnot(c)
    # factor out the common polynomial part:  b + ite(c, a-b, 0)
    if a[0] in ("P", "ite", "f", "k", "p", "max") and b[0] in ("P", "ite", "f", "k", "p", "max"):
        pa, pb = to_poly(a), to_poly(b)
        common = {m: v for m, v in pa.items() if pb.get(m) == v}
        if common:
            ra = from_poly({m: v for m, v in pa.items() if m not in common})
            rb = from_poly({m: v for m, v in pb.items() if m not in common})
            return add(from_poly(common), ("ite", c, ra, rb))
    return ("ite", c, a, b)


# ------------------------------------------------------------- conditions
def tnot(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == "not":
        return c[1]
    if c[0] == "ge0":
        return ge0(sub(neg(c[1]), ONE))
    if c[0] == "and":
        return tor(*[tnot(x) for x in c[1]])
    if c[0] == "or":
        return tand(*[tnot(x) for x in c[1]])
    return ("not", c)


def tand(*cs):
    s = set()
    for c in cs:
        if c == TRUE:
            continue
        if c == FALSE:
            return FALSE
        if c[0] == "and":
            s |= c[1]
        else:
            s.add(c)
    for c in s:
        if tnot(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def tor(*cs):
    s = set()
    for c in cs:
        if c == FALSE:
            continue
        if c == TRUE:
            return TRUE
        if c[0] == "or":
            s |= c[1]
        else:
            s.add(c)
    for c in s:
        if tnot(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return ("or", frozenset(s))


def ge0(p):
    if is_k(p) and isinstance(p[1], (int, float)):
        return TRUE if p[1] >= 0 else FALSE
    return ("ge0", p)


def gt0(p):
    if is_k(p) and isinstance(p[1], (int, float)):
        return TRUE if p[1] > 0 else FALSE
    return ("gt0", p)


def eq0(p):
    if is_k(p):
        v = p[1]
        if isinstance(v, (int, float)):
            return TRUE if v == 0 else FALSE
    # sign-normalise
    if p[0] == "P":
        items = sorted(p[1], key=lambda mc: [tid(x) for x in mc[0]])
        if items[0][1] < 0:
            p = neg(p)
    return ("eq0", p)


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
        "short", "unsigned short", "char", "signed char", "unsigned char", "bool"}


def base_type(t):
    t = t or ""
    ch = True
    while ch:
        ch = False
        for suf in ("&", "*"):
            pass
        if t.startswith("const "):
            t = t[6:]
            ch = True
        if t.endswith(" const"):
            t = t[:-6]
            ch = True
        if t.endswith("&"):
            t = t.rstrip("&").rstrip()
            ch = True
    return t


def is_int_type(t):
    return base_type(t) in INTS


def subterms(t, seen=None):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    if isinstance(y, frozenset):
                        for z in y:
                            if isinstance(z, tuple):
                                st.append(z)
                    else:
                        st.append(y)


def tshow(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 12:
        return "…"
    s = lambda x: tshow(x, d + 1)
    k = t[0]
    if k == "k":
        return str(t[1])
    if k == "P":
        out = []
        for m, c in sorted(t[1], key=lambda mc: [tid(x) for x in mc[0]]):
            ms = "*".join(s(x) for x in m)
            out.append((("%s*" % c if c != 1 else "") + ms) if ms else str(c))
        return "(" + " + ".join(out) + ")"
    if k == "f":
        return s(t[1]) + "." + (t[2] if isinstance(t[2], str) else "[%s]" % s(t[2][1]))
    if k == "F":
        return s(t[1]) + "." + (t[2] if isinstance(t[2], str) else "[%s]" % s(t[2][1]))
    if k == "p":
        return t[1]
    if k == "L":
        return t[1]
    if k == "this":
        return "this"
    if k == "ptr":
        return "&%s[%s]" % (s(t[1]), s(t[2]))
    if k == "ap":
        return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2:]))
    if k == "ite":
        return "(%s ? %s : %s)" % (s(t[1]), s(t[2]), s(t[3]))
    if k in ("max", "and", "or"):
        return "%s{%s}" % (k, ", ".join(sorted(s(x) for x in t[1])))
    if k == "ge0":
        return s(t[1]) + ">=0"
    if k == "gt0":
        return s(t[1]) + ">0"
    if k == "eq0":
        return s(t[1]) + "==0"
    if k == "not":
        return "!" + s(t[1])
    if k == "tr":
        return s(t[1])
    if k in ("phi", "phio", "it", "call", "u"):
        return "%s<%s>" % (k, t[1] if isinstance(t[1], str) else "")
    return str(t[0]) + "(" + ",".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


# ----------------------------------------------------------------- state
class State:
    __slots__ = ("env", "facts", "ver")

    def __init__(self, env=None, facts=None, ver=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else frozenset()
        self.ver = ver if ver is not None else {}

    def copy(self):
        return State(dict(self.env), self.facts, dict(self.ver))


class Frame:
    __slots__ = ("f", "this", "refs", "id", "depth", "parent", "call", "lams")

    def __init__(self, f, this, id, depth, parent=None, call=None):
        self.f = f
        self.this = this
        self.refs = {}
        self.id = id
        self.depth = depth
        self.parent = parent
        self.call = call


NORM, BRK, CNT, RET = "n", "b", "c", "r"
RETV = ("var", "$ret")
PURE_STD = {"size", "length", "at", "empty", "begin", "end", "find", "get", "front", "back",
            "data", "count", "c_str", "cbegin", "cend", "first", "second"}


FORWARDING = {"emplace", "emplace_back", "try_emplace", "make_pair", "make_tuple"}


class Eval:
    max_depth = 14
    max_clause = 6

    def __init__(self, P):
        self.copies = {}
        self.P = P
        self.quiet = 0
        self.stack = []
        self.written = None
        self.fmods = FieldMods(P)
        self._n = 0
        self.steps = 0
        self.max_steps = 4000000

    # ------------------------------------------------------------ policy
    def want_inline(self, fkey, node, frame):
        return True

    def want_construct(self, ctor, node, frame):
        return True

    def relevant(self, fact):
        """keep this fact as an implication when branches merge?"""
        return True

    def model_call(self, node, name, obj, args, state, frame):
        """client-side model of a call: return a value term or None"""
        return None

    # hooks
    def on_call(self, node, fkey, name, obj, args, state, frame):
        pass

    def after_call(self, node, fkey, name, obj, args, ret, state, frame):
        pass

    def on_store(self, loc, val, node, state, frame):
        pass

    def on_throw(self, node, state, frame):
        pass

    def on_return(self, node, val, state, frame):
        pass

    def on_new(self, node, cls, args, obj, state, frame):
        pass

    def on_index(self, node, base, idx, state, frame):
        pass

    def on_loop(self, node, phase, state, frame):
        pass

    # ------------------------------------------------------------ values
    def isobj(self, t):
        t = base_type(t)
        if t.endswith("*"):
            return False
        if t in self.P.records:
            return True
        return t.startswith(("std::", "Rcpp::", "boost::")) and not t.endswith("::size_type") \
            or t.endswith("]")

    def initial(self, loc, state):
        if loc[0] == "fld":
            v = 0
            o = loc[1]
            while True:
                v = max(v, state.ver.get(o, 0), state.ver.get(("F", o, loc[2]), 0))
                if o[0] in ("F",):
                    o = o[1]
                else:
                    break
            vv = state.ver.get(("$field", loc[2]), 0)
            return ("f", loc[1], loc[2], max(v, vv))
        if loc[0] == "cell":
            return ("f", loc[1], ("at", loc[2]), state.ver.get(("$mem",), 0))
        return ("u",) + loc[1:]

    def read(self, loc, state):
        v = state.env.get(loc)
        return v if v is not None else self.initial(loc, state)

    def write(self, loc, val, state, node=None, frame=None):
        if self.written is not None:
            self.written.add(loc)
        state.env[loc] = val
        if not self.quiet:
            self.on_store(loc, val, node, state, frame)

    def fresh(self, tag, site):
        return (tag, site)

    def site(self, node, frame):
        return (frame.id, id(node) if False else node.get("l"), node.get("_u") or self.uid(node))

    def uid(self, node):
        u = node.get("_u")
        if u is None:
            self._n += 1
            u = node["_u"] = self._n
        return u

    def havoc_obj(self, obj, state, fields=None):
        """forget what is known about (fields of) obj and its sub-objects"""
        self._n += 1
        stamp = self._n

        def under(o):
            while True:
                if o == obj:
                    return True
                if o[0] == "F":
                    o = o[1]
                elif o[0] == "f":
                    o = o[1]
                else:
                    return False
        for loc in list(state.env):
            if loc[0] == "fld" and under(loc[1]) and (fields is None or loc[2] in fields or not isinstance(loc[2], str)):
                if self.written is not None:
                    self.written.add(loc)
                del state.env[loc]
                if fields is not None:
                    state.env[loc] = ("f", loc[1], loc[2], stamp)
        if fields is None:
            state.ver[obj] = stamp
        else:
            # unread locations: bump version of each (obj, field) pair and globally
            for f in fields:
                state.ver[("F", obj, f)] = stamp

    # ------------------------------------------------------- entry points
    def run(self, fkey, this=None, args=None, state=None, facts=()):
        """evaluate a function from a symbolic entry state"""
        f = self.P.funcs[fkey]
        st = state or State()
        st.facts = st.facts | frozenset(facts)
        fr = Frame(f, this or ("this",), (f["q"],), 0)
        vals = []
        for i, p in enumerate(f["p"]):
            v = args[i] if args and i < len(args) and args[i] is not None else ("p", p["n"] or "arg%d" % i)
            vals.append(v)
        return self.enter(fr, vals, st)

    def bind(self, fr, p, val, st):
        t = p["t"]
        d = p["d"]
        if t.endswith("&") or self.isobj(t):
            if isinstance(val, tuple) and val and val[0] == "loc":
                fr.refs[d] = val
            elif self.isobj(t):
                fr.refs[d] = ("obj", val)
            else:
                # const scalar& bound to a value, or symbolic entry
                st.env[("var", fr.id, d)] = val
        else:
            if isinstance(val, tuple) and val and val[0] == "loc":
                val = self.read(val[1], st)
            st.env[("var", fr.id, d)] = val

    def enter(self, fr, vals, st):
        f = fr.f
        for p, v in zip(f["p"], vals):
            self.bind(fr, p, v, st)
        if f.get("ctor"):
            self.ctor_inits(fr, st)
        self.stack.append(f["f"])
        out = self.stmt(f.get("body"), st, fr)
        self.stack.pop()
        s = out.get(NORM)
        r = out.get(RET)
        if r is None:
            res, val = s, ("k", None)
        elif s is None:
            res, val = r, r.env.get(RETV, ("k", None))
        else:
            res = self.join(r, s)
            val = r.env.get(RETV, ("k", None))
        if res is not None:
            if r is not None and s is not None:
                pass
            else:
                val = res.env.get(RETV, ("k", None))
            res.env.pop(RETV, None)
        return res, val

    def ctor_inits(self, fr, st):
        for i in fr.f.get("inits") or []:
            e = i.get("e")
            if e is None:
                continue
            if "m" in i:
                fobj = ("F", fr.this, i["m"])
                if e["k"] == "Ctor" or self.isobj(e.get("t") or ""):
                    self.construct_into(fobj, e, st, fr)
                else:
                    self.write(("fld", fr.this, i["m"]), self.ev(e, st, fr), st, e, fr)
            elif "base" in i or i.get("deleg"):
                if e["k"] == "Ctor":
                    self.construct_into(fr.this, e, st, fr)

    # -------------------------------------------------------- statements
    def stmts(self, lst, st, fr):
        out = {}
        cur = st
        for s in lst:
            if cur is None:
                # still need labels? (cases are handled in Switch)
                break
            o = self.stmt(s, cur, fr)
            cur = o.pop(NORM, None)
            for k, v in o.items():
                out[k] = self.join(out.get(k), v)
        if cur is not None:
            out[NORM] = cur
        return out

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("analysis budget exceeded in %s" % fr.f["q"])
        if n is None:
            return {NORM: st}
        k = n["k"]
        if k == "Block":
            return self.stmts(n["s"], st, fr)
        if k == "Expr":
            v = self.ev(n["e"], st, fr, stmt=True)
            if v == ("dead",):
                return {}
            if self._noreturn(n["e"]):
                return {}
            return {NORM: st}
        if k == "Decl":
            for v in n["v"]:
                self.decl(v, st, fr)
            return {NORM: st}
        if k == "If":
            return self.do_if(n, st, fr)
        if k in ("For", "While", "DoWhile", "RangeFor"):
            return self.loop(n, st, fr)
        if k == "Return":
            v = ("k", None)
            if n.get("e") is not None:
                e = n["e"]
                if fr.f.get("rt", "").endswith("&") or self.isobj(e.get("t") or ""):
                    v = self.ev(e, st, fr, lv=fr.f.get("rt", "").endswith("&"))
                else:
                    v = self.ev(e, st, fr)
            st.env[RETV] = v
            if not self.quiet:
                self.on_return(n, v, st, fr)
            return {RET: st}
        if k == "Break":
            return {BRK: st}
        if k == "Continue":
            return {CNT: st}
        if k == "Switch":
            return self.switch(n, st, fr)
        if k in ("Case", "Default", "Label"):
            return self.stmt(n["s"], st, fr)
        if k == "Try":
            return self.do_try(n, st, fr)
        if k == "OMP":
            return self.stmt(n.get("b"), st, fr)
        if k == "Null":
            return {NORM: st}
        if k == "Goto":
            return {}
        if k == "XS":
            return self.stmts([c for c in n["ch"]], st, fr)
        raise AnalysisError("statement kind %s" % k)

    def _noreturn(self, e):
        e = strip(e)
        return e and (e["k"] == "Throw" or (e["k"] == "Call" and e.get("n") in ("abort", "exit", "terminate", "rethrow_exception", "stop") and e.get("q", "").split("::")[0] in ("abort", "exit", "std", "Rcpp") and e.get("n") != "stop" or (e["k"] == "Call" and e.get("q") == "Rcpp::stop")))

    def decl(self, v, st, fr):
        if v.get("binding"):
            st.env[("var", fr.id, v["d"])] = ("u", "binding", fr.id, v["d"])
            return
        t = v["t"]
        d = v["d"]
        e = v.get("init")
        loc = ("var", fr.id, d)
        if t.endswith("&"):
            if e is None:
                return
            x = self.ev(e, st, fr, lv=True)
            if x[0] == "loc":
                fr.refs[d] = x
            elif self.isobj(t):
                fr.refs[d] = ("obj", x)
            else:
                fr.refs.pop(d, None)
                self.write(loc, x, st, v, fr)
            return
        if e is not None and strip(e)["k"] == "Lambda":
            fr.refs[d] = ("obj", self.ev(e, st, fr))
            return
        if self.isobj(t):
            obj = ("L", v["n"], fr.id, d)
            fr.refs[d] = ("obj", obj)
            # a fresh object: forget previous iteration
            for l in [l for l in st.env if l[0] == "fld" and self._under(l[1], obj)]:
                del st.env[l]
            if e is not None:
                self.construct_into(obj, e, st, fr)
            return
        if e is not None:
            self.write(loc, self.ev(e, st, fr), st, v, fr)
        else:
            st.env[loc] = ("u", v["n"], fr.id, d)

    @staticmethod
    def _under(o, obj):
        while True:
            if o == obj:
                return True
            if o[0] == "F":
                o = o[1]
            else:
                return False

    def construct_into(self, obj, e, st, fr):
        e = strip(e)
        if e["k"] == "Ctor":
            self.construct(obj, e, st, fr)
            return
        src = self.ev(e, st, fr)
        self.copy_obj(src, obj, st)

    def copy_obj(self, src, dst, st):
        if src == dst:
            return
        if src and src[0] == "loc":
            src = self.loc_obj(src[1])
        self.copies[dst] = src
        if self.written is not None:
            self.written.add(("fld", dst, "$all"))
        for l in [l for l in st.env if l[0] == "fld" and self._under(l[1], dst)]:
            del st.env[l]
        if not isinstance(src, tuple) or src[0] in ("k",):
            return
        # everything known below src
        for l in list(st.env):
            if l[0] == "fld" and self._under(l[1], src):
                st.env[("fld", self._rebase(l[1], src, dst), l[2])] = st.env[l]
        # and what is not known: dst.x == src.x, recorded lazily
        st.env[("alias", dst)] = src

    @staticmethod
    def _rebase(o, src, dst):
        if o == src:
            return dst
        return ("F", Eval._rebase(o[1], src, dst), o[2])

    def loc_obj(self, loc):
        if loc[0] == "fld":
            return ("F", loc[1], loc[2])
        return ("D",) + loc

    def construct(self, obj, e, st, fr):
        """run a constructor on obj"""
        f = e.get("f")
        cls = e["c"]
        P = self.P
        if e.get("cp"):
            if e["a"]:
                src = self.ev(e["a"][0], st, fr)
                self.copy_obj(src, obj, st)
            return
        args = self.args(e, st, fr, P.funcs.get(f))
        if not self.quiet:
            self.on_new(e, cls, args, obj, st, fr)
        if cls.startswith("std::vector"):
            if args and not e.get("li"):
                a0 = args[0]
                if a0[0] == "loc":
                    a0 = self.read(a0[1], st)
                st.env[("fld", obj, "size")] = a0
            elif not args:
                st.env[("fld", obj, "size")] = ZERO
            return
        if cls.startswith("std::function") and args and args[0][0] == "lam":
            st.env[("alias", obj)] = args[0]
            return
        if cls.startswith("std::unique_ptr") or cls.startswith("std::shared_ptr"):
            v = args[0] if args else K(None)
            if args and base_type(strip(e["a"][0]).get("t") or "").startswith(("std::unique_ptr", "std::shared_ptr")):
                if v[0] == "loc":
                    v = self.loc_obj(v[1])
                v = self.read_al(("fld", v, "$p"), st)
            if v[0] == "loc":
                v = self.read(v[1], st)
            st.env[("fld", obj, "$p")] = v
            return
        if f in P.funcs and P.funcs[f].get("ctor"):
            g = P.funcs[f]
            if g["f"] not in self.stack and len(self.stack) < self.max_depth and self.want_construct(g, e, fr):
                nf = Frame(g, obj, fr.id + (self.uid(e),), fr.depth + 1, fr, e)
                r, _ = self.enter(nf, args, st)
                if r is not None and r is not st:
                    st.env, st.facts, st.ver = r.env, r.facts, r.ver
                return
        r = P.records.get(cls)
        if r:  # defaulted constructor: in-class initialisers
            self.default_init(obj, cls, st, fr)

    def default_init(self, obj, cls, st, fr):
        for c, fd in self.P.all_fields(cls):
            if fd.get("init") is not None:
                if self.isobj(fd["t"]):
                    if strip(fd["init"])["k"] == "Ctor":
                        self.construct(("F", obj, fd["n"]), strip(fd["init"]), st, fr)
                else:
                    st.env[("fld", obj, fd["n"])] = self.ev(fd["init"], st, fr)
            elif self.isobj(fd["t"]) and base_type(fd["t"]) in self.P.records:
                self.default_init(("F", obj, fd["n"]), base_type(fd["t"]), st, fr)

    # ---------------------------------------------------------- branching
    def assume(self, st, c):
        if c == TRUE:
            return st
        if c == FALSE or self.known(st, c) is False:
            return None
        s = st.copy()
        cs = c[1] if c[0] == "and" else [c]
        facts = set(s.facts)
        for x in cs:
            facts.add(x)
            # unit propagation into clauses
            nx = tnot(x)
            for fct in list(facts):
                if fct[0] == "or" and nx in fct[1]:
                    facts.add(tor(*[y for y in fct[1] if y != nx]))
        s.facts = frozenset(facts)
        return s

    def known(self, st, c):
        """True / False / None"""
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if c in st.facts:
            return True
        if tnot(c) in st.facts:
            return False
        if c[0] == "not":
            r = self.known(st, c[1])
            return None if r is None else (not r)
        if c[0] == "and":
            rs = [self.known(st, x) for x in c[1]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c[0] == "or":
            rs = [self.known(st, x) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c[0] == "eq0":
            for fct in st.facts:
                if fct[0] == "eq0" and fct != c:
                    d = sub(fct[1], c[1])
                    if is_k(d) and isinstance(d[1], (int, float)) and d[1] != 0:
                        return False
                if fct[0] in ("ge0", "gt0"):
                    d = sub(c[1], fct[1])
                    if is_k(d) and isinstance(d[1], (int, float)) and d[1] > 0:
                        return False
                    d = add(c[1], fct[1])
                    if is_k(d) and isinstance(d[1], (int, float)) and d[1] < 0:
                        return False
        if c[0] in ("ge0", "gt0"):
            for fct in st.facts:
                if fct[0] == "eq0":
                    for sgn in (1, -1):
                        d = sub(c[1], fct[1]) if sgn == 1 else add(c[1], fct[1])
                        if is_k(d) and isinstance(d[1], (int, float)):
                            return (d[1] >= 0) if c[0] == "ge0" else (d[1] > 0)
                if fct[0] in ("ge0", "gt0"):
                    d = sub(c[1], fct[1])
                    if is_k(d) and isinstance(d[1], (int, float)):
                        if c[0] == "ge0" and d[1] >= 0:
                            return True
                        if c[0] == "gt0" and (d[1] > 0 or (d[1] == 0 and fct[0] == "gt0")):
                            return True
                    d = add(c[1], fct[1])
                    if is_k(d) and isinstance(d[1], (int, float)):
                        if d[1] < 0:
                            return False
        return None

    def join(self, a, b, split=None):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        fa, fb = a.facts, b.facts
        common = fa & fb
        c = None
        best = None
        if split is not None:
            c = split
        else:
            for x in fa - fb:
                if tnot(x) in fb:
                    # deterministic pick
                    t = tid(x)
                    if best is None or t < best:
                        best, c = t, x
            if c is None:
                for x in fb - fa:
                    if x[0] == "or":
                        nx = tnot(x)
                        if nx[0] == "and" and nx[1] <= fa:
                            c = nx
                            break
            if c is None:
                for x in fa - fb:
                    if x[0] == "or":
                        nx = tnot(x)
                        if nx[0] == "and" and nx[1] <= fb:
                            c = x
                            break
        env = {}
        ea, eb = a.env, b.env
        site = None
        for loc in set(ea) | set(eb):
            va = ea.get(loc)
            vb = eb.get(loc)
            if va is None and vb is None:
                continue
            if loc[0] == "alias":
                if va == vb:
                    env[loc] = va
                continue
            if va is None:
                if loc[0] == "var":
                    # not in scope on the other side
                    continue
                va = self.initial_al(loc, a)
            if vb is None:
                if loc[0] == "var":
                    continue
                vb = self.initial_al(loc, b)
            if va == vb:
                env[loc] = va
            elif c is not None:
                v = ite(c, va, vb)
                env[loc] = v if self.tsize(v) < 600 else ("j", tid(va), tid(vb))
            else:
                x, y = sorted((tid(va), tid(vb)))
                env[loc] = ("j", x, y)
        facts = set(common)
        if c is not None:
            nc = tnot(c)
            for x in fa - fb:
                if x != c and not (c[0] == "and" and x in c[1]) and self.clause_ok(x) and self.relevant(x):
                    facts.add(tor(nc, x))
            for x in fb - fa:
                if x != nc and not (nc[0] == "and" and x in nc[1]) and self.clause_ok(x) and self.relevant(x):
                    facts.add(tor(c, x))
        else:
            # disjunction-aware: keep facts one side has when the other entails them
            for x in fa - fb:
                if self.known(b, x) is True:
                    facts.add(x)
            for x in fb - fa:
                if self.known(a, x) is True:
                    facts.add(x)
            # a fact of one side that is a disjunct of a clause on the other
            ua = [x for x in fa - fb if x[0] != "or" and self.relevant(x)]
            ub = [x for x in fb - fa if x[0] != "or" and self.relevant(x)]
            if len(ua) * len(ub) <= 64:
                for x in ua:
                    for y in ub:
                        facts.add(tor(x, y))
        facts.discard(TRUE)
        ver = dict(a.ver)
        for k2, v in b.ver.items():
            ver[k2] = max(v, ver.get(k2, 0))
        return State(env, frozenset(facts), ver)

    def initial_al(self, loc, st):
        return self.initial(loc, st)

    def clause_ok(self, x):
        return not (x[0] == "or" and len(x[1]) >= self.max_clause)

    _ts = {}

    def tsize(self, t):
        n = self._ts.get(t)
        if n is None:
            n = 1
            for y in t:
                if isinstance(y, tuple):
                    n += self.tsize(y)
                elif isinstance(y, frozenset):
                    for z in y:
                        n += self.tsize(z) if isinstance(z, tuple) else 1
            self._ts[t] = n
        return n

    def do_if(self, n, st, fr):
        if n.get("init"):
            o = self.stmt(n["init"], st, fr)
            st = o.get(NORM)
        if n.get("cv"):
            self.decl(n["cv"], st, fr)
        if "cxv" in n:
            b = n["a"] if n["cxv"] else n.get("b")
            return self.stmt(b, st, fr) if b else {NORM: st}
        c = self.cond(n["c"], st, fr)
        s1 = self.assume(st, c)
        s2 = self.assume(st, tnot(c))
        if s1 is st and s2 is not None:
            s1 = st.copy()
        out = {}
        if s1 is not None:
            for k, v in self.stmt(n["a"], s1, fr).items():
                out[k] = self.join(out.get(k), v)
        if s2 is not None:
            o2 = self.stmt(n.get("b"), s2, fr) if n.get("b") else {NORM: s2}
            for k, v in o2.items():
                out[k] = self.join(out.get(k), v, c)
        return {k: v for k, v in out.items() if v is not None}

    def switch(self, n, st, fr):
        v = self.ev(n["c"], st, fr)
        body = n["b"]["s"] if n["b"]["k"] == "Block" else [n["b"]]
        # flatten case labels
        items = []

        def flat(s):
            labels = []
            while s is not None and s["k"] in ("Case", "Default"):
                labels.append(("d",) if s["k"] == "Default" else ("c", s.get("v")))
                s = s["s"]
            return labels, s
        cases = [c.get("v") for c in walk(n["b"]) if c["k"] == "Case"]
        out = {}
        cur = None
        has_default = False
        for s in body:
            labels, inner = flat(s)
            for l in labels:
                if l[0] == "d":
                    has_default = True
                    c = tand(*[tnot(eq0(sub(v, K(x)))) for x in cases if x is not None])
                else:
                    c = eq0(sub(v, K(l[1])))
                e = self.assume(st, c)
                if e is st:
                    e = st.copy()
                cur = self.join(cur, e) if cur is not None else e
            if cur is None:
                continue
            o = self.stmt(inner, cur, fr)
            cur = o.pop(NORM, None)
            if BRK in o:
                out[NORM] = self.join(out.get(NORM), o.pop(BRK))
            for k, x in o.items():
                out[k] = self.join(out.get(k), x)
        if cur is not None:
            out[NORM] = self.join(out.get(NORM), cur)
        if not has_default:
            e = self.assume(st, tand(*[tnot(eq0(sub(v, K(x)))) for x in cases if x is not None]))
            if e is not None:
                out[NORM] = self.join(out.get(NORM), e)
        return {k: x for k, x in out.items() if x is not None}

    def do_try(self, n, st, fr):
        entry = st.copy()
        saved = self.written
        self.written = set()
        out = self.stmt(n["b"], st, fr)
        w = self.written
        self.written = saved
        if saved is not None:
            saved |= w
        res = dict(out)
        for h in n["h"]:
            hs = entry.copy()
            for loc in w:
                hs.env[loc] = ("exc", self.uid(n), fr.id, loc)
            o = self.stmt(h["b"], hs, fr)
            for k, x in o.items():
                res[k] = self.join(res.get(k), x) if k in res else x
        return {k: x for k, x in res.items() if x is not None}

    # --------------------------------------------------------------- loops
    def assigned(self, n):
        r = n.get("_asg")
        if r is None:
            r = set()
            for x in walk(n):
                if x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "<=", ">=", "!="):
                    t = strip(x["a"])
                    if t["k"] == "Ref" and "d" in t:
                        r.add(t["d"])
                elif x["k"] == "Un" and x["op"].rstrip("p") in ("++", "--"):
                    t = strip(x["e"])
                    if t["k"] == "Ref" and "d" in t:
                        r.add(t["d"])
                elif x["k"] in ("Call", "Ctor"):
                    for a, pt in zip(x["a"], x.get("pt") or []):
                        if pt.endswith("&") and not pt.startswith("const "):
                            t = strip(a)
                            if t and t["k"] == "Ref" and "d" in t and t.get("dk") in ("var", "parm"):
                                r.add(t["d"])
                elif x["k"] == "Un" and x["op"] == "&":
                    t = strip(x["e"])
                    if t["k"] == "Ref" and "d" in t:
                        r.add(t["d"])
            n["_asg"] = r
        return r

    def loop(self, n, st, fr):
        k = n["k"]
        if k == "For" and n.get("i"):
            o = self.stmt(n["i"], st, fr)
            st = o.get(NORM)
            if st is None:
                return o
        elem = None
        cont = None
        if k == "RangeFor":
            r = strip(n["r"])
            # a braced list of constants is unrolled
            if r["k"] in ("InitList",) or (r["k"] == "Ctor" and r.get("li")):
                lst = r if r["k"] == "InitList" else strip(r["a"][0])
                if lst and lst["k"] == "InitList" and len(lst["a"]) <= 16:
                    return self.unroll(n, lst["a"], st, fr)
            cont = self.ev(n["r"], st, fr, lv=True)
            if cont[0] == "loc":
                cont = self.loc_obj(cont[1])
        lid = (self.uid(n),) + fr.id
        asg = self.assigned(n)
        entry = st
        # ---- discover what the loop changes
        saved_w, self.written = self.written, set()
        self.quiet += 1
        locs = {}
        for d in asg:
            loc = ("var", fr.id, d)
            if d in fr.refs and fr.refs[d][0] == "loc":
                loc = fr.refs[d][1]
            elif d in fr.refs:
                continue
            if loc in st.env or loc[0] == "fld":
                locs[loc] = self.read(loc, st)
        post1 = self.one_iter(n, self.with_phi(st, locs, lid), fr, cont, lid, None)
        w = self.written
        extra = {l for l in w if l not in locs and (l[0] != "var" or l in entry.env)}
        if any(l[0] == "fld" for l in extra):
            for l in extra:
                if l[0] == "fld" and l[2] == "$all":
                    continue
                locs[l] = self.read(l, st)
            post1 = self.one_iter(n, self.with_phi(st, locs, lid), fr, cont, lid, None)
        else:
            for l in extra:
                locs[l] = self.read(l, st)
            if extra:
                post1 = self.one_iter(n, self.with_phi(st, locs, lid), fr, cont, lid, None)
        self.quiet -= 1
        self.written = saved_w
        if saved_w is not None:
            saved_w |= w
        alls = [l for l in w if l[0] == "fld" and l[2] == "$all"]
        # ---- linear induction
        ind = {}
        if post1 is not None:
            for l, v0 in locs.items():
                ph = ("phi", l[2] if isinstance(l[2], str) else "v", lid, l)
                va = post1.env.get(l)
                if va is None:
                    continue
                if va[0] == "ptr" or va == ph:
                    dlt = None
                    if va == ph:
                        ind[l] = (v0, ZERO)
                        continue
                dlt = sub(va, ph)
                if not any(x[0] in ("phi",) and x[2] == lid for x in subterms(dlt) if isinstance(x, tuple) and len(x) > 2) \
                        and not any(isinstance(x, tuple) and x and x[0] == "ptr" for x in (dlt,)):
                    if not self.mentions_loop(dlt, lid):
                        ind[l] = (v0, dlt)
        it = ("it", lid)
        trip = self.trip(n, st, fr, ind, lid, cont)
        body = st.copy()
        for l, v0 in locs.items():
            if l in ind:
                body.env[l] = add(ind[l][0], mul(it, ind[l][1])) if ind[l][1] != ZERO else ind[l][0]
            else:
                body.env[l] = ("phi", l[2] if isinstance(l[2], str) else "v", lid, l)
        for l in alls:
            self.havoc_obj(l[1], body)
        bf = set(body.facts) | {ge0(it)}
        if trip is not None:
            bf.add(ge0(sub(sub(trip, ONE), it)))
        body.facts = frozenset(bf)
        outs = {}
        if not self.quiet:
            self.on_loop(n, "enter", body, fr)
        bpost = self.one_iter(n, body, fr, cont, lid, outs)
        if not self.quiet:
            self.on_loop(n, "exit", body, fr)
        # ---- state after the loop
        after = entry.copy()
        N = trip if trip is not None else ("trip", lid)
        for l in locs:
            if l in ind:
                after.env[l] = add(ind[l][0], mul(N, ind[l][1])) if ind[l][1] != ZERO else ind[l][0]
            else:
                after.env[l] = ("phio", l[2] if isinstance(l[2], str) else "v", lid, l)
        for l in alls:
            self.havoc_obj(l[1], after)
        facts = set(after.facts)
        has_brk = BRK in outs
        if not has_brk and k in ("For", "While", "DoWhile") and n.get("c") is not None:
            self.quiet += 1
            c = self.cond(n["c"], after.copy(), fr)
            self.quiet -= 1
            facts.add(tnot(c))
        if bpost is not None:
            # facts about the generic element hold for every element afterwards
            for x in bpost.facts - entry.facts:
                if self.universal(x, lid):
                    facts.add(x)
        facts.discard(TRUE)
        facts.discard(FALSE)
        after.facts = frozenset(facts)
        res = after
        if has_brk:
            b = outs.pop(BRK)
            # values at the break are iteration dependent: rename
            res = self.join(after, b)
        out = {}
        if not (n.get("c") is None and k in ("For",) and not has_brk) and not (
                k in ("While", "DoWhile", "For") and n.get("c") is not None and self.const_true(n["c"]) and not has_brk):
            out[NORM] = res
        if k in ("While", "For", "DoWhile") and n.get("c") is not None and self.const_true(n["c"]) and has_brk:
            out[NORM] = b
        for kk, v in outs.items():
            if kk in (RET,):
                out[kk] = v
        return out

    def const_true(self, c):
        c = strip(c)
        return c["k"] in ("Bool", "Int") and bool(c["v"])

    def universal(self, x, lid):
        has = False
        for y in subterms(x):
            if not isinstance(y, tuple) or not y:
                continue
            if y[0] in ("phi", "u", "call", "exc", "it") and lid in y:
                return False
            if y[0] in ("F", "f") and isinstance(y[2], tuple) and y[2] == ("at", ("any",)):
                has = True
            if y[0] == "j":
                return False
        return has

    def mentions_loop(self, t, lid):
        for y in subterms(t):
            if isinstance(y, tuple) and len(y) > 1 and y[0] in ("phi", "u", "call", "exc", "it", "phio", "trip"):
                for z in y[1:]:
                    if z == lid:
                        return True
                    if isinstance(z, tuple) and len(z) > len(lid) and z[-len(lid) + 1:] == lid[1:] and False:
                        return True
            if isinstance(y, tuple) and y and y[0] in ("call", "j"):
                return True
        return False

    def with_phi(self, st, locs, lid):
        s = st.copy()
        for l in locs:
            s.env[l] = ("phi", l[2] if isinstance(l[2], str) else "v", lid, l)
        return s

    def one_iter(self, n, st, fr, cont, lid, outs):
        k = n["k"]
        if k == "RangeFor":
            v = n["v"]
            el = ("F", cont, ("at", ("any",)))
            if v["t"].endswith("&") or self.isobj(v["t"]):
                if self.isobj(v["t"]):
                    fr.refs[v["d"]] = ("obj", el)
                else:
                    fr.refs[v["d"]] = ("loc", ("fld", cont, ("at", ("any",))))
            else:
                st.env[("var", fr.id, v["d"])] = self.read_al(("fld", cont, ("at", ("any",))), st)
        elif n.get("c") is not None and k != "DoWhile":
            c = self.cond(n["c"], st, fr)
            s = self.assume(st, c)
            if s is None:
                return None
            st = s
        o = self.stmt(n["b"], st, fr)
        cur = self.join(o.pop(NORM, None), o.pop(CNT, None))
        if cur is not None and k == "For" and n.get("n") is not None:
            self.ev(n["n"], cur, fr, stmt=True)
        if cur is not None and k == "DoWhile":
            self.cond(n["c"], cur, fr)
        if outs is not None:
            outs.update(o)
        return cur

    def unroll(self, n, elems, st, fr):
        v = n["v"]
        out = {}
        cur = st
        for e in elems:
            val = self.ev(e, cur, fr)
            if self.isobj(v["t"]):
                fr.refs[v["d"]] = ("obj", val)
            else:
                cur.env[("var", fr.id, v["d"])] = val
                fr.refs.pop(v["d"], None)
            o = self.stmt(n["b"], cur, fr)
            cur = self.join(o.pop(NORM, None), o.pop(CNT, None))
            if BRK in o:
                out[NORM] = self.join(out.get(NORM), o.pop(BRK))
            for k, x in o.items():
                out[k] = self.join(out.get(k), x)
            if cur is None:
                break
        out[NORM] = self.join(out.get(NORM), cur)
        return {k: x for k, x in out.items() if x is not None}

    def trip(self, n, st, fr, ind, lid, cont):
        if n["k"] == "RangeFor":
            return self.read_al(("fld", cont, "size"), st)
        c = strip(n.get("c")) if n.get("c") else None
        if not c or c["k"] != "Bin" or c["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        self.quiet += 1
        s = st.copy()
        for l in ind:
            s.env[l] = add(ind[l][0], mul(("it", lid), ind[l][1])) if ind[l][1] != ZERO else ind[l][0]
        a = self.ev(c["a"], s, fr)
        b = self.ev(c["b"], s, fr)
        self.quiet -= 1
        op = c["op"]
        if op in (">", ">="):
            a, b = b, a
            op = {">": "<", ">=": "<="}[op]
        if a[0] == "ptr" or b[0] == "ptr":
            d = sub(b, a)
        else:
            d = sub(b, a)
        # d = D0 - it*step
        pd = to_poly(d)
        it = ("it", lid)
        step = 0
        for m, cf in pd.items():
            if it in m:
                if m != (it,):
                    return None
                step = cf
        if step != -1:
            return None
        d0 = add(d, it)
        if self.mentions_loop(d0, lid):
            return None
        if op == "<=":
            d0 = add(d0, ONE)
        return d0

    # ---------------------------------------------------------- conditions
    def cond(self, e, st, fr):
        return self.truth(self.ev(e, st, fr), e)

    def truth(self, v, e=None):
        if is_k(v):
            if v[1] is None:
                return FALSE
            return TRUE if v[1] else FALSE
        if v[0] in ("ge0", "gt0", "eq0", "not", "and", "or", "tr"):
            return v
        if v[0] == "ite":
            return tor(tand(v[1], self.truth(v[2])), tand(tnot(v[1]), self.truth(v[3])))
        t = (e or {}).get("t") or ""
        if t == "bool":
            return ("tr", v)
        if v[0] == "ptr":
            return tnot(eq0(v[1])) if v[2] == ZERO else TRUE
        return tnot(eq0(v))

    def compare(self, op, a, b, integer, boolean=False):
        if boolean and op in ("==", "!=") and (is_k(a) or is_k(b)):
            if is_k(a):
                a, b = b, a
            c = self.truth(a, {"t": "bool"})
            r = c if bool(b[1]) else tnot(c)
            return r if op == "==" else tnot(r)
        if op in ("==", "!="):
            if a[0] == "k" and b[0] == "k":
                r = K(a[1] == b[1])
                return r if op == "==" else tnot(r)
            for x, y in ((a, b), (b, a)):
                if x == K(None):
                    if y[0] in ("ptr", "L", "F", "new", "this"):
                        if y[0] == "ptr" and y[2] == ZERO:
                            y = y[1]
                        elif y[0] != "ptr":
                            return FALSE if op == "==" else TRUE
                    c = eq0(y)
                    return c if op == "==" else tnot(c)
            if isinstance(a[1] if is_k(a) else 0, str) or isinstance(b[1] if is_k(b) else 0, str):
                x, y = sorted((a, b), key=tid)
                c = ("tr", ("ap", "==", x, y))
            else:
                c = eq0(sub(a, b)) if tid(a) != tid(b) else TRUE
            return c if op == "==" else tnot(c)
        if op == "<":
            return ge0(sub(sub(b, a), ONE)) if integer else gt0(sub(b, a))
        if op == ">":
            return self.compare("<", b, a, integer)
        if op == "<=":
            return ge0(sub(b, a))
        if op == ">=":
            return ge0(sub(a, b))

    # --------------------------------------------------------- expressions
    def args(self, e, st, fr, g=None):
        out = []
        pts = e.get("pt") or []
        for i, a in enumerate(e["a"]):
            pt = pts[i] if i < len(pts) else ""
            if a is None:
                out.append(("k", None))
                continue
            lv = pt.endswith("&") and not pt.endswith("&&")
            out.append(self.ev(a, st, fr, lv=lv))
        return out

    def rv(self, v, st):
        if v[0] == "loc":
            return self.read_al(v[1], st)
        return v

    def lvalue(self, e, st, fr):
        """('loc', location) for scalars, object term for objects"""
        e0 = e
        e = strip(e)
        k = e["k"]
        if k == "Ref":
            if "d" in e and e.get("dk") in ("var", "parm", "binding"):
                f2 = fr
                while f2 is not None:
                    b = f2.refs.get(e["d"])
                    if b is not None:
                        if b[0] == "obj":
                            return b[1]
                        return b
                    loc = ("var", f2.id, e["d"])
                    if loc in st.env:
                        return ("loc", loc)
                    # lambda bodies look into their defining frame
                    f2 = f2.parent if f2.f.get("lambda") else None
                return ("loc", ("var", fr.id, e["d"]))
            if e.get("dk") in ("global", "slocal"):
                if self.isobj(e.get("t")):
                    return ("G", e.get("q"))
                return ("loc", ("fld", ("G", e.get("q")), "$v"))
        if k == "Mem":
            if e["n"] == "second":
                c = self.found_by(e["b"], fr)
                if c is not None:
                    b = self.ev(c["o"], st, fr, lv=True)
                    if b[0] == "loc":
                        b = self.read_al(b[1], st)
                    b, i = self.canon(b, st), self.rv(self.ev(c["a"][0], st, fr), st)
                    if self.isobj(e.get("dt") or e.get("t")):
                        return ("F", b, ("at", i))
                    return ("loc", ("fld", b, ("at", i)))
            b = self.ev(e["b"], st, fr, lv=True)
            if b[0] == "loc":
                b = self.read_al(b[1], st)
            b = self.canon(b, st)
            if self.isobj(e.get("dt") or e.get("t")):
                if (e.get("dt") or "").endswith("&"):
                    v = st.env.get(("fld", b, e["n"]))
                    if v is not None:
                        return v
                return ("F", b, e["n"])
            if (e.get("dt") or "").endswith("&"):
                return ("loc", ("fld", b, e["n"]))
            return ("loc", ("fld", b, e["n"]))
        if k == "Sub":
            b = self.rv(self.ev(e["b"], st, fr), st)
            i = self.rv(self.ev(e["i"], st, fr), st)
            p = add(b, i) if b[0] == "ptr" else ("ptr", b, i)
            if not self.quiet:
                self.on_index(e, b, i, st, fr)
            if self.isobj(e.get("t")):
                return ("F", p[1], ("at", p[2]))
            return ("loc", ("cell", p[1], p[2]))
        if k == "Un" and e["op"] == "*":
            b = self.rv(self.ev(e["e"], st, fr), st)
            if self.isobj(e.get("t")):
                return b
            p = b if b[0] == "ptr" else ("ptr", b, ZERO)
            if p[1][0] == "adr":
                return ("loc", p[1][1])
            return ("loc", ("cell", p[1], p[2]))
        if k == "This":
            return fr.this
        return self.ev(e, st, fr, lv=k == "Call")

    def found_by(self, b, fr):
        """the call map.find(key) whose iterator <b> dereferences, when neither the iterator nor the key is ever assigned again"""
        b = strip(b)
        if not (b["k"] == "Call" and b.get("op") in ("->", "*") and b.get("o") is not None):
            return None
        v = strip(b["o"])
        if v["k"] != "Ref" or not v.get("d"):
            return None
        body = fr.f.get("body")
        if not body:
            return None
        init, moved = None, set()
        for x in walk(body):
            if x["k"] == "Decl":
                for w in x["v"]:
                    if w.get("d") == v["d"]:
                        init = w.get("init")
            elif x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                moved.add(strip(x["a"]).get("d"))
            elif x["k"] == "Un" and x["op"].rstrip("p") in ("++", "--"):
                moved.add(strip(x["e"]).get("d"))
            elif x["k"] == "Call" and x.get("op") in ("=", "++", "--", "+=", "-=") and x.get("o") is not None:
                moved.add(strip(x["o"]).get("d"))
        c = strip(init) if init is not None else None
        while c is not None and c["k"] == "Ctor" and len(c.get("a") or []) == 1:
            c = strip(c["a"][0])
        if c is None or c["k"] != "Call" or c.get("n") != "find" or c.get("o") is None or not (c.get("oc") or "").startswith("std::map") or len(c.get("a") or []) != 1:
            return None
        if v["d"] in moved or any(x["k"] == "Ref" and x.get("d") in moved for x in walk(c["a"][0])):
            return None
        return c

    def canon(self, o, st):
        return o

    def ev(self, e, st, fr, lv=False, stmt=False):
        if e is None:
            return ("k", None)
        self.steps += 1
        k = e["k"]
        if k in ("Int", "Float", "Char"):
            return K(e["v"])
        if k == "Bool":
            return K(bool(e["v"]))
        if k == "Str":
            return K(e["v"])
        if k == "Null":
            return K(None)
        if k == "ZeroInit":
            return ZERO
        if k == "Sizeof":
            return K(e.get("v") or 1)
        if k == "This":
            return fr.this
        if k == "Ref":
            dk = e.get("dk")
            if dk == "enum":
                return K(e["v"])
            if dk == "func":
                return ("fn", e["f"])
            x = self.lvalue(e, st, fr)
            if x[0] == "loc" and not lv:
                return self.read_al(x[1], st)
            return x
        if k in ("Mem", "Sub"):
            x = self.lvalue(e, st, fr)
            if x[0] == "loc" and not lv:
                return self.read_al(x[1], st)
            return x
        if k in ("ICast", "Cast"):
            if e.get("ck") in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                return self.truth(self.ev(e["e"], st, fr), e["e"])
            v = self.ev(e["e"], st, fr, lv=lv)
            if e.get("ck") == "FloatingToIntegral" or (
                    k == "Cast" and is_int_type(e.get("t")) and base_type(e.get("ft") or "") in ("double", "float")):
                v = self.rv(v, st)
                if is_k(v) and isinstance(v[1], float):
                    return K(int(v[1]))
                return ("ap", "trunc", v)
            if k == "Cast" and is_int_type(e.get("t")) and v[0] in ("ge0", "gt0", "eq0", "not", "and", "or", "tr"):
                return ite(v, ONE, ZERO)
            if v in (TRUE, FALSE) and is_int_type(e.get("t")) and base_type(e.get("t")) != "bool":
                return K(int(v[1]))
            return v
        if k == "Un":
            op = e["op"]
            if op in ("++", "--", "++p", "--p"):
                x = self.lvalue(e["e"], st, fr)
                if x[0] != "loc":
                    return x
                old = self.read_al(x[1], st)
                new = add(old, ONE, 1 if op[0] == "+" else -1)
                self.write(x[1], new, st, e, fr)
                return (x if lv else new) if not op.endswith("p") else old
            if op == "!":
                return tnot(self.cond(e["e"], st, fr))
            if op == "-":
                return neg(self.rv(self.ev(e["e"], st, fr), st))
            if op == "+":
                return self.ev(e["e"], st, fr)
            if op == "*":
                x = self.lvalue(e, st, fr)
                if x[0] == "loc" and not lv:
                    return self.read_al(x[1], st)
                return x
            if op == "&":
                x = self.lvalue(e["e"], st, fr)
                if x[0] == "loc":
                    l = x[1]
                    if l[0] == "cell":
                        return ("ptr", l[1], l[2])
                    return ("ptr", ("adr", l), ZERO)
                return x
            v = self.rv(self.ev(e["e"], st, fr), st)
            return ("ap", op, v)
        if k == "Bin":
            return self.binop(e, st, fr, lv)
        if k == "Cond":
            c = self.cond(e["c"], st, fr)
            if c == TRUE:
                return self.ev(e["a"], st, fr, lv=lv)
            if c == FALSE:
                return self.ev(e["b"], st, fr, lv=lv)
            kn = self.known(st, c)
            if kn is True:
                return self.ev(e["a"], st, fr, lv=lv)
            if kn is False:
                return self.ev(e["b"], st, fr, lv=lv)
            s1 = self.assume(st, c) or st
            s2 = self.assume(st, tnot(c)) or st
            s1, s2 = s1.copy(), s2.copy()
            a = self.rv(self.ev(e["a"], s1, fr), s1)
            b = self.rv(self.ev(e["b"], s2, fr), s2)
            j = self.join(s1, s2)
            st.env, st.ver = j.env, j.ver
            return ite(c, a, b)
        if k == "Call":
            return self.call(e, st, fr, lv)
        if k == "Ctor":
            obj = ("L", "tmp" + str(self.uid(e)), fr.id, self.uid(e))
            if e.get("cp"):
                return self.ev(e["a"][0], st, fr, lv=lv) if e["a"] else obj
            for l in [l for l in st.env if l[0] == "fld" and self._under(l[1], obj)]:
                del st.env[l]
            self.construct(obj, e, st, fr)
            return obj
        if k == "InitList":
            t = e.get("t") or ""
            vals = [self.ev(x, st, fr) for x in e["a"]]
            if len(vals) == 1 and not self.isobj(t):
                return vals[0]
            return ("list",) + tuple(vals)
        if k == "New":
            obj = ("new", self.uid(e), fr.id)
            if e.get("arr"):
                n = self.rv(self.ev(e.get("n"), st, fr), st)
                st.env[("fld", obj, "$n")] = n
                return obj
            ini = strip(e["init"]) if e.get("init") else None
            if ini and ini["k"] == "Ctor":
                self.construct(obj, ini, st, fr)
            if not self.quiet:
                self.on_new(e, e["at"], None, obj, st, fr)
            return obj
        if k == "Delete":
            self.ev(e["e"], st, fr)
            return K(None)
        if k == "Throw":
            if e.get("e"):
                self.ev(e["e"], st, fr)
            if not self.quiet:
                self.on_throw(e, st, fr)
            return ("dead",)
        if k == "Lambda":
            return ("lam", self.uid(e), self._reg_lam(e, fr))
        if k == "X":
            for c in e["ch"]:
                self.ev(c, st, fr)
            return ("x", self.uid(e), fr.id)
        raise AnalysisError("expression kind %s" % k)

    def read_al(self, loc, st):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == "fld":
            # lazily resolve whole-object copies
            o, path = loc[1], []
            while True:
                src = st.env.get(("alias", o))
                if src is not None:
                    t = src
                    for x in reversed(path):
                        t = ("F", t, x)
                    return self.read_al(("fld", t, loc[2]), st)
                if o[0] == "F":
                    path.append(o[2])
                    o = o[1]
                else:
                    break
        return self.initial(loc, st)

    def _reg_lam(self, e, fr):
        if not hasattr(self, "lams"):
            self.lams = {}
        key = self.uid(e)
        self.lams[key] = (e, fr)
        return fr.id

    def call_lambda(self, lam, args, st, fr, node):
        e, lf = self.lams[lam[1]]
        if ("lam", lam[1]) in self.stack or len(self.stack) > self.max_depth:
            return ("call", self.uid(node), fr.id)
        g = {"f": ("lam", lam[1]), "q": lf.f["q"] + "::lambda", "p": e["p"], "body": e["body"],
             "lambda": True, "rt": e.get("rt", ""), "file": lf.f["file"], "l": e["l"], "n": "lambda"}
        nf = Frame(g, lf.this, lf.id + ("lam", self.uid(e)), fr.depth + 1, lf, node)
        vals = list(args)
        while len(vals) < len(e["p"]):
            vals.append(("p", e["p"][len(vals)]["n"]))
        r, v = self.enter(nf, vals, st)
        if r is None:
            return ("dead",)
        if r is not st:
            st.env, st.facts, st.ver = r.env, r.facts, r.ver
        return v

    def binop(self, e, st, fr, lv):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], st, fr)
            return self.ev(e["b"], st, fr)
        if op == "=":
            v = self.rv(self.ev(e["b"], st, fr), st)
            x = self.lvalue(e["a"], st, fr)
            if x[0] == "loc":
                self.write(x[1], v, st, e, fr)
                return x if lv else v
            self.copy_obj(v, x, st)
            return x
        if op in ("&&", "||"):
            a = self.cond(e["a"], st, fr)
            if op == "&&":
                if a == FALSE:
                    return FALSE
                s2 = self.assume(st, a)
            else:
                if a == TRUE:
                    return TRUE
                s2 = self.assume(st, tnot(a))
            if s2 is None:
                return a
            s2 = s2 if s2 is not st else st.copy()
            b = self.cond(e["b"], s2, fr)
            # side effects of b (rare) are merged
            if s2.env != st.env:
                j = self.join(st.copy(), s2)
                st.env, st.ver = j.env, j.ver
            return tand(a, b) if op == "&&" else tor(a, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a = self.rv(self.ev(e["a"], st, fr), st)
            b = self.rv(self.ev(e["b"], st, fr), st)
            ta, tb = e["a"].get("t"), e["b"].get("t")
            integer = self.node_int(e["a"]) and self.node_int(e["b"])
            boolean = "bool" in (self.node_t(e["a"]), self.node_t(e["b"]))
            return self.compare(op, a, b, integer, boolean)
        if op.endswith("=") and op not in ("==",):
            x = self.lvalue(e["a"], st, fr)
            v = self.rv(self.ev(e["b"], st, fr), st)
            if x[0] != "loc":
                return x
            old = self.read_al(x[1], st)
            new = self.arith(op[:-1], old, v)
            self.write(x[1], new, st, e, fr)
            return x if lv else new
        a = self.rv(self.ev(e["a"], st, fr), st)
        b = self.rv(self.ev(e["b"], st, fr), st)
        return self.arith(op, a, b, e)

    def node_t(self, e):
        e = strip(e)
        return base_type(e.get("dt") or e.get("t") or ("int" if e["k"] in ("Int", "Char") else "bool" if e["k"] == "Bool" else ""))

    def node_int(self, e):
        t = base_type(e.get("t") or ("int" if e["k"] in ("Int", "Char", "Bool", "Sizeof") else ""))
        return t in INTS

    def arith(self, op, a, b, e=None):
        if a == ("dead",) or b == ("dead",):
            return ("dead",)
        bt = ("ge0", "gt0", "eq0", "not", "and", "or", "tr")
        if a[0] in bt:
            a = ite(a, ONE, ZERO)
        if b[0] in bt:
            b = ite(b, ONE, ZERO)
        if op == "+":
            if e is not None and (e.get("t") or "").endswith("*"):
                if a[0] != "ptr" and (e["a"].get("t") or "").endswith("*"):
                    a = ("ptr", a, ZERO)
            return add(a, b)
        if op == "-":
            if e is not None and (e.get("t") or "").endswith("*") and a[0] != "ptr":
                a = ("ptr", a, ZERO)
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if e is not None and not (self.node_int(e["a"]) and self.node_int(e["b"])) and is_k(a) and is_k(b) and b[1]:
                try:
                    return K(a[1] / b[1])
                except TypeError:
                    pass
            return div(a, b)
        return ("ap", op, a, b)

    # ---------------------------------------------------------------- calls
    def call(self, e, st, fr, lv=False):
        P = self.P
        name = e.get("n")
        q = e.get("q") or ""
        # object
        obj = None
        if e.get("o") is not None:
            obj = self.ev(e["o"], st, fr, lv=True)
            if obj[0] == "loc":
                if e.get("ar") or (e["o"].get("t") or "").endswith("*"):
                    obj = self.read_al(obj[1], st)
                else:
                    obj = self.loc_obj(obj[1])
        fkey = e.get("f")
        g = P.funcs.get(fkey)
        args = self.args(e, st, fr, g)
        # calling a lambda / std::function object
        if e.get("callee") is not None:
            cal = self.rv(self.ev(e["callee"], st, fr), st)
            if cal[0] == "lam":
                return self.call_lambda(cal, args, st, fr, e)
            if cal[0] == "fn" and cal[1] in P.funcs:
                fkey, g, name = cal[1], P.funcs[cal[1]], P.funcs[cal[1]]["n"]
        if e.get("op") == "()" and obj is not None:
            o2 = obj
            if o2[0] != "lam":
                o2 = st.env.get(("alias", obj), obj)
            if o2[0] == "lam":
                return self.call_lambda(o2, args, st, fr, e)
        if not self.quiet:
            self.on_call(e, fkey, name, obj, args, st, fr)
        m = self.model_call(e, name, obj, args, st, fr)
        if m is not None:
            return m
        v = self.std_call(e, name, q, obj, args, st, fr, lv)
        if v is not None:
            return v
        # inline
        tg = P.targets(e) if e.get("virt") else ([fkey] if g else [])
        if g is not None and len(tg) == 1:
            g = P.funcs[tg[0]]
            if g["f"] not in self.stack and len(self.stack) < self.max_depth and self.want_inline(g["f"], e, fr):
                nf = Frame(g, obj if obj is not None else None, fr.id + (self.uid(e),), fr.depth + 1, fr, e)
                vals = list(args)
                r, v = self.enter(nf, vals, st)
                if not self.quiet:
                    self.after_call(e, fkey, name, obj, args, v, r, fr)
                if r is None:
                    return ("dead",)
                if r is not st:
                    st.env, st.facts, st.ver = r.env, r.facts, r.ver
                if v[0] == "loc" and not lv:
                    v = self.read_al(v[1], st)
                return v
        return self.opaque(e, fkey, name, obj, args, st, fr, tg)

    def opaque(self, e, fkey, name, obj, args, st, fr, tg):
        P = self.P
        q = e.get("q") or name
        # lambdas handed to an unexpanded function run there an unknown number of times
        for a in args:
            x = a
            if x[0] not in ("lam",):
                x = st.env.get(("alias", a), a) if a[0] == "L" else a
            if x[0] == "lam":
                s2 = st.copy()
                self.call_lambda(x, [], s2, fr, e)
                j = self.join(st.copy(), s2)
                st.env, st.ver = j.env, j.ver
        const = bool(e.get("cm"))
        pts = e.get("pt") or []
        fields = None
        if tg:
            fields = set()
            for t in tg:
                fields |= self.fmods.of(t)
        mut = False
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            nonconst = (pt.endswith("&") and not pt.startswith("const ")) or (
                pt.endswith("*") and not pt.startswith("const "))
            if not nonconst or (q.startswith("std::") and name in FORWARDING):
                continue
            if a[0] == "loc":
                mut = True
                self.write(a[1], ("call", self.uid(e), fr.id, i), st, e, fr)
            elif a[0] in ("L", "F", "f", "p", "this", "new", "G"):
                if fields is None or fields:
                    self.havoc_obj(a, st, fields)
                mut = True
            elif a[0] == "ptr":
                mut = True
                if a[1][0] == "adr":
                    self.write(a[1][1], ("call", self.uid(e), fr.id, i), st, e, fr)
        if obj is not None and not const and e.get("k") == "Call":
            if fields is None:
                if not (name in PURE_STD):
                    self.havoc_obj(obj, st)
                    mut = True
            elif fields:
                self.havoc_obj(obj, st, fields)
                mut = True
        elif obj is not None and fields:
            pass
        if not mut or name in PURE_STD or const:
            clean = tuple(self.rv(a, st) if a[0] == "loc" else a for a in args)
            if obj is not None:
                return ("ap", name or "?", obj) + clean
            return ("ap", q or "?") + clean
        return ("call", self.uid(e), fr.id)

    def std_call(self, e, name, q, obj, args, st, fr, lv):
        P = self.P
        R = lambda a: self.rv(a, st)
        oc = e.get("oc") or ""
        if q in ("std::any_of", "std::all_of", "std::none_of") and len(args) == 3:
            a, b, lam = R(args[0]), R(args[1]), args[2]
            lam = lam if lam[0] == "lam" else st.env.get(("alias", lam), lam)
            if a[:2] in (("ap", "begin"), ("ap", "cbegin")) and b[:2] in (("ap", "end"), ("ap", "cend")) and a[2:] == b[2:] and len(a) == 3 and lam[0] == "lam":
                # what holds for no (every) element holds for the generic one; that some element satisfies it says nothing about that one
                v = self.call_lambda(lam, [("loc", ("fld", a[2], ("at", ("any",))))], st, fr, e)
                if v == ("dead",):
                    return v
                c, u = self.truth(R(v), {"t": "bool"}), ("tr", ("call", self.uid(e), fr.id))
                return tand(c, u) if q == "std::all_of" else tor(c, u) if q == "std::any_of" else tnot(tor(c, u))
        if q in ("std::max", "std::min") and len(args) == 2:
            a, b = R(args[0]), R(args[1])
            if q == "std::max":
                return tmax(a, b)
            if a == b:
                return a
            return ("min", frozenset((a, b)))
        if q in ("std::move", "std::forward") and args:
            return args[0]
        if q in ("std::make_pair", "std::make_tuple"):
            return ("ap", name) + tuple(R(a) for a in args)
        if q in ("std::abs", "abs", "fabs", "std::isnan", "isnan", "std::sqrt", "std::pow"):
            return ("ap", name) + tuple(R(a) for a in args)
        if name in ("make_unique", "make_shared") and e.get("t", "").startswith("std::"):
            t = base_type(e["t"])
            o = ("new", self.uid(e), fr.id)
            h = ("L", "up%d" % self.uid(e), fr.id, self.uid(e))
            st.env[("fld", h, "$p")] = o
            if (e.get("mkt") or "").endswith("[]"):
                st.env[("fld", o, "$n")] = R(args[0]) if args else ZERO
            else:
                g = P.funcs.get(e.get("mk"))
                if not self.quiet:
                    self.on_new(e, e.get("mkc") or e.get("mkt"), args, o, st, fr)
                if g is not None and g["f"] not in self.stack and len(self.stack) < self.max_depth:
                    nf = Frame(g, o, fr.id + (self.uid(e),), fr.depth + 1, fr, e)
                    r, _ = self.enter(nf, args, st)
                    if r is not None and r is not st:
                        st.env, st.facts, st.ver = r.env, r.facts, r.ver
                elif e.get("mkc") in P.records:
                    self.default_init(o, e["mkc"], st, fr)
            return h
        if obj is not None and oc.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr")):
            if name in ("get",) or e.get("op") in ("->", "*"):
                v = self.read_al(("fld", obj, "$p"), st)
                return v
            if e.get("op") == "=":
                v = args[0]
                if v == K(None):
                    st.env[("fld", obj, "$p")] = v
                else:
                    st.env[("fld", obj, "$p")] = self.read_al(("fld", v, "$p"), st)
                return obj
            if e.get("op") == "[]":
                b = self.read_al(("fld", obj, "$p"), st)
                if self.isobj(e.get("t")):
                    return ("F", b, ("at", R(args[0])))
                loc = ("cell", b, R(args[0]))
                return ("loc", loc) if lv else self.read_al(loc, st)
            if name == "operator bool":
                return tnot(eq0(self.read_al(("fld", obj, "$p"), st)))
            if name == "release":
                return self.read_al(("fld", obj, "$p"), st)
            if name == "reset":
                st.env[("fld", obj, "$p")] = R(args[0]) if args else K(None)
                return K(None)
        if obj is not None and (oc.startswith("std::vector") or oc.startswith("std::map") or oc.startswith("std::array") or oc.startswith("std::deque")):
            if name == "at" or e.get("op") == "[]":
                i = R(args[0])
                if oc.startswith(("std::vector", "std::array", "std::deque")):
                    i = self.any_index(i, obj, st)
                t = e.get("t")
                if self.isobj(t):
                    return ("F", obj, ("at", i))
                loc = ("fld", obj, ("at", i))
                return ("loc", loc) if lv else self.read_al(loc, st)
            if name == "size":
                return self.read_al(("fld", obj, "size"), st)
            if name == "empty":
                return eq0(self.read_al(("fld", obj, "size"), st))
            if name == "data":
                return ("ptr", ("vec", obj), ZERO)
            if name in ("resize",):
                self.havoc_obj(obj, st)
                st.env[("fld", obj, "size")] = R(args[0])
                return K(None)
            if name == "clear":
                self.havoc_obj(obj, st)
                st.env[("fld", obj, "size")] = ZERO
                return K(None)
            if name in ("push_back", "emplace_back"):
                n0 = self.read_al(("fld", obj, "size"), st)
                self.write(("fld", obj, "size"), add(n0, ONE), st, e, fr)
                return K(None)
            if e.get("op") == "=":
                v = args[0]
                if v[0] == "loc":
                    v = self.loc_obj(v[1])
                self.copy_obj(v, obj, st)
                return obj
        if e.get("op") == "=" and obj is not None and args and not (e.get("f") in P.funcs):
            v = args[0]
            if v[0] == "loc":
                v = self.loc_obj(v[1])
            self.copy_obj(v, obj, st)
            return obj
        if e.get("op") in ("==", "!=", "<", ">", "<=", ">=") and e.get("f") not in P.funcs:
            xs = ([obj] if obj is not None else []) + [R(a) for a in args]
            if len(xs) == 2:
                if e["op"] in ("==", "!="):
                    x, y = sorted(xs, key=tid)
                    c = ("tr", ("ap", "==", x, y))
                    return c if e["op"] == "==" else tnot(c)
                return ("tr", ("ap", e["op"], xs[0], xs[1]))
        return None

    def any_index(self, i, obj, st):
        """an index that runs over the whole container denotes 'any element'"""
        if i[0] == "it":
            size = self.read_al(("fld", obj, "size"), st)
            if ge0(sub(sub(size, ONE), i)) in st.facts:
                return ("any",)
        return i


class FieldMods:
    """fields (by name) a function may assign, transitively through calls"""

    def __init__(self, P):
        self.P = P
        self.cache = P.__dict__.setdefault("_fmods", {})

    def of(self, key):
        if key in self.cache:
            return self.cache[key]
        # transitive closure by iterative DFS
        seen = self.P.reach([key])
        out = set()
        for k in seen:
            out |= self.direct(k)
        self.cache[key] = frozenset(out)
        return self.cache[key]

    def direct(self, key):
        d = self.P.__dict__.setdefault("_fdirect", {})
        if key in d:
            return d[key]
        f = self.P.funcs[key]
        out = set()
        if f.get("ctor"):
            pass
        for n in self.P.all_nodes(f):
            k = n["k"]
            t = None
            if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "<=", ">=", "!="):
                t = strip(n["a"])
            elif k == "Un" and n["op"].rstrip("p") in ("++", "--"):
                t = strip(n["e"])
            elif k == "Un" and n["op"] == "&":
                x = strip(n["e"])
                if x["k"] == "Mem":
                    t = x
            elif k == "Call" and n.get("op") == "=" and n.get("o") is not None:
                t = strip(n["o"])
            elif k == "Call" and n.get("o") is not None and not n.get("cm") and not n.get("in"):
                x = strip(n["o"])
                if x["k"] == "Mem":
                    t = x
                    if n.get("n") in PURE_STD:
                        t = None
            if t is not None and t["k"] == "Mem":
                out.add(t["n"])
            if k in ("Call", "Ctor"):
                for a, pt in zip(n["a"], n.get("pt") or []):
                    if a is not None and pt.endswith("&") and not pt.startswith("const "):
                        x = strip(a)
                        if x["k"] == "Mem":
                            out.add(x["n"])
        d[key] = frozenset(out)
        return d[key]
