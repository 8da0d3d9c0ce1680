"""Partial evaluation of option tables: what does a function yield for each
constant value of its option parameters?  (abstract evaluation with constant
arguments; nothing of /repo is executed)"""
import itertools
from .absint import Eval, K, TRUE, FALSE, is_k, base_type, mul, State, tnot
from .program import strip, walk


def enum_of(P, t):
    t = base_type(t)
    return t if t in P.enums else None


def enumerators(P, en):
    return [(x["n"], x["v"]) for x in P.enums[en]["v"]]


class Table(Eval):
    """collects outcomes of one run: returns (value), throws, constructions, calls"""

    def __init__(self, P, inline=None):
        super().__init__(P)
        self.rets, self.throws, self.news, self.called, self.stores = [], [], [], [], []
        self._inl = inline
        self.max_depth = 6

    def want_inline(self, fkey, node, frame):
        if self._inl is not None:
            return self._inl(fkey, node, frame)
        g = self.P.funcs[fkey]
        n = sum(1 for _ in walk(g.get("body")))
        return n < 400

    def model_call(self, node, name, obj, args, st, fr):
        R = [self.rv(a, st) for a in args]
        if name in ("starts_with", "ends_with", "iequals", "equals", "istarts_with", "iends_with", "strcmp", "strncmp") and len(R) >= 2:
            a, b = R[0], R[1]
            if is_k(a) and is_k(b) and isinstance(a[1], str) and isinstance(b[1], str):
                x, y = a[1], b[1]
                if name.startswith("i"):
                    x, y, name = x.lower(), y.lower(), name[1:]
                r = {"starts_with": lambda: x.startswith(y), "ends_with": lambda: x.endswith(y),
                     "equals": lambda: x == y, "strcmp": lambda: None, "strncmp": lambda: None}[name]()
                if name == "strcmp":
                    return K((x > y) - (x < y))
                if name == "strncmp":
                    if is_k(R[2]) and isinstance(R[2][1], int):
                        x, y = x[:R[2][1]], y[:R[2][1]]
                        return K((x > y) - (x < y))
                    return None
                return TRUE if r else FALSE
        if name == "strlen" and is_k(R[0]) and isinstance(R[0][1], str):
            return K(len(R[0][1]))
        return None

    def arith(self, op, a, b, e=None):
        if op == "/" and is_k(b) and isinstance(b[1], (int, float)) and not isinstance(b[1], bool) and b[1] \
                and not is_k(a) and not (e is not None and self.node_int(e["a"]) and self.node_int(e["b"])):
            return mul(a, K(1.0 / b[1]))
        return super().arith(op, a, b, e)

    def on_return(self, node, val, st, fr):
        if fr.depth == 0:
            self.rets.append((node, val, st.facts))

    def on_throw(self, node, st, fr):
        self.throws.append((node, fr))

    def on_new(self, node, cls, args, obj, st, fr):
        self.news.append((node, cls, fr))

    def on_call(self, node, fkey, name, obj, args, st, fr):
        self.called.append((node, fkey, name, obj, args, fr))

    def on_store(self, loc, val, node, st, fr):
        self.stores.append((loc, val, node))


def evaluate(P, f, consts, inline=None, this=None, facts=(), cls=Table):
    """run f with parameters named in consts (name -> python value) fixed"""
    t = cls(P, inline) if cls is Table else cls(P)
    args = []
    for p in f["p"]:
        args.append(K(consts[p["n"]]) if p["n"] in consts else None)
    st, v = t.run(f["f"], this=this, args=args, facts=facts)
    t.end_state, t.result = st, v
    return t


def combos(P, f):
    """all assignments of enumerators to the enum parameters of f"""
    ps = [(p["n"], enum_of(P, p["t"])) for p in f["p"] if enum_of(P, p["t"])]
    for c in itertools.product(*[enumerators(P, e) for _, e in ps]):
        yield [(n, e, en, v) for (n, e), (en, v) in zip(ps, c)]
