"""Which memory a function may write, in terms of what it was given (compositional points-to and mod analysis).

Locations are access paths: ('P', i) what parameter i refers to, ('T',) the receiver, ('L', id) a local or temporary,
('N', id) memory allocated here, ('G', name) static storage, ('R',) the returned object; ('f', loc, field) a member,
('e', loc) the elements of a container, ('d', loc) what the pointer stored at loc pointed to on entry.
Elements of one array are one location. Pointers are followed flow-sensitively; summaries are applied at calls.
"""
from .program import strip, walk, kids
from .absint import base_type

DEPTH = 8
PTRLIKE = ("std::unique_ptr", "std::shared_ptr", "__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
           "std::reverse_iterator", "std::reference_wrapper", "Rcpp::Vector", "Rcpp::Matrix", "Rcpp::internal", "Rcpp::PreserveStorage", "std::__shared_ptr_access", "std::_Deque_iterator")
SMART = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr_access")
CONT = ("std::vector", "std::map", "std::set", "std::multiset", "std::multimap", "std::stack", "std::queue", "std::deque", "std::tuple",
        "std::pair", "std::array", "std::initializer_list", "std::unordered_map", "std::unordered_set", "std::list", "std::optional")
WRITES_THROUGH = {  # std algorithms: positions of the (begin) iterators they write through
    "sort": (0,), "stable_sort": (0,), "partial_sort": (0,), "nth_element": (0,), "fill": (0,), "fill_n": (0,), "iota": (0,), "shuffle": (0,),
    "reverse": (0,), "rotate": (0,), "generate": (0,), "unique": (0,), "remove": (0,), "remove_if": (0,), "replace": (0,), "copy": (2,),
    "copy_n": (2,), "copy_if": (2,), "copy_backward": (2,), "transform": (2, 3), "partial_sum": (2,), "memcpy": (0,), "memmove": (0,),
    "memset": (0,), "swap_ranges": (0, 2), "inplace_merge": (0,), "merge": (4,), "iter_swap": (0, 1), "make_heap": (0,), "sort_heap": (0,),
    "random_shuffle": (0,), "replace_if": (0,), "move": (), "inclusive_scan": (2,), "exclusive_scan": (2,), "adjacent_difference": (2,)}
READS = {"dcopy_": (3,), "ddot_": (), "dgemm_": (11,), "dgemv_": (9,), "dsyrk_": (8,), "dsymm_": (10,)}     # what they write
ACCESS = {"at", "operator[]", "front", "back", "top", "value", "operator*", "data", "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound"}
KEEPS = {"size", "empty", "count", "capacity", "reserve", "shrink_to_fit", "c_str", "length"}


def is_ptr(t):
    t = (t or "").strip()
    if t.endswith("&"):
        t = t.rstrip("&").rstrip()
    if t.endswith("const"):
        t = t[:-5].rstrip()
    return t.endswith("*") or t.endswith("]") and False


def ptrlike(t):
    if is_ptr(t):
        return True
    b = base_type(t or "")
    return b.startswith(PTRLIKE) or b.startswith("std::function") or b.startswith("(lambda")


def is_rhandle(t):
    return base_type(t or "").startswith(("Rcpp::", "SEXPREC"))


def pointee_const(t):
    """a pointer or reference to const"""
    t = (t or "").strip()
    for suf in ("&&", "&"):
        if t.endswith(suf):
            return t.startswith("const ") and not t[:-len(suf)].rstrip().endswith("*") or t[:-len(suf)].rstrip().endswith("*const") and False
    if t.endswith("const"):
        t = t[:-5].rstrip()
    if t.endswith("*"):
        u = t[:-1].rstrip()
        if u.endswith("*"):
            return False
        return u.startswith("const ") or u.endswith(" const")
    b = base_type(t)
    if b.startswith(SMART):
        return "<const " in b
    return False


def root(l):
    while l[0] in ("f", "e", "d"):
        l = l[1]
    return l


def depth(l):
    n = 0
    while l[0] in ("f", "e", "d"):
        l = l[1]
        n += 1
    return n


def F(l, n):
    return ("f", l, n) if depth(l) < DEPTH else l


def E(l):
    if l[0] == "e" and l[1][0] == "e":
        return l
    return ("e", l) if depth(l) < DEPTH else l


def D(l):
    return ("d", l) if depth(l) < DEPTH else l


def lshow(l, f=None):
    k = l[0]
    if k == "P":
        return f["p"][l[1]]["n"] if f and l[1] < len(f["p"]) else "arg%d" % l[1]
    if k == "T":
        return "this"
    if k == "G":
        return l[1]
    if k == "f":
        return lshow(l[1], f) + "." + str(l[2])
    if k == "e":
        return lshow(l[1], f) + "[]"
    if k == "d":
        return "*" + lshow(l[1], f)
    return "%s" % (l,)


class Summary:
    __slots__ = ("mods", "out", "ret", "lret", "loads")

    def __init__(self):
        self.mods = {}      # loc -> (where, via)
        self.out = {}       # ptrloc -> frozenset(pointees)
        self.ret = frozenset()
        self.lret = frozenset()
        self.loads = {}

    def key(self):
        return (frozenset(self.mods), tuple(sorted((str(k), tuple(sorted(map(str, v)))) for k, v in self.out.items())), self.ret, self.lret)


class ModRef:
    def __init__(self, P, skip=None):
        self.P = P
        self.sum = {}
        self.busy = set()
        self.skip = skip or (lambda f: False)
        self.unknown = {}
        self.rec = set()
        self.n_calls = 0
        self.suspect = None

    def split(self, f, s):
        """analyse f once for each value of the flags it tests, so that tests of the same flag agree"""
        at = sorted(atoms(f), key=str)[:6]
        if not at:
            return s
        parts = []
        for m in range(1 << len(at)):
            parts.append(Fn(self, f, {a: bool(m >> i & 1) for i, a in enumerate(at)}).run())
        r = Summary()
        for p in parts:
            for l, v in p.mods.items():
                r.mods.setdefault(l, v)
            r.ret |= p.ret
            r.lret |= p.lret
        for k in {k for p in parts for k in p.out}:
            v = frozenset()
            for p in parts:
                if k in p.out:
                    v |= p.out[k]
                elif k[0] != "~" and root(k)[0] not in ("N", "R"):
                    v |= frozenset([D(k)])
            r.out[k] = v
        return r

    def of(self, key):
        if key in self.sum and key not in self.rec:
            return self.sum[key]
        if key in self.busy:
            self.rechit = True
            self.cyc.add(key)
            return self.sum.setdefault(key, Summary())
        f = self.P.funcs[key]
        self.busy.add(key)
        if not hasattr(self, "cyc"):
            self.cyc = set()
        try:
            for _ in range(4):
                s = Fn(self, f).run()
                old = self.sum.get(key)
                self.sum[key] = s
                if key not in self.cyc or old is not None and old.key() == s.key():
                    break
            if self.suspect is not None and key not in self.cyc and self.suspect(f, s):
                self.sum[key] = self.split(f, s)
            self.cyc.discard(key)
        finally:
            self.busy.discard(key)
        return self.sum[key]


def atom_of(e):
    """a flag whose value stays the same during a call: a bool member, a bool or pointer parameter"""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "Mem" and strip(e["b"])["k"] == "This" and base_type(e.get("t")) == "bool":
        return ("T", e["n"])
    if e["k"] == "Ref" and e.get("dk") == "parm" and (base_type(e.get("t")) == "bool" or is_ptr(e.get("t"))):
        return ("P", e["d"])
    return None


def atoms(f):
    out, bad = set(), set()
    for n in walk(f.get("body")):
        if n["k"] in ("If", "Cond"):
            st = [n["c"]]
            while st:
                c = strip(st.pop())
                if c is None:
                    continue
                if c["k"] == "Bin" and c["op"] in ("&&", "||"):
                    st += [c["a"], c["b"]]
                elif c["k"] == "Un" and c["op"] == "!":
                    st.append(c["e"])
                else:
                    a = atom_of(c)
                    if a:
                        out.add(a)
        if n["k"] == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            a = atom_of(n["a"])
            if a:
                bad.add(a)
    return out - bad


class Fn:
    def __init__(self, M, f, assume=None):
        self.M, self.P, self.f = M, M.P, f
        self.assume = assume or {}
        self.env = {}
        self.mods = {}
        self.ret, self.lret = set(), set()
        self.refs = {}
        self.lams = {}
        self.rets = []
        self.dead = False
        self.lamdepth = 0
        self.brk = []
        self.uids = {}

    def uid(self, n):
        return (self.f["f"], self.uids.setdefault(id(n), len(self.uids)))

    # ---- memory
    def get(self, loc):
        if loc in self.env:
            return self.env[loc]
        # below something copied
        pre, path = loc, []
        while pre[0] in ("f", "e", "d"):
            k = ("~", pre)
            if k in self.env:
                out = set()
                for s in self.env[k]:
                    x = s
                    for st in reversed(path):
                        x = (st[0], x) + st[1:]
                    out |= self.get(x) if depth(x) <= DEPTH + 2 else set()
                return frozenset(out)
            path.append((pre[0],) + pre[2:])
            pre = pre[1]
        k = ("~", pre)
        if k in self.env:
            out = set()
            for s in self.env[k]:
                x = s
                for st in reversed(path):
                    x = (st[0], x) + st[1:]
                out |= self.get(x)
            return frozenset(out)
        if pre[0] in ("L", "N", "R"):
            return frozenset()
        return frozenset([D(loc)])

    def put(self, loc, vals, weak=False):
        vals = frozenset(vals)
        x, many = loc, False
        while x[0] in ("f", "e", "d"):
            if x[0] == "e":
                many = True
            x = x[1]
        if weak or many:
            vals = vals | self.get(loc)
        self.env[loc] = vals

    def under(self, l, o):
        while True:
            if l == o:
                return True
            if l[0] in ("f", "e"):
                l = l[1]
            else:
                return False

    def rebase(self, l, o, n):
        if l == o:
            return n
        return (l[0], self.rebase(l[1], o, n)) + l[2:]

    def copy(self, src, dst, weak=False):
        """dst becomes a (shallow) copy of one of src"""
        src = {s for s in src if s != dst}
        if not src:
            return
        if not weak and dst[0] != "e":
            for l in [l for l in self.env if (l[0] != "~" and self.under(l, dst)) or (l[0] == "~" and self.under(l[1], dst))]:
                del self.env[l]
        new = {}
        for s in src:
            for l in [l for l in self.env if l[0] != "~" and self.under(l, s)]:
                k = self.rebase(l, s, dst)
                new[k] = new.get(k, frozenset()) | self.env[l]
            for l in [l for l in self.env if l[0] == "~" and self.under(l[1], s) and l[1] != s]:
                k = ("~", self.rebase(l[1], s, dst))
                new[k] = new.get(k, frozenset()) | self.env[l]
        al = set()
        for s in src:
            al.add(s)
        if len(src) > 1 or weak:
            # a field known in one source only: add the other's
            for k in list(new):
                if k[0] == "~":
                    continue
                for s in src:
                    new[k] |= self.get(self.rebase(k, dst, s))
        for k, v in new.items():
            if weak and k[0] != "~":
                v = v | self.get(k)
            self.env[k] = v
        k = ("~", dst)
        self.env[k] = (self.env.get(k, frozenset()) if weak else frozenset()) | self.snapshot(al)

    def snapshot(self, srcs):
        """sources that are stable: resolve aliases of aliases"""
        out = set()
        for s in srcs:
            pre = s
            hit = self.env.get(("~", s))
            if hit and s[0] in ("L",):
                out |= hit
            else:
                out.add(s)
        return frozenset(out)

    def mod(self, locs, node, via=None):
        for l in locs:
            if l[0] == "fn" or l[0] == "lam":
                continue
            r = root(l)
            if r[0] == "Q":
                n = r[1][2]
                if n is not None:
                    self.M.__dict__.setdefault("lammods", {}).setdefault((self.f["q"], n), (self.f["q"], n, self.P.where(self.f, node), 0))
                continue
            if r[0] in ("L", "R"):
                continue
            if l not in self.mods:
                self.mods[l] = (self.P.where(self.f, node), via, node)

    # ---- run
    def run(self):
        f = self.f
        for i, p in enumerate(f.get("p") or []):
            t = p["t"]
            if t.rstrip().endswith("&"):
                self.refs[p["d"]] = frozenset([("P", i)])
            elif is_ptr(t):
                self.env[("L", p["d"])] = frozenset([("P", i)])
            elif base_type(t).startswith(PTRLIKE):
                self.env[("L", p["d"])] = frozenset([("P", i)])
            elif ptrlike(t):
                self.env[("L", p["d"])] = frozenset()
            else:
                self.env[("~", ("L", p["d"]))] = frozenset([("P", i)])
        if f.get("ctor"):
            for i in f.get("inits") or []:
                self.init(i)
            if not f.get("deleg"):
                pass
        if f.get("body"):
            self.stmt(f["body"])
        s = Summary()
        envs = self.rets + ([] if self.dead else [self.env])
        env = envs[0] if envs else {}
        for e in envs[1:]:
            env = self.join(env, e)
        self.env = env
        for l, v in self.mods.items():
            if root(l)[0] != "N":
                s.mods[l] = v
        for l, v in env.items():
            if l[0] == "~":
                r = root(l[1])
                if r[0] in ("L", "Q"):
                    continue
                vv = frozenset(x for x in v if root(x)[0] not in ("L", "Q"))
                if vv:
                    s.out[l] = vv
                continue
            r = root(l)
            if r[0] in ("L", "Q"):
                continue
            vv = frozenset(x for x in v if root(x)[0] not in ("L", "lam", "Q"))
            if r[0] not in ("N", "R") and vv == frozenset([D(l)]):
                continue
            s.out[l] = vv
        s.ret = frozenset(x for x in self.ret if root(x)[0] not in ("L", "lam", "Q"))
        s.lret = frozenset(x for x in self.lret if root(x)[0] not in ("L", "lam", "Q"))
        return s

    def init(self, i):
        e = i.get("e")
        fld = i.get("m") or i.get("n")
        if e is None:
            return
        if fld is None or i.get("base") or i.get("deleg"):
            dst = ("T",)
            e0 = strip(e)
            if e0["k"] == "Ctor":
                self.construct(dst, e0)
            else:
                self.ev(e0)
            return
        dst = F(("T",), fld)
        self.assign_init(dst, i.get("t") or self.ftype(fld), e)

    def ftype(self, n):
        c = self.f.get("c")
        for _, fd in self.P.all_fields(c) if c else []:
            if fd["n"] == n:
                return fd["t"]
        return ""

    def assign_init(self, dst, t, e):
        e0 = strip(e)
        if (t or "").rstrip().endswith("&"):
            self.put(dst, self.lv(e))
            return
        if ptrlike(t):
            self.put(dst, self.pv(e))
            return
        if e0["k"] == "Ctor":
            self.construct(dst, e0)
            return
        if e0["k"] == "InitList":
            for a in e0["a"]:
                if ptrlike(a.get("t")):
                    self.put(E(dst), self.pv(a), weak=True)
                else:
                    self.ev(a)
            return
        if self.isclass(t):
            self.copy(self.lv(e), dst)
            return
        self.ev(e)

    def isclass(self, t):
        b = base_type(t or "")
        if is_ptr(t) or not b or b in ("void", "double", "float", "auto"):
            return False
        return b in self.P.records or "::" in b and b not in self.P.enums or b.startswith("(lambda")

    # ---- states
    def join(self, a, b):
        if a is b:
            return a
        out = {}
        save = self.env
        for k in set(a) | set(b):
            va, vb = a.get(k), b.get(k)
            if k[0] == "~":
                out[k] = (va or frozenset()) | (vb or frozenset())
                continue
            if va is None:
                self.env = a
                va = self.get(k)
            if vb is None:
                self.env = b
                vb = self.get(k)
            out[k] = va | vb
        self.env = save
        return out

    def branch(self, *stms):
        base, outs = dict(self.env), []
        for s in stms:
            self.env = dict(base)
            self.dead = False
            if s is not None:
                s() if callable(s) else self.stmt(s)
            if not self.dead:
                outs.append(self.env)
        if not outs:
            self.dead = True
            self.env = base
            return
        self.dead = False
        e = outs[0]
        for o in outs[1:]:
            e = self.join(e, o)
        self.env = e

    def stmt(self, n):
        if n is None or self.dead:
            return
        k = n["k"]
        if k == "Block":
            for s in n["s"]:
                self.stmt(s)
            return
        if k == "Expr":
            self.ev(n["e"])
            if strip(n["e"]) and strip(n["e"])["k"] == "Throw":
                self.dead = True
            return
        if k == "Decl":
            for v in n["v"]:
                self.decl(v)
            return
        if k == "If":
            if n.get("init"):
                self.stmt(n["init"])
            if n.get("cv"):
                self.stmt(n["cv"]) if n["cv"].get("k") == "Decl" else self.decl(n["cv"])
            cxv = n.get("cxv")
            self.ev(n.get("c"))
            if n.get("cx") and cxv is not None:
                self.stmt(n["a"] if cxv else n.get("b"))
                return
            if self.assume:
                v = self.value(n.get("c"))
                if v is not None:
                    self.stmt(n["a"] if v else n.get("b"))
                    return
            self.branch(n["a"], n.get("b"))
            return
        if k in ("For", "While", "DoWhile", "RangeFor"):
            if n.get("i"):
                self.stmt(n["i"])
            cont = None
            if k == "RangeFor":
                cont = self.lv(n["r"])
            self.brk.append([])
            for it in range(4):
                before = dict(self.env)

                def one():
                    if k != "DoWhile" and n.get("c"):
                        self.ev(n["c"])
                    if k == "RangeFor":
                        self.rangevar(n["v"], cont)
                    self.stmt(n["b"])
                    if self.dead and self.brk[-1]:
                        self.dead = False
                        e = self.brk[-1][0]
                        for o in self.brk[-1][1:]:
                            e = self.join(e, o)
                        self.env = e
                    elif not self.dead:
                        for o in self.brk[-1]:
                            self.env = self.join(self.env, o)
                    if n.get("n"):
                        self.ev(n["n"])
                self.branch(one, None)
                self.dead = False
                if self.env == before:
                    break
            self.brk.pop()
            return
        if k == "Return":
            if n.get("e") is not None:
                rt = self.f.get("rt") or ""
                if self.lamdepth:
                    t = n["e"].get("t") or ""
                    if ptrlike(t):
                        self.lamret |= self.pv(n["e"])
                    else:
                        self.ev(n["e"])
                elif rt.rstrip().endswith("&"):
                    self.lret |= self.lv(n["e"])
                elif ptrlike(rt):
                    self.ret |= self.pv(n["e"])
                elif self.isclass(rt):
                    self.copy(self.lv(n["e"]), ("R",))
                else:
                    self.ev(n["e"])
            if not self.lamdepth:
                self.rets.append(self.env)
            else:
                self.lamrets[-1].append(self.env)
            self.dead = True
            return
        if k in ("Break", "Continue"):
            if self.brk:
                self.brk[-1].append(self.env)
            self.dead = True
            return
        if k == "Switch":
            self.ev(n["c"])
            self.brk.append([])
            body = n["b"]["s"] if n["b"]["k"] == "Block" else [n["b"]]
            base = dict(self.env)
            for s in body:
                x = s
                if x["k"] in ("Case", "Default"):
                    if self.dead:
                        self.env, self.dead = dict(base), False
                    else:
                        self.env = self.join(self.env, base)
                self.stmt(s)
            outs = self.brk.pop() + ([] if self.dead else [self.env]) + [base]
            self.dead = False
            e = outs[0]
            for o in outs[1:]:
                e = self.join(e, o)
            self.env = e
            return
        if k in ("Case", "Default", "Label"):
            self.dead = False
            self.stmt(n.get("s"))
            return
        if k == "Try":
            base = dict(self.env)
            self.stmt(n["b"])
            outs = [] if self.dead else [self.env]
            mid = self.join(base, self.env)
            for h in n["h"]:
                self.env, self.dead = dict(mid), False
                self.stmt(h.get("b") if "b" in h else h)
                if not self.dead:
                    outs.append(self.env)
            self.dead = not outs
            if outs:
                e = outs[0]
                for o in outs[1:]:
                    e = self.join(e, o)
                self.env = e
            return
        if k == "OMP":
            self.stmt(n.get("b"))
            return
        if k in ("Null", "Goto"):
            return
        if k == "XS":
            for c in n["ch"]:
                self.stmt(c)
            return
        if "e" in n or "a" in n:
            self.ev(n)

    def value(self, c):
        c = strip(c)
        if c is None:
            return None
        if c["k"] == "Bin" and c["op"] in ("&&", "||"):
            a, b = self.value(c["a"]), self.value(c["b"])
            z = c["op"] == "||"
            if a is z or b is z:
                return z
            return None if a is None or b is None else (not z)
        if c["k"] == "Un" and c["op"] == "!":
            a = self.value(c["e"])
            return None if a is None else not a
        return self.assume.get(atom_of(c))

    def rangevar(self, v, cont):
        t = v["t"]
        el = frozenset(E(c) for c in cont)
        if t.rstrip().endswith("&"):
            self.refs[v["d"]] = el
        elif ptrlike(t):
            out = set()
            for x in el:
                out |= self.get(x)
            self.env[("L", v["d"])] = frozenset(out)
        else:
            self.copy(el, ("L", v["d"]))
        if v.get("binding"):
            for b in v.get("bs") or []:
                self.refs[b["d"]] = frozenset(E(x) for x in el)

    def decl(self, v):
        t, d, e = v.get("t") or "", v.get("d"), v.get("init")
        if v.get("binding"):
            return
        dst = ("L", d)
        if v.get("static"):
            dst = ("G", "%s::%s%s" % (self.f["q"], v["n"], "@thread" if v.get("tls") else ""))
            self.refs[d] = frozenset([dst])
        if e is None:
            return
        e0 = strip(e)
        if e0["k"] == "Lambda":
            self.lams[d] = e0
            self.put(dst, [("lam", self.lamid(e0))])
            return
        if t.rstrip().endswith("&"):
            self.refs[d] = self.lv(e)
            return
        # a fresh object in every iteration
        for l in [l for l in self.env if (self.under(l, dst) if l[0] != "~" else self.under(l[1], dst))]:
            del self.env[l]
        self.assign_init(dst, t, e)

    def lamid(self, e):
        u = self.uid(e)
        self.M.__dict__.setdefault("lamtab", {})[u] = e
        return u

    # ---- expressions
    def ev(self, e):
        """evaluate for effects"""
        if e is None:
            return
        t = e.get("t") or ""
        if ptrlike(t):
            self.pv(e)
        else:
            self.lv(e)

    def pv(self, e):
        """pointees of a pointer-like expression"""
        if e is None:
            return frozenset()
        k = e["k"]
        t = e.get("t") or ""
        if k in ("ICast", "Cast"):
            if is_ptr(t) or not is_ptr(e["e"].get("t") or ""):
                it = e["e"].get("t") or ""
                if it.rstrip().endswith("]"):
                    return self.lv(e["e"])
                return self.pv(e["e"])
            self.ev(e["e"])
            return frozenset()
        if k == "This":
            return frozenset([("T",)]) if not getattr(self, "lthis", None) else self.lthis
        if k in ("Null", "Int", "Str", "ZeroInit", "Bool", "Float", "Char", "Sizeof"):
            return frozenset()
        if k == "Ref" and e.get("dk") == "func":
            return frozenset([("fn", e["f"])])
        if k in ("Ref", "Mem", "Sub"):
            if t.rstrip().endswith("]"):
                return self.lv(e)
            out = set()
            for l in self.lv(e):
                out |= self.get(l)
            return frozenset(out)
        if k == "Un":
            op = e["op"]
            if op == "&":
                return self.lv(e["e"])
            if op in ("++", "--", "++p", "--p"):
                ls = self.lv(e["e"])
                out = set()
                for l in ls:
                    out |= self.get(l)
                return frozenset(out)
            if op == "*":
                out = set()
                for l in self.pv(e["e"]):
                    out |= self.get(l)
                return frozenset(out)
            return self.pv(e["e"])
        if k == "Bin":
            if e["op"] == "=":
                v = self.pv(e["b"])
                for l in self.lv(e["a"]):
                    self.put(l, v)
                    self.mod([l], e)
                return v
            if e["op"] in ("+=", "-="):
                self.ev(e["b"])
                out = set()
                for l in self.lv(e["a"]):
                    out |= self.get(l)
                return frozenset(out)
            if e["op"] == ",":
                self.ev(e["a"])
                return self.pv(e["b"])
            out = frozenset()
            for s in (e["a"], e["b"]):
                st = s.get("t") or ""
                if ptrlike(st):
                    out |= self.pv(s)
                elif st.rstrip().endswith("]"):
                    out |= self.lv(s)
                else:
                    self.ev(s)
            return out
        if k == "Cond":
            self.ev(e["c"])
            base = dict(self.env)
            a = self.pv(e["a"])
            e1, self.env = self.env, base
            b = self.pv(e["b"])
            self.env = self.join(e1, self.env)
            return a | b
        if k == "New":
            o = ("N", self.uid(e))
            if e.get("n"):
                self.ev(e["n"])
            ini = strip(e["init"]) if e.get("init") else None
            if ini is not None:
                if ini["k"] == "Ctor":
                    self.construct(o, ini)
                else:
                    self.ev(ini)
            return frozenset([o])
        if k == "Lambda":
            return frozenset([("lam", self.lamid(e))])
        if k == "Call":
            return self.call(e)[0]
        if k == "Ctor":
            b = base_type(e.get("c") or t)
            out = set()
            if b.startswith(("Rcpp::Vector", "Rcpp::Matrix")) and not (e["a"] and (
                    is_rhandle(e["a"][0].get("t")) or e.get("cp"))):
                for a in e["a"]:
                    self.ev(a)
                return frozenset([("N", self.uid(e))])
            for a in e["a"]:
                at = a.get("t") or ""
                if ptrlike(at) or strip(a)["k"] == "Lambda":
                    out |= self.pv(a)
                else:
                    self.ev(a)
            return frozenset(out)
        if k == "InitList":
            out = set()
            for a in e["a"]:
                if ptrlike(a.get("t") or ""):
                    out |= self.pv(a)
                else:
                    self.ev(a)
            return frozenset(out)
        if k == "Throw":
            self.ev(e.get("e"))
            return frozenset()
        for c in kids(e):
            self.ev(c)
        return frozenset()

    def tmp(self, e):
        return ("L", ("tmp",) + self.uid(e))

    def lv(self, e):
        """locations an lvalue (or class-valued) expression designates"""
        if e is None:
            return frozenset()
        k = e["k"]
        if k in ("ICast", "Cast"):
            if ptrlike(e["e"].get("t") or "") and not ptrlike(e.get("t") or ""):
                self.pv(e["e"])
                return frozenset()
            return self.lv(e["e"])
        if k == "Ref":
            d = e.get("d")
            if e.get("dk") in ("var", "parm", "binding", "slocal") and d is not None:
                if d in self.refs:
                    return self.refs[d]
                return frozenset([("L", d)])
            if e.get("dk") in ("global", "slocal", "var") and e.get("q"):
                return frozenset([("G", e["q"] + ("@thread" if e.get("tls") else ""))])
            return frozenset()
        if k == "Mem":
            bt = e["b"].get("t") or ""
            base = self.pv(e["b"]) if e.get("ar") or (is_ptr(bt) and not bt.endswith("&")) else self.lv(e["b"])
            out = frozenset(F(b, e["n"]) for b in base)
            if (e.get("dt") or "").rstrip().endswith("&"):
                o2 = set()
                for l in out:
                    o2 |= self.get(l)
                return frozenset(o2)
            return out
        if k == "Sub":
            self.ev(e["i"])
            bt = e["b"].get("t") or ""
            if ptrlike(bt):
                ps = self.pv(e["b"])
            else:
                ps = self.lv(e["b"])
            return ps
        if k == "Un":
            if e["op"] == "*":
                return self.pv(e["e"])
            if e["op"] in ("++", "--", "++p", "--p"):
                ls = self.lv(e["e"])
                self.mod(ls, e)
                return ls
            if e["op"] == "&":
                return frozenset()
            self.ev(e["e"])
            return frozenset()
        if k == "This":
            return frozenset([("T",)])
        if k == "Bin":
            op = e["op"]
            if op == "=" or op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                if ptrlike(e.get("t") or "") and op == "=":
                    self.pv(e)
                    return self.lv(e["a"])
                ls = None
                if op == "=" and self.isclass(e.get("t")):
                    src = self.lv(e["b"])
                    ls = self.lv(e["a"])
                    for l in ls:
                        self.copy(src, l, weak=len(ls) > 1)
                else:
                    self.ev(e["b"])
                    ls = self.lv(e["a"])
                self.mod(ls, e)
                return ls
            if op == ",":
                self.ev(e["a"])
                return self.lv(e["b"])
            if op in ("&&", "||"):
                self.ev(e["a"])
                base = dict(self.env)
                self.ev(e["b"])
                self.env = self.join(base, self.env)
                return frozenset()
            self.ev(e["a"])
            self.ev(e["b"])
            return frozenset()
        if k == "Cond":
            self.ev(e["c"])
            base = dict(self.env)
            a = self.lv(e["a"]) if not ptrlike(e["a"].get("t") or "") else (self.ev(e["a"]) or frozenset())
            e1, self.env = self.env, base
            b = self.lv(e["b"]) if not ptrlike(e["b"].get("t") or "") else (self.ev(e["b"]) or frozenset())
            self.env = self.join(e1, self.env)
            return a | b
        if k == "Call":
            r = self.call(e)
            return r[1]
        if k == "Ctor":
            if e.get("cp") and e["a"]:
                if strip(e["a"][0])["k"] == "Ctor" and False:
                    return self.lv(e["a"][0])
                o = self.tmp(e)
                self.copy(self.lv(e["a"][0]), o)
                return frozenset([o])
            o = self.tmp(e)
            for l in [l for l in self.env if (self.under(l, o) if l[0] != "~" else self.under(l[1], o))]:
                del self.env[l]
            self.construct(o, e)
            return frozenset([o])
        if k == "InitList":
            o = self.tmp(e)
            for a in e["a"]:
                if ptrlike(a.get("t") or ""):
                    self.put(E(o), self.pv(a), weak=True)
                elif self.isclass(a.get("t") or ""):
                    self.copy(self.lv(a), E(o), weak=True)
                else:
                    self.ev(a)
            return frozenset([o])
        if k == "Lambda":
            self.runlam(e, None, e)
            return frozenset()
        if k == "Throw":
            self.ev(e.get("e"))
            return frozenset()
        if k == "Delete":
            self.ev(e["e"])
            return frozenset()
        if k in ("Int", "Float", "Char", "Bool", "Str", "Null", "ZeroInit", "Sizeof"):
            return frozenset()
        if ptrlike(e.get("t") or ""):
            return frozenset()
        for c in kids(e):
            self.ev(c)
        return frozenset()

    def runlam(self, e, args, node):
        u = self.uid(e)
        if u in self.__dict__.setdefault("lamstack", []) or not e.get("body"):
            return frozenset()
        self.lamstack.append(u)
        for i, p in enumerate(e["p"]):
            v = args[i] if args and i < len(args) else None
            t = p["t"]
            if t.rstrip().endswith("&"):
                self.refs[p["d"]] = v[1] if v else frozenset([("Q", (u, i, p["n"] if pointee_const(t) else None))])
            elif ptrlike(t):
                self.env[("L", p["d"])] = v[0] if v else frozenset()
            elif v:
                self.copy(v[1], ("L", p["d"]))
        save = getattr(self, "lamret", set()), self.brk
        self.lamret, self.brk = set(), []
        self.__dict__.setdefault("lamrets", []).append([])
        self.lamdepth += 1
        self.stmt(e["body"])
        outs = self.lamrets.pop() + ([] if self.dead else [self.env])
        if outs:
            x = outs[0]
            for o in outs[1:]:
                x = self.join(x, o)
            self.env = x
        self.dead = False
        self.lamdepth -= 1
        r = frozenset(self.lamret)
        self.lamret, self.brk = save
        self.lamstack.pop()
        return r

    # ---- calls
    def args(self, a, pts):
        out = []
        for i, x in enumerate(a):
            pt = pts[i] if i < len(pts) else ""
            xt = x.get("t") or ""
            x0 = strip(x)
            if x0["k"] == "Lambda":
                out.append((frozenset([("lam", self.lamid(x0))]), frozenset(), x))
                continue
            if x0["k"] == "Ctor" and (x0.get("c") or "").startswith("std::function"):
                out.append((self.pv(x0), frozenset(), x))
                continue
            if pt.rstrip().endswith("&") and not (ptrlike(xt) and x0["k"] in ("Call", "New", "Ctor", "Un", "Bin", "Cond", "This") and not self.is_lval(x0)):
                l = self.lv(x)
                p = frozenset()
                if ptrlike(xt):
                    for y in l:
                        p |= self.get(y)
                out.append((p, l, x))
            elif ptrlike(xt) or xt.rstrip().endswith("]"):
                p = self.pv(x) if ptrlike(xt) else self.lv(x)
                o = ("L", ("arg",) + self.uid(x))
                self.env[o] = p
                out.append((p, frozenset([o]), x))
            else:
                l = self.lv(x)
                if ptrlike(pt) and not l:
                    out.append((frozenset(), frozenset(), x))
                elif self.isclass(xt) and not pt.rstrip().endswith("&"):
                    out.append((frozenset(), l, x))
                else:
                    out.append((frozenset(), l, x))
        return out

    def is_lval(self, x):
        if x["k"] == "Call":
            return (x.get("rt") or "").endswith("&") or x.get("op") in ("[]", "*") or x.get("n") in ("at", "front", "back", "get")
        if x["k"] == "Un":
            return x["op"] == "*"
        return False

    def construct(self, dst, e):
        P = self.P
        c = e.get("c") or ""
        b = base_type(c)
        if b.startswith(PTRLIKE) or b.startswith("std::function"):
            self.put(dst, self.pv(e))
            return
        if e.get("cp"):
            if e["a"]:
                self.copy(self.lv(e["a"][0]), dst)
            return
        a = self.args(e["a"], e.get("pt") or [])
        f = e.get("f")
        g = P.funcs.get(f)
        if g is not None and g.get("ctor"):
            self.apply(g, [frozenset([dst])], a, e)
            return
        if b.startswith(CONT):
            for p, l, x in a:
                xt = base_type(x.get("t") or "")
                if xt.startswith("std::initializer_list") or strip(x)["k"] == "InitList" or xt.startswith(CONT):
                    self.copy(l, dst, weak=True)
                elif p and not xt.startswith("__gnu"):
                    self.put(E(dst), p, weak=True)
                elif p:
                    self.copy(p, E(dst), weak=True)
                elif l and self.isclass(x.get("t")):
                    self.copy(l, E(dst), weak=True)
            return
        # implicit constructors: in-class initialisers
        for _, fd in P.all_fields(b):
            i = fd.get("init")
            if i is not None and (ptrlike(fd["t"]) or self.isclass(fd["t"])):
                self.assign_init(F(dst, fd["n"]), fd["t"], i)

    def apply(self, g, obj, a, e, weak=False):
        """effects of calling g; returns (pointees, lvalues)"""
        M = self.M
        if M.skip(g):
            return frozenset(), frozenset()
        s = M.of(g["f"])
        pre = dict(self.env)
        objs = obj[0] if obj else frozenset()
        ret = ("L", ("ret",) + self.uid(e))
        memo = {}
        ps = g.get("p") or []

        def tr(l):
            r = memo.get(l)
            if r is not None:
                return r
            k = l[0]
            if k == "P":
                i = l[1]
                if i >= len(a):
                    out = frozenset()
                else:
                    t = ps[i]["t"]
                    if t.rstrip().endswith("&"):
                        out = a[i][1]
                    elif is_ptr(t) or base_type(t).startswith(PTRLIKE):
                        out = a[i][0]
                    else:
                        out = a[i][1]
            elif k == "T":
                out = objs
            elif k == "R":
                out = frozenset([ret])
            elif k in ("N", "G", "L", "fn", "lam"):
                out = frozenset([l])
            elif k == "f":
                out = frozenset(F(x, l[2]) for x in tr(l[1]))
            elif k == "e":
                out = frozenset(E(x) for x in tr(l[1]))
            else:
                out = set()
                for x in tr(l[1]):
                    out |= self.get(x)
                out = frozenset(out)
            memo[l] = out
            return out
        cur = self.env
        self.env = pre
        mods = [(tr(l), v) for l, v in s.mods.items()]
        outs = []
        for l, v in s.out.items():
            vv = set()
            for x in v:
                vv |= tr(x)
            if l[0] == "~":
                outs.append((True, tr(l[1]), frozenset(vv)))
            else:
                outs.append((False, tr(l), frozenset(vv)))
        rp, rl = set(), set()
        for x in s.ret:
            rp |= tr(x)
        for x in s.lret:
            rl |= tr(x)
        self.env = cur
        for ls, v in mods:
            self.mod(ls, e, (g, v))
        # copies first
        for al, ls, v in sorted(outs, key=lambda z: not z[0]):
            if al:
                for l in ls:
                    self.copy(v, l, weak=weak or len(ls) > 1)
            else:
                for l in ls:
                    self.put(l, v, weak=weak or len(ls) > 1)
        if not rl and self.isclass(g.get("rt") or "") and not (g.get("rt") or "").rstrip().endswith("&"):
            rl = {ret}
        if ptrlike(g.get("rt") or "") and not (g.get("rt") or "").rstrip().endswith("&"):
            self.env[ret] = frozenset(rp)
            rl = {ret}
        if (g.get("rt") or "").rstrip().endswith("&") and ptrlike(g["rt"]):
            for x in rl:
                rp |= self.get(x)
        return frozenset(rp), frozenset(rl)

    def call(self, e):
        P, M = self.P, self.M
        M.n_calls += 1
        name, q = e.get("n") or "", e.get("q") or ""
        op = e.get("op")
        objl, objp = frozenset(), frozenset()
        o = e.get("o")
        ot = (o.get("t") or "") if o is not None else ""
        if o is not None:
            o0 = strip(o)
            if is_ptr(ot):
                objl = self.pv(o)
            elif ptrlike(ot) and not self.is_lvalue_like(o0):
                objp = self.pv(o)
                x = ("L", ("obj",) + self.uid(e))
                self.env[x] = objp
                objl = frozenset([x])
            else:
                objl = self.lv(o)
                if ptrlike(ot):
                    for y in objl:
                        objp |= self.get(y)
            if e.get("ar") and ptrlike(ot) and not is_ptr(ot) and not (e.get("oc") or "").startswith(PTRLIKE):
                objl = objp
        a = self.args(e["a"], e.get("pt") or [])
        # function values
        cal = set()
        if e.get("callee") is not None:
            cal |= self.pv(e["callee"]) if ptrlike(e["callee"].get("t") or "") else frozenset()
        if op == "()" and o is not None:
            cal |= objp
        if cal:
            rp = frozenset()
            for c in cal:
                if c[0] == "lam":
                    lam = M.lamtab.get(c[1])
                    if lam is not None and c[1][0] == self.f["f"]:
                        rp |= self.runlam(lam, a, e)
                elif c[0] == "fn" and c[1] in P.funcs:
                    r = self.apply(P.funcs[c[1]], None, a, e, weak=True)
                    rp |= r[0]
            return rp, frozenset()
        # lambdas handed on run there
        for p, l, x in a:
            for c in p:
                if c[0] == "lam" and c[1][0] == self.f["f"]:
                    base = dict(self.env)
                    self.runlam(M.lamtab[c[1]], None, e)
                    self.env = self.join(base, self.env)
        if e.get("mk") and e["mk"] in P.funcs or e.get("mkc") or e.get("mkt"):
            n = ("N", self.uid(e))
            g = P.funcs.get(e.get("mk"))
            if g is not None:
                self.apply(g, [frozenset([n])], a, e)
            x = ("L", ("mk",) + self.uid(e))
            self.env[x] = frozenset([n])
            return frozenset([n]), frozenset([x])
        tg = P.targets(e)
        if tg:
            if o is None and e.get("oc") and not P.funcs[tg[0]].get("static"):
                objl = frozenset([("T",)])
            res = [set(), set()]
            if len(tg) == 1:
                r = self.apply(P.funcs[tg[0]], [objl], a, e)
                return r
            base = dict(self.env)
            acc = None
            for t in tg:
                self.env = dict(base)
                r = self.apply(P.funcs[t], [objl], a, e)
                res[0] |= r[0]
                res[1] |= r[1]
                acc = self.env if acc is None else self.join(acc, self.env)
            self.env = acc
            return frozenset(res[0]), frozenset(res[1])
        return self.external(e, name, q, op, o, ot, objl, objp, a)

    def is_lvalue_like(self, x):
        return x["k"] in ("Ref", "Mem", "Sub") or x["k"] == "Un" and x["op"] == "*" or self.is_lval(x)

    def rcpp(self, e, name, op, t, o, ot, objl, objp, a):
        """handles to R objects: copies share the memory of the object"""
        def hand(p):
            x = ("L", ("x",) + self.uid(e))
            self.env[x] = frozenset(p)
            return frozenset(p), frozenset([x])
        if o is not None:
            p = objp
            if not p and objl and ptrlike(ot):
                for l in objl:
                    p |= self.get(l)
            if op == "=":
                lhs = base_type(ot)
                if lhs.startswith("Rcpp::internal"):        # an element of a list, a name
                    self.mod(p, e)
                    for l in p:
                        if a and a[0][0]:
                            self.put(E(l), a[0][0], weak=True)
                elif ptrlike(ot):
                    for l in objl:
                        self.put(l, a[0][0] if a else (), weak=len(objl) > 1)
                return p, objl
            if op in ("[]", "()") and not base_type(ot).startswith("Rcpp::Function"):
                b = base_type(t)
                if b.startswith("Rcpp::internal::generic"):
                    return hand(E(l) for l in p)
                if is_ptr(t):
                    return hand(p)
                return (frozenset(p), frozenset(p)) if b.startswith("Rcpp::internal") else (frozenset(), frozenset(p))
            if name in ("begin", "end"):
                return hand(p)
            if name in ("column", "row", "operator SEXPREC *") or name.startswith("operator "):
                return hand(p)
            if name in ("fill", "sort", "push_back", "push_front", "insert", "erase", "fill_diag", "setAttribute"):
                self.mod(p, e)
                return frozenset(), frozenset()
            return hand(p) if ptrlike(t) else (frozenset(), frozenset())
        if name in ("as", "wrap") and a:
            p = frozenset(z for z in a[0][0] if z[0] not in ("lam", "fn"))
            if ptrlike(t):
                return hand(p)
            return frozenset(), frozenset([("L", ("x",) + self.uid(e))])
        if ptrlike(t):
            return hand([("N", self.uid(e))])
        return frozenset(), frozenset([("L", ("x",) + self.uid(e))])

    def external(self, e, name, q, op, o, ot, objl, objp, a):
        P = self.P
        cls = base_type(e.get("oc") or ot)
        t = e.get("t") or ""
        if q.startswith("Rcpp::"):
            return self.rcpp(e, name, op, t, o, ot, objl, objp, a)
        if q in READS:
            for i, (p, l, x) in enumerate(a):
                if i in READS[q]:
                    self.mod(p, e)
            return frozenset(), frozenset()

        def ret(p, l=None):
            if l is None:
                x = ("L", ("x",) + self.uid(e))
                self.env[x] = frozenset(p)
                l = [x]
            return frozenset(p), frozenset(l)
        if o is not None:
            if op == "=" or name == "operator=":
                if a:
                    for l in objl:
                        if ptrlike(ot):
                            self.put(l, a[0][0], weak=len(objl) > 1)
                        else:
                            self.copy(a[0][1], l, weak=len(objl) > 1)
                self.mod(objl, e)
                if cls.startswith(CONT):
                    self.mod([E(l) for l in objl], e)
                return frozenset(), objl
            if cls.startswith(PTRLIKE) or ptrlike(ot) and not is_ptr(ot):
                if name in ("get", "operator->", "release", "base") or op in ("->",):
                    return ret(objp)
                if op == "*" or name == "operator*" or op == "[]":
                    p = frozenset()
                    if ptrlike(t):
                        for l in objp:
                            p |= self.get(l)
                    return p, objp
                if name == "reset":
                    v = a[0][0] if a else frozenset()
                    for l in objl:
                        self.put(l, v)
                    self.mod(objl, e)
                    return frozenset(), frozenset()
                if op in ("++", "--", "+", "-", "+=", "-=", "++p", "--p"):
                    return ret(objp, objl)
                if op == "bool" or name.startswith("operator bool"):
                    return frozenset(), frozenset()
                return ret(objp)
            if cls.startswith(CONT):
                if name in ACCESS or op in ("[]", "*"):
                    el = frozenset(E(l) for l in objl)
                    if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "data", "lower_bound"):
                        return ret(el)
                    p = frozenset()
                    if ptrlike(t):
                        for l in el:
                            p |= self.get(l)
                    return p, el
                if name in KEEPS or e.get("cm"):
                    return frozenset(), frozenset()
                # grows or changes
                self.mod(objl, e)
                self.mod([E(l) for l in objl], e)
                if name in ("push_back", "emplace_back", "insert", "emplace", "push", "assign", "push_front", "resize"):
                    for p, l, x in a:
                        for ol in objl:
                            if p and not base_type(x.get("t") or "").startswith(("__gnu", "std::_Rb")):
                                self.put(E(ol), p, weak=True)
                            elif p:
                                self.copy(p, E(ol), weak=True)
                            elif l and self.isclass(x.get("t")):
                                self.copy(l, E(ol), weak=True)
                return ret(frozenset(E(l) for l in objl)) if ptrlike(t) else (frozenset(), frozenset(E(l) for l in objl))
            # other classes without a body here
            if not e.get("cm"):
                self.mod(objl, e)
        elif op and a and op in ("=",):
            self.mod(a[0][1], e)
        if q.startswith("std::") or q.startswith("__gnu") or not q.startswith("ldt"):
            if name in ("move", "forward") and len(a) == 1:
                return a[0][0], a[0][1]
            if name in ("addressof", "__addressof"):
                return ret(a[0][1])
            if name == "get" and a:
                el = frozenset(E(l) for l in a[0][1])
                p = frozenset()
                if ptrlike(t):
                    for l in el:
                        p |= self.get(l)
                return p, el
            if name in ("begin", "end", "cbegin", "cend") and a:
                return ret(frozenset(E(l) for l in a[0][1]))
            if name == "swap" and len(a) == 2:
                for i in (0, 1):
                    self.mod(a[i][1], e)
                c0, c1 = a[0][1], a[1][1]
                if ptrlike(a[0][2].get("t") or ""):
                    v = a[0][0] | a[1][0]
                    for l in c0 | c1:
                        self.put(l, v)
                else:
                    for l in c0:
                        self.copy(c1, l, weak=True)
                    for l in c1:
                        self.copy(c0, l, weak=True)
                return frozenset(), frozenset()
            if name in WRITES_THROUGH:
                for i in WRITES_THROUGH[name]:
                    if i < len(a):
                        self.mod(a[i][0], e)
                out = frozenset()
                for p, l, x in a:
                    out |= frozenset(z for z in p if z[0] not in ("lam", "fn"))
                return ret(out) if ptrlike(t) else (frozenset(), frozenset())
            if name in ("make_pair", "make_tuple", "tie", "make_shared"):
                x = ("L", ("x",) + self.uid(e))
                for p, l, n in a:
                    if p:
                        self.put(E(x), p, weak=True)
                    elif l and self.isclass(n.get("t")):
                        self.copy(l, E(x), weak=True)
                return frozenset(), frozenset([x])
            if name in ("max", "min", "ref", "cref", "next", "prev", "find", "max_element", "min_element", "lower_bound", "find_if"):
                p, l = frozenset(), frozenset()
                for x in a:
                    p |= frozenset(z for z in x[0] if z[0] not in ("lam", "fn"))
                    l |= x[1]
                return ret(p) if ptrlike(t) else (p, l)
        if q.startswith(("Rf_", "TYPEOF", "INTEGER", "REAL", "LENGTH", "Rprintf", "R_Check")):
            return (frozenset(p for x in a for p in x[0]), frozenset()) if ptrlike(t) else (frozenset(), frozenset())
        # unknown: what it is given by non-const pointer or reference may change
        pts = e.get("pt") or []
        for i, (p, l, x) in enumerate(a):
            pt = (pts[i] if i < len(pts) else "").strip()
            if pt.endswith("&&"):
                continue
            if pt.endswith("&") and not pt.startswith("const "):
                self.mod(l, e)
            elif is_ptr(pt) and not pointee_const(pt):
                self.mod(p, e)
        if self.isclass(t):
            return ret(frozenset()) if ptrlike(t) else (frozenset(), frozenset([("L", ("x",) + self.uid(e))]))
        return frozenset(), frozenset()
