"""Record calls and stores of a function with the facts and loops around them."""
from .absint import Eval, K, is_k, State, subterms, eq0, tnot, tand, tshow, add, sub, ge0, ONE, ZERO
from .program import walk, strip, kids


class LoopInfo:
    __slots__ = ("node", "lid", "cont", "trip", "early", "where")

    def __init__(self, node, lid, cont, trip, early, where):
        self.node, self.lid, self.cont, self.trip, self.early, self.where = node, lid, cont, trip, early, where

    @property
    def it(self):
        return ("it", self.lid)


class Event:
    __slots__ = ("kind", "node", "name", "q", "obj", "args", "facts", "loops", "fr", "loc", "val", "st")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def show(self):
        if self.kind == "store":
            return "store %s := %s" % (lshow(self.loc), tshow(self.val)[:160])
        if self.kind == "return":
            return "return %s" % (tshow(self.val)[:160] if self.val else "")
        return "%s %s(%s)" % (tshow(self.obj)[:100] if self.obj else "", self.name, ", ".join(tshow(a)[:80] for a in self.args or ()))


def lshow(l):
    if l[0] == "fld":
        return "%s.%s" % (tshow(l[1])[:100], l[2] if isinstance(l[2], str) else "[%s]" % (l[2],))
    return str(l)[:80]


def conjuncts(c):
    c = strip(c)
    if c["k"] == "Bin" and c["op"] == "&&":
        return conjuncts(c["a"]) + conjuncts(c["b"])
    return [c]


def early_exits(n, top=True):
    """break (of this loop) / return / goto inside the body"""
    out = []

    def go(x, depth):
        k = x["k"]
        if k == "Lambda":
            return
        if k == "Break" and depth == 0:
            out.append(x)
        if k in ("Return", "Goto"):
            out.append(x)
        d = depth + (1 if k in ("For", "While", "DoWhile", "RangeFor", "Switch") else 0)
        for c in kids(x):
            go(c, d)
    go(n["b"], 0)
    return out


class Recorder(Eval):
    """every call/store/return of interest with its surroundings"""

    def __init__(self, P, inline=None):
        super().__init__(P)
        self.events, self.loopstack, self.throws, self.loops = [], [], [], {}
        self.inl = inline
        self.watch = set()
        self.made = {}

    def want_inline(self, fkey, node, frame):
        if self.inl is not None:
            r = self.inl(fkey, node, frame)
            if r is not None:
                return r
        return False

    def _ev(self, **kw):
        if self.quiet:
            return None
        e = Event(loops=list(self.loopstack), **kw)
        self.events.append(e)
        return e

    def on_loop(self, node, phase, state, frame):
        lid = (self.uid(node),) + frame.id
        if phase == "enter":
            cont = None
            if node["k"] == "RangeFor":
                self.quiet += 1
                cont = self.ev(node["r"], state.copy(), frame, lv=True)
                if cont[0] == "loc":
                    cont = self.loc_obj(cont[1])
                self.quiet -= 1
            trip = None
            for f in state.facts:
                # it < trip  is recorded as trip-1-it >= 0
                if f[0] == "ge0":
                    d = add(f[1], ("it", lid))
                    if not any(x == ("it", lid) for x in subterms(d)):
                        t = add(d, ONE)
                        if t != ("it", lid) and f[1] != ("it", lid):
                            trip = t
            if node["k"] == "RangeFor":
                trip = None
            early = early_exits(node)
            c = strip(node["c"]) if node["k"] in ("For", "While") and node.get("c") else None
            if trip is None and c is not None and c["k"] == "Bin" and c["op"] == "&&":
                # `i < n && ...` runs at most over all n: the rest of the condition is a way to stop early
                for part in conjuncts(c):
                    trip = self.trip(dict(node, c=part), state, frame, {}, lid, cont)
                    if trip is not None:
                        early = early or [node]
                        break
            li = LoopInfo(node, lid, cont, trip, early, self.P.where(frame.f, node))
            self.loops[lid] = li
            self.loopstack.append(li)
        else:
            self.loopstack.pop()

    def on_call(self, node, fkey, name, obj, args, st, fr):
        if self.quiet:
            return
        self._ev(kind="call", node=node, name=name, q=node.get("q") or name, obj=obj, args=[self.rv(a, st) for a in args], facts=st.facts, fr=fr, st=st.copy())

    def on_store(self, loc, val, node, st, fr):
        if self.quiet:
            return
        if loc[0] == "var":
            if loc[1] in self.watch or not self.watch and len(loc[1]) == 1:
                self._ev(kind="var", node=node, loc=loc, val=val, facts=st.facts, fr=fr)
            return
        self._ev(kind="store", node=node, loc=loc, val=val, facts=st.facts, fr=fr)

    def on_return(self, node, val, st, fr):
        self._ev(kind="return", node=node, val=val, facts=st.facts, fr=fr)

    def on_new(self, node, cls, args, obj, st, fr):
        if not self.quiet:
            self.made[obj] = (node, cls, [self.rv(a, st) for a in args or []], st.facts)

    def on_throw(self, node, st, fr):
        if not self.quiet:
            self.throws.append((node, st.facts, fr))


def conj(facts):
    out = set()
    for f in facts:
        if f[0] == "and":
            out |= conj(f[1])
        else:
            out.add(f)
    return out


# ---------------------------------------------------------------- matching
def fld(t, name):
    """base of <base>.name, or None"""
    return t[1] if t and t[0] in ("f", "F") and t[2] == name else None


def elem(t):
    """(container, index) of an element term"""
    if t and t[0] in ("f", "F") and isinstance(t[2], tuple) and t[2] and t[2][0] == "at":
        return t[1], t[2][1]
    return None


def peel(t):
    """strip smart pointers and integer wrappers"""
    while t and t[0] in ("f", "F") and t[2] == "$p":
        t = t[1]
    return t


def evalterm(t, asg):
    """numeric value of a term under an assignment of atoms, or None"""
    if t in asg:
        return asg[t]
    if t[0] == "k":
        v = t[1]
        return (1 if v else 0) if isinstance(v, bool) else v if isinstance(v, (int, float)) else None
    if t[0] == "P":
        s = 0
        for m, c in t[1]:
            p = c
            for x in m:
                v = evalterm(x, asg)
                if v is None:
                    return None
                p *= v
            s += p
        return s
    if t[0] == "ite":
        c = holds(t[1], asg)
        return None if c is None else evalterm(t[2] if c else t[3], asg)
    if t[0] == "max":
        vs = [evalterm(x, asg) for x in t[1]]
        return None if None in vs else max(vs)
    return None


def holds(c, asg):
    """truth of a condition under an assignment of atoms, or None"""
    if c in asg:
        return bool(asg[c])
    h = c[0]
    if h == "k":
        return bool(c[1])
    if h == "not":
        r = holds(c[1], asg)
        return None if r is None else not r
    if h in ("and", "or"):
        rs = [holds(x, asg) for x in c[1]]
        if h == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if h in ("ge0", "gt0", "eq0"):
        v = evalterm(c[1], asg)
        if v is None:
            return None
        return v >= 0 if h == "ge0" else v > 0 if h == "gt0" else v == 0
    if h == "tr":
        return holds(c[1], asg) if c[1] in asg else None
    return None


def conditions(ev, ignore=()):
    """the conditions on the way to an event, without loop bounds"""
    out = set()
    bounds = set()
    its = set()
    for l in ev.loops:
        its.add(l.it)
        bounds.add(ge0(l.it))
        if l.trip is not None:
            bounds.add(ge0(sub(sub(l.trip, ONE), l.it)))
    for c in conj(ev.facts):
        if c in bounds or c in ignore:
            continue
        if c[0] == "ge0" and any(x in its for x in subterms(c)):
            # bounds of a range loop: size-1-it >= 0
            d = None
            for l in ev.loops:
                if l.node["k"] == "RangeFor":
                    d = add(c[1], l.it)
                    s = add(d, ONE)
                    if s[0] == "f" and s[2] == "size" or s == l.it:
                        break
                    d = None
            if d is not None:
                continue
        out.add(c)
    return out


def complement(evs_conds):
    """merge condition sets that differ in one complementary literal (a property then covered by both branches)"""
    sets = [frozenset(s) for s in evs_conds]
    changed = True
    while changed:
        changed = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                if a == b:
                    sets.pop(j)
                    changed = True
                    break
                if a <= b or b <= a:
                    sets[i] = a & b if a <= b else b
                    sets[i] = a if a <= b else b
                    sets.pop(j)
                    changed = True
                    break
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1 and tnot(next(iter(da))) == next(iter(db)):
                    sets[i] = a & b
                    sets.pop(j)
                    changed = True
                    break
            if changed:
                break
    return sets


def over_all(ev, term):
    """is <term> (an element) the generic element of a loop that runs over the whole container without leaving early?"""
    e = elem(term)
    if e is None:
        return "it is not an element of a list"
    cont, ix = e
    for l in ev.loops:
        hit = False
        if l.node["k"] == "RangeFor" and ix == ("any",) and l.cont == cont:
            hit = True
        elif ix == l.it or ix == ("any",):
            t = l.trip
            if t is not None and t[0] == "f" and t[2] == "size" and t[1] == cont:
                hit = True
        if hit:
            if l.early:
                return "the loop over %s can stop early" % tshow(cont)[:60]
            return None
    return "no loop runs over the whole of %s" % tshow(cont)[:60]
