"""C01: every candidate model is counted exactly once."""
from ..program import AnalysisError, strip, walk, show
from ..absint import K, subterms, tnot, tshow, add, ONE, eq0
from ..events import Recorder, conj, conditions, over_all, elem, fld, peel, holds
from ..paths import Paths
from .r01 import own
from .c05 import Rec, func

LEVEL = "other"
TECHNIQUE = "path-state analysis of the search loop (all paths, exceptions included, helpers followed) with counting obligations at every step of the enumeration; symbolic comparison of the enumeration and its count; loop coverage of the totals"
NOTE = ("Every path through the search loop from one candidate to the next is analysed, including every exceptional one: exactly one outcome per candidate, no escape, no early end except by cancellation. "
        "The expected number is compared with the search through their stepping calls and skip conditions; that the enumeration itself visits every combination is V06.")
EXPLANATION = NOTE


def mentions(n, name, kind=("Mem",)):
    return any(x["k"] in kind and x.get("n") == name for x in walk(n))


def negation(n):
    """(inner, True if negated): peel == true, == false, !"""
    n = strip(n)
    neg = False
    while True:
        n = strip(n)
        if n["k"] == "Un" and n["op"] == "!":
            neg = not neg
            n = n["e"]
            continue
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                b = strip(b)
                if b["k"] == "Bool":
                    if bool(b["v"]) != (n["op"] == "=="):
                        neg = not neg
                    n = a
                    break
            else:
                return n, neg
            continue
        return n, neg


class SearchLoop(Paths):
    """tags: e1 estimated, a1/a2 counted once / more often, thr a step of the candidate failed,
    cfe/big the two parts of the skip condition, cancel, nomore, none (nothing to enumerate), abort (enumeration failed), more (stepped to a candidate)"""

    def __init__(self, P, counters):
        super().__init__(P)
        self.counters = counters
        self.problems = {}
        self.steps = 0
        self.ests = 0
        self.update = set()

    def problem(self, n, text):
        self.problems.setdefault((n.get("l"), text), n)

    def tag(self, s, *t, drop=()):
        return ((s[0] | set(t)) - set(drop), s[1])

    def atom(self, n, st):
        k = n["k"]
        if k == "Mem" and n["n"] == "RequestCancel":
            out = []
            for s, _ in self.ev(n["b"], st):
                out += [(self.tag(s, "cancel"), True), (s, False)]
            return out
        if k == "Mem" and n["n"] == "CheckForEmpty":
            if "cfe" in st[0] or "nocfe" in st[0]:
                return [(st, "cfe" in st[0])]
            return [(self.tag(st, "cfe"), True), (self.tag(st, "nocfe"), False)]
        if k == "Bin" and n["op"] in (">=", "<", ">", "<=") and mentions(n, "LengthTargets"):
            out = []
            ge = n["op"] if mentions(n["b"], "LengthTargets") else {">=": "<=", "<=": ">=", "<": ">", ">": "<"}[n["op"]]
            for s, _ in self.seq([n["a"], n["b"]], st):
                if ge in (">=", "<"):
                    out += [(self.tag(s, "big"), ge == ">="), (self.tag(s, "small"), ge != ">=")]
                else:
                    out += [(s, True), (s, False)]
            return out
        if k in ("Bin", "Call", "Un") and mentions(n, "PartitionIndices") and not any(x["k"] == "Mem" and x["n"] not in ("PartitionIndices", "Mat", "Vec", "RowsCount", "ColsCount") for x in walk(n)):
            e, neg = n, False
            if k == "Bin" and n["op"] in ("==", "!=", ">", "<=", "<"):
                a, b = strip(n["a"]), strip(n["b"])
                if b["k"] == "Int" and b["v"] == 0 and a["k"] == "Call" and a["n"] in ("length", "size"):
                    empty = n["op"] in ("==", "<=")
                    return [(self.tag(st, "none"), empty), (st, not empty)]
            if k == "Call" and n["n"] == "empty":
                return [(self.tag(st, "none"), True), (st, False)]
        return None

    def prim(self, n, s):
        if n["k"] != "Call":
            return None
        if n["n"] == "EstimateOne":
            self.ests += 1
            if "e1" in s[0]:
                self.problem(n, "a candidate can be evaluated twice")
            if "nomore" in s[0]:
                self.problem(n, "a candidate can be evaluated again after the enumeration has ended")
            if "upd" not in s[0]:
                self.problem(n, "a candidate can be evaluated with the variables of another one")
            if "more" in s[0] and "nocfe" not in s[0] and "small" not in s[0]:
                self.problem(n, "a combination that the expected number leaves out (no target in it) can be evaluated")
            s = self.tag(s, "e1")
            return [(s, None)], [self.tag(s, "thr")]
        if n.get("f") in self.update:
            return [(self.tag(s, "upd"), None)], [self.tag(s, "thr")]
        if n.get("f") in self.counters:
            if "a1" in s[0]:
                self.problem(n, "a candidate can be counted twice")
            if "nomore" in s[0]:
                self.problem(n, "a candidate can be counted after the enumeration has ended")
            return [(self.tag(s, "a1"), None)], []
        if n["n"] == "move_next":
            self.steps += 1
            self.closed(n, s)
            s = ((s[0] & {"none"}) | {"more"}, s[1])
            return [(s, True), (self.tag(s, "nomore", drop=("more",)), False)], [self.tag(s, "abort")]
        return None

    def quiet_call(self, n):
        return super().quiet_call(n)

    def caught(self, h, s):
        return self.tag(s, "thr") if "abort" not in s[0] else s

    def closed(self, n, s):
        """the candidate the state is at has its outcome"""
        t = s[0]
        if "none" in t or "nomore" in t or "abort" in t:
            return
        if "a1" in t:
            if "e1" not in t and "thr" not in t:
                self.problem(n, "a candidate can be counted without being evaluated")
            return
        if "e1" in t:
            self.problem(n, "a candidate can be evaluated without being counted")
        elif not ("cfe" in t and "big" in t):
            self.problem(n, "a candidate can be passed over without being evaluated or counted" + (" when a step of it raises an exception" if "thr" in t else ""))

    def follow(self, f):
        if not own(f) or f["n"] in ("EstimateOne", "move_next") or f["f"] in self.counters:
            return False
        if f.get("virtual"):
            return False
        return self.relevant(f)

    def relevant(self, f, depth=0):
        c = self.P.__dict__.setdefault("_c01rel", {})
        if f["f"] in c:
            return c[f["f"]]
        c[f["f"]] = False
        r = False
        for n in self.P.all_nodes(f):
            if n["k"] == "Call" and (n["n"] in ("EstimateOne", "move_next") or n.get("f") in self.counters):
                r = True
            if n["k"] == "Mem" and n["n"] in ("RequestCancel", "CheckForEmpty", "LengthTargets"):
                r = True
        if not r and depth < 3:
            r = any(self.relevant(self.P.funcs[t], depth + 1) for n in self.P.calls(f) for t in self.P.targets(n)
                    if self.P.funcs[t].get("body") and self.P.funcs[t].get("c") == f.get("c") and own(self.P.funcs[t]))
        c[f["f"]] = r
        return r


def counter_functions(P):
    """functions that add to Searcher::Counter"""
    out = []
    for f in P.funcs.values():
        if f.get("body") and own(f):
            for n in P.all_nodes(f):
                t = None
                if n["k"] == "Un" and n["op"].rstrip("p") in ("++", "--"):
                    t = strip(n["e"])
                elif n["k"] == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = strip(n["a"])
                if t is not None and t["k"] == "Mem" and t["n"] == "Counter" and t.get("c") == "ldt::Searcher":
                    out.append((f, n))
    return out


def run(P, rep):
    # ---------------------------------------------------------------- counting one outcome
    R0 = "an outcome is counted once, with its reason"
    writers = counter_functions(P)
    cf = {f["f"] for f, _ in writers}
    rep.need("functions that count an outcome", 1, len(cf))
    for k in sorted(cf):
        f = P.funcs[k]
        r = Rec(P)
        r.run(k)
        st = [e for e in r.events if e.kind == "store" and e.loc[0] == "fld" and e.loc[2] == "Counter"]
        rep.ob(R0, len(st) == 1 and not st[0].loops and tshow(st[0].val) == "(1 + this.Counter)" and not conditions(st[0]),
               P.where(f, f), "%s does not add exactly one to the counter on every path" % f["q"], key=f["q"] + " counter")
        par = [p for p in f["p"] if "string" in p["t"]]
        if not par:
            rep.ob(R0, False, P.where(f, f), "%s does not take the reason" % f["q"], key=f["q"] + " reason")
            continue
        # states: stored under the given reason, one more than before
        reason = ("p", par[0]["n"])
        up = []
        for e in r.events:
            if e.kind == "store" and e.loc[0] in ("fld", "cell") and any(fld(x, "States") == ("this",) for x in [e.loc[1]] + list(subterms(e.loc[1]))):
                up.append(e)
            if e.kind == "call" and e.name in ("insert", "emplace", "insert_or_assign", "try_emplace") and e.obj is not None and fld(e.obj, "States") == ("this",):
                up.append(e)
        rep.ob(R0, bool(up), P.where(f, f), "%s never records the reason" % f["q"], key=f["q"] + " records")
        known = [e for e in up if e.kind == "store"]
        rep.ob(R0, bool(known), P.where(f, f), "%s does not add to a reason that is already recorded" % f["q"], key=f["q"] + " adds")
        stray = set()
        for e in up:
            for c in conditions(e):
                txt = tshow(c)
                atoms = [x for x in subterms(c) if isinstance(x, tuple)]
                if reason in atoms or c == reason or any(fld(x, "States") for x in atoms if isinstance(x, tuple) and len(x) > 2):
                    continue
                stray.add(txt[:100])
            if e.kind == "store" and e.val is not None:
                one = e.val == ONE or (e.val[0] == "P" and (tuple(), 1) in [(m, c) for m, c in e.val[1]] and len(e.val[1]) == 2)
                rep.ob(R0, one, P.where(f, e.node), "%s records %s, not one more than before" % (f["q"], tshow(e.val)[:80]), key=f["q"] + " one")
        rep.ob(R0, not stray, P.where(f, f), "%s records a reason only if %s" % (f["q"], ", ".join(sorted(stray))), key=f["q"] + " always")
    for k, f in P.funcs.items():
        if f.get("body") and own(f) and k not in cf:
            pass

    # ---------------------------------------------------------------- the search loop
    R1 = "each candidate gets one outcome and none stops the search"
    roots = [f for f in P.funcs.values() if f.get("body") and own(f) and f["q"].endswith("Searcher::Start")]
    rep.need("search loops", 1, len(roots))
    users = set()
    for f in P.funcs.values():
        if f.get("body") and own(f):
            for n in P.calls(f):
                if n["k"] == "Call" and n["n"] == "EstimateOne":
                    users.add(f["f"])
    for f in roots:
        L = SearchLoop(P, cf)
        L.update = updaters(P, rep)
        o = L.run(f)
        rep.did("path states of the search loop", len(o.ret) + len(o.fall) + len(o.thr))
        rep.need("evaluations on the paths of the search loop", 1, L.ests)
        rep.need("enumeration steps on the paths of the search loop", 1, L.steps)
        for s, _ in list(o.ret) + [(x, None) for x in o.fall]:
            t = s[0]
            if "cancel" in t:
                if "e1" in t and "a1" not in t:
                    L.problem(f, "a candidate can be evaluated without being counted before the search ends")
                continue
            if "none" in t or "nomore" in t or "abort" in t:
                continue
            L.problem(f, "the search can end before the enumeration has, without cancellation" + (" (after an exception)" if "thr" in t else ""))
        for s in o.thr:
            t = s[0]
            if "e1" in t:
                L.problem(f, "an exception of the evaluation of a candidate can leave the search")
            elif "a1" in t or "more" in t:
                L.problem(f, "an exception while handling a candidate can leave the search")
        rep.ob(R1, not L.problems, P.where(f, f), "%s: %s" % (f["q"], "; ".join(sorted({"%s (line %s)" % (t, l) for l, t in L.problems}))), key=f["q"])
        reach = P.reach([f["f"]], stop=lambda g: g["n"] == "EstimateOne")
        for u in users:
            ok = u in reach
            rep.ob(R1, ok, P.where(P.funcs[u], P.funcs[u]), "%s evaluates candidates outside the search loop" % P.funcs[u]["q"], key=P.funcs[u]["q"] + " outside")
        ck = {g["f"] for g in roots}

    # only the counting functions count, and only the search loop calls them
    reach = P.reach([f["f"] for f in roots], stop=lambda g: g["n"] == "EstimateOne")
    for f in P.funcs.values():
        if f.get("body") and own(f):
            for n in P.calls(f):
                if n.get("f") in cf and f["f"] not in reach:
                    rep.ob(R1, False, P.where(f, n), "%s counts an outcome outside the search loop" % f["q"], key=f["q"] + " counts")

    totals(P, rep)
    reported(P, rep)
    messages(P, rep)
    expected(P, rep)
    sets(P, rep)


def updaters(P, rep):
    """functions that set the variables of the candidate from the running indices"""
    R = "the variables of a candidate are those the enumeration is at"
    out = set()
    for f in P.funcs.values():
        if not f.get("body") or not own(f) or f.get("ctor") or not (f.get("c") or "").startswith("ldt::Searcher"):
            continue
        if not any(n["k"] == "Bin" and n["op"] == "=" and any(x["k"] == "Mem" and x["n"] == "CurrentIndices" for x in walk(n["a"])) for n in P.all_nodes(f)):
            continue
        r = Rec(P)
        r.run(f["f"])
        st = [e for e in r.events if e.kind == "store" and "CurrentIndices" in str(e.loc)]
        ok = bool(st)
        why = "nothing"
        for e in st:
            v = tshow(e.val).replace(".Mat.Data", "").replace(".Vec", "").replace(".$p", "")
            why = v
            lp = [l for l in e.loops if l.it in e.loc or ("at", l.it) in e.loc or l.it in list(subterms(e.loc[-1] if isinstance(e.loc[-1], tuple) else ()))]
            ok = ok and v == "this.pCombinations.Partitions.[this.PartitionIndices.[it<>]].[this.ItemIndices.[it<>]]" and len(lp) == 1 and len({x for x in subterms(e.val) if isinstance(x, tuple) and x and x[0] == "it"} | {lp[0].it}) == 1
            if ok:
                ok = lp[0].trip is not None and tshow(lp[0].trip) in ("this.NumPartitions", "this.PartitionIndices.size") and not lp[0].early and not conditions(e)
        rep.ob(R, ok, P.where(f, f), "%s sets the variables of the candidate to %s" % (f["q"], why[:200]), key=f["q"])
        out.add(f["f"])
    rep.need("functions that set the variables of a candidate", 1, len(out))
    return out


class Message(Paths):
    """the message of an evaluation: tested before anything else is done, returned when it is not empty"""

    def __init__(self, P):
        super().__init__(P)
        self.problems, self.evals, self.pushes = {}, 0, 0

    tag = SearchLoop.tag
    problem = SearchLoop.problem

    def atom(self, n, st):
        if n["k"] == "Mem" and n["n"] == "RequestCancel":
            return [(self.tag(s, "cancel"), True) for s, _ in self.ev(n["b"], st)] + [(s, False) for s, _ in self.ev(n["b"], st)]
        return None

    def prim(self, n, s):
        if n["k"] != "Call":
            return None
        if n["n"] == "EstimateOneReg":
            self.evals += 1
            return [(self.tag(s, "failed"), "MSG"), (self.tag(s, "ok"), "")], [s]
        if n["n"] in ("Push0", "Push1", "Push2"):
            self.pushes += 1
            if "ok" not in s[0] and "failed" not in s[0]:
                self.problem(n, "results are recorded before the evaluation")
            elif "failed" in s[0]:
                self.problem(n, "results are recorded although the evaluation has failed")
        return None

    def follow(self, f):
        return own(f) and not f.get("virtual") and any(n["k"] == "Call" and n["n"] in ("EstimateOneReg", "Push0", "Push1", "Push2", "empty") or n["k"] == "Mem" and n["n"] == "RequestCancel" for n in self.P.all_nodes(f)) and (f.get("c") or "").startswith("ldt::Searcher") and f["n"] not in ("Push0", "Push1", "Push2")


def messages(P, rep):
    """a failure message of the evaluation is the outcome"""
    R = "the failure of an evaluation is its outcome"
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if f["n"] != "EstimateOne" or not f.get("body") or not own(f):
            continue
        if not any(x["n"] == "EstimateOneReg" for k in P.reach([f["f"]]) for x in P.calls(P.funcs[k]) if x["k"] == "Call"):
            continue
        n += 1
        L = Message(P)
        o = L.run(f)
        rep.need("recording steps after an evaluation", 1, L.pushes)
        for s, v in o.ret:
            if "failed" in s[0] and v != "MSG" and "cancel" not in s[0]:
                L.problem(f, "the message of a failed evaluation is not returned")
        for s in o.fall:
            L.problem(f, "the end is reached without a message")
        rep.ob(R, not L.problems, P.where(f, f), "%s: %s" % (f["q"], "; ".join(sorted({"%s (line %s)" % (t, l) for l, t in L.problems}))), key=f["q"])
    rep.need("evaluations whose message is followed", 1, n)


def expected(P, rep):
    """GetCount steps through the same combinations and skips the same ones"""
    R = "the expected number counts what the search visits"
    g = func(P, "Searcher::GetCount")[0]
    mv = {}
    for f in P.funcs.values():
        if f.get("body") and own(f) and any(n["k"] == "Call" and n["n"] == "move_next" for n in P.calls(f)):
            mv[f["f"]] = f
    rep.need("functions stepping through the candidates", 2, len(mv))
    sig = {}
    for k, f in mv.items():
        r = Rec(P, stop=("move_next",))
        r.run(k)
        for e in r.events:
            if e.kind == "call" and e.name == "move_next":
                # positions 0..2 are scratch, 3 and 4 the running indices
                sig.setdefault(k, set()).add(tuple(tshow(peel(a)) for a in e.args[5:]))
    base = None
    for k, s in sorted(sig.items()):
        f = mv[k]
        rep.ob(R, len(s) == 1, P.where(f, f), "%s steps in more than one way" % f["q"], key=f["q"] + " ways")
        if base is None:
            base = (f, s)
        else:
            rep.ob(R, s == base[1], P.where(f, f), "%s steps with (%s), %s with (%s)" % (f["q"], "; ".join(sorted(map(", ".join, s))), base[0]["q"], "; ".join(sorted(map(", ".join, base[1])))), key=f["q"] + " step")
    # the start of both: indices 0,1,2,... and 0,0,0,...
    r = Rec(P, stop=("move_next", "next"))
    r.run(g["f"])
    seqs = [e for e in r.events if e.kind == "call" and e.name == "SetSequence"]
    starts = [e for f in P.ctors("ldt::Searcher") if f.get("body") for e in seq_calls(P, f)]
    for e in seqs + starts:
        rep.ob(R, [peel(a) for a in e.args] == [K(0), K(1)], P.where(e.fr.f, e.node), "the first candidate is not 0,1,2,...: SetSequence(%s)" % ", ".join(map(tshow, e.args)), key="%s start" % e.fr.f["q"])
    rep.need("first candidates", 2, len(seqs) + len(starts))
    # the count itself: what each path adds
    counting(P, rep, g, R)


def seq_calls(P, f):
    r = Rec(P)
    r.run(f["f"])
    return [e for e in r.events if e.kind == "call" and e.name == "SetSequence"]


class CountLoop(Paths):
    """GetCount: between two steps exactly one is added unless the skip condition holds"""

    def __init__(self, P, var):
        super().__init__(P)
        self.var, self.problems, self.steps, self.fast = var, {}, 0, 0
        self.adds = []

    tag = SearchLoop.tag
    problem = SearchLoop.problem

    def isvar(self, n):
        n = strip(n)
        return n["k"] == "Ref" and n.get("d") == self.var and len(self.stack) == 1

    def atom(self, n, st):
        k = n["k"]
        if k == "Mem" and n["n"] == "CheckForEmpty":
            if "cfe" in st[0] or "nocfe" in st[0]:
                return [(st, "cfe" in st[0])]
            return [(self.tag(st, "cfe"), True), (self.tag(st, "nocfe"), False)]
        if k == "Bin" and n["op"] in ("==", "!=", ">", "<=") and mentions(n, "NumFixItems") and strip(n["b"])["k"] == "Int" and strip(n["b"])["v"] == 0 and strip(n["a"])["k"] == "Mem":
            t = n["op"] in ("==", "<=")
            return [(self.tag(st, "nofix"), t), (self.tag(st, "fix"), not t)]
        if k == "Bin" and n["op"] in (">=", "<", ">", "<=") and mentions(n, "LengthTargets"):
            return SearchLoop.atom(self, n, st)
        if k == "Un" and n["op"].rstrip("p") == "++" and self.isvar(n["e"]):
            return [(self.added(n, st, True), None)]
        if k == "Bin" and n["op"] in ("=", "+=") and self.isvar(n["a"]):
            e = strip(n["b"])
            out = []
            for s, _ in self.ev(n["b"], st):
                if n["op"] == "=" and e["k"] == "Int" and e["v"] == 0:
                    out.append((s, None))
                elif e["k"] == "Int" and e["v"] == 1:
                    out.append((self.added(n, s, True), None))
                elif n["op"] == "=" and e["k"] == "Bin" and e["op"] == "+" and any(self.isvar(x) for x in (e["a"], e["b"])):
                    o = e["b"] if self.isvar(e["a"]) else e["a"]
                    out.append((self.added(n, s, strip(o)["k"] == "Int" and strip(o)["v"] == 1), None))
                else:
                    out.append((self.added(n, s, False), None))
            return out
        return None

    def declared(self, v, s, val):
        if v["d"] == self.var and len(self.stack) == 1 and val == 1:
            return self.added(v, s, True)
        return super().declared(v, s, val)

    def added(self, n, s, one):
        if not one:
            # a product of partition sizes: only when every item of each partition can stand alone
            if not ("nofix" in s[0] and "nocfe" in s[0]):
                self.problem(n, "sizes of partitions are counted although items are fixed or empty ones are skipped")
        if "a1" in s[0]:
            self.problem(n, "a combination can be counted twice")
        if "more" in s[0] and "nocfe" not in s[0] and "small" not in s[0]:
            self.problem(n, "a combination that the search skips (no target in it) can be counted")
        return self.tag(s, "a1")

    def prim(self, n, s):
        if n["k"] == "Call" and n["n"] in ("move_next", "next"):
            self.steps += 1
            if n["n"] == "next" and not ("nofix" in s[0] and "nocfe" in s[0]):
                self.problem(n, "only partitions are stepped through although items are fixed or empty ones are skipped")
            self.closed(n, s)
            b = s[0] & {"nofix", "nocfe", "fix", "cfe"}
            return [((b | {"more"}, s[1]), True), ((b | {"nomore"}, s[1]), False)], []
        return None

    def closed(self, n, s):
        t = s[0]
        if "nomore" in t:
            return
        if "a1" not in t and not ("cfe" in t and "big" in t):
            self.problem(n, "a combination can be left out of the count")

    def quiet_call(self, n):
        return True

    def follow(self, f):
        return own(f) and not f.get("virtual") and f["n"] not in ("next", "move_next") and any(n["k"] == "Mem" and n["n"] in ("CheckForEmpty", "LengthTargets", "NumFixItems") or n["k"] == "Call" and n["n"] in ("next", "move_next") for n in self.P.all_nodes(f))


def counting(P, rep, g, R):
    # the counter: the integer variable the result is computed from
    cand = {}
    for n in P.all_nodes(g):
        if n["k"] == "Decl":
            for v in n["v"]:
                cand[v["d"]] = v
    used = set()
    for n in P.all_nodes(g):
        if n["k"] == "Return":
            for x in walk(n):
                if x["k"] == "Ref" and x.get("d") in cand:
                    used.add(x["d"])
    rep.ob(R, len(used) == 1, P.where(g, g), "%s does not return one counter" % g["q"], key="counter")
    if len(used) != 1:
        return
    L = CountLoop(P, used.pop())
    o = L.run(g)
    for s, _ in o.ret:
        if "nomore" not in s[0]:
            L.problem(g, "the count can end before the enumeration has")
    rep.need("steps of the count", 1, L.steps)
    rep.ob(R, not L.problems, P.where(g, g), "%s: %s" % (g["q"], "; ".join(sorted({"%s (line %s)" % (t, l) for l, t in L.problems}))), key=g["q"])


def totals(P, rep):
    R = "the totals sum over all searchers"

    def summed(q, what, okval):
        for f in func(P, q):
            r = Rec(P, stop=("GetCount",))
            r.watch = None or set()
            r.run(f["f"])
            seen = [e for e in r.events if e.kind == "return"]
            acc = [e for e in r.events if e.kind == "var" and e.loops and okval(e)]
            ok = [e for e in acc if not conditions(e)]
            why = "%s does not add %s of every searcher" % (f["q"], what)
            good = False
            for e in ok:
                src = okval(e)
                w = over_all(e, src)
                if w is None:
                    good = True
                else:
                    why += ": " + w
            rep.ob(R, good, P.where(f, f), why, key=q)

    def counter(e):
        for x in subterms(e.val):
            if isinstance(x, tuple) and len(x) > 2 and fld(x, "Counter") is not None:
                return peel(fld(x, "Counter"))
        return None

    def count(e):
        for x in [e.val] + list(subterms(e.val)):
            if isinstance(x, tuple) and x and x[0] in ("call", "ap") and "GetCount" in str(x[1]) and all(not y[1] for y in x[3:] if y[0] == "k"):
                for y in subterms(x):
                    if isinstance(y, tuple) and elem(y):
                        return peel(y)
        return None
    for q, w, fn in (("ModelSet::GetNumberOfEstimatedModels", "the counter", counter), ("ModelSet::GetExpectedNumberOfModels", "the count", count)):
        summed(q, w, fn)


def named(P, f):
    """(key, value expression, node) of the list elements  _["key"] = value  built in f"""
    out = []
    for n in P.all_nodes(f):
        if n["k"] == "Call" and n.get("op") in ("=",) and n.get("o") is not None and strip(n["o"])["k"] == "Call" and strip(n["o"]).get("op") == "[]":
            key = [x["v"] for a in strip(n["o"])["a"] for x in walk(a) if x["k"] == "Str"]
            if len(key) == 1 and len(n["a"]) == 1:
                out.append((key[0], n["a"][0], n))
        if n["k"] == "Call" and n["n"] == "Named" and len(n["a"]) == 2:
            key = [x["v"] for x in walk(n["a"][0]) if x["k"] == "Str"]
            if len(key) == 1:
                out.append((key[0], n["a"][1], n))
    return out


def reported(P, rep):
    R = "the totals reach the user under their own names"
    for f in func(P, "ModelSet::CombineInfo"):
        r = Rec(P, stop=("GetExpectedNumberOfModels", "GetNumberOfEstimatedModels"))
        r.run(f["f"])
        want = {"ExpectedCount": "GetExpectedNumberOfModels", "SearchedCount": "GetNumberOfEstimatedModels"}
        for fl, fn in want.items():
            st = [e for e in r.events if e.kind == "store" and e.loc[0] == "fld" and e.loc[2] == fl]
            ok = bool(st) and all(fn in tshow(e.val) and not conditions(e) and not e.loops for e in st)
            rep.ob(R, ok, P.where(f, st[0].node if st else f), "%s sets %s to %s" % (f["q"], fl, tshow(st[-1].val)[:80] if st else "nothing"), key=fl)
        up = []
        for e in r.events:
            if e.kind == "store" and any(fld(x, "FailsCount") is not None for x in [e.loc[1]] + list(subterms(e.loc[1]))):
                up.append((e, e.val))
            if e.kind == "call" and e.name in ("insert", "emplace") and e.obj is not None and fld(e.obj, "FailsCount") is not None:
                v = None
                if len(e.args) == 1 and e.args[0] in r.made:
                    v = r.made[e.args[0]][2][-1]
                elif len(e.args) == 2:
                    v = e.args[1]
                up.append((e, v))
        rep.ob(R, bool(up), P.where(f, f), "%s does not collect the failures" % f["q"], key="fails")
        good = 0
        for e, v in up:
            if v is None:
                continue
            src = None
            for x in [v] + list(subterms(v)):
                if isinstance(x, tuple) and fld(x, "second") is not None and "States" in tshow(x):
                    src = fld(x, "second")
            if src is None:
                if v == K(0) or v == ("k", 0):
                    continue
                rep.ob(R, False, P.where(e.fr.f, e.node), "%s adds %s, not the count of the failure" % (f["q"], tshow(v)[:80]), key="fails value")
                continue
            if e.kind == "store" and v[0] != "P" and "+" not in tshow(v):
                rep.ob(R, False, P.where(e.fr.f, e.node), "%s replaces the count of a failure instead of adding to it" % f["q"], key="fails add")
            good += 1
            w = over_all(e, src)
            if w is None:
                c = fld(elem(src)[0], "States")
                w = over_all(e, c if elem(c) else peel(c))
            rep.ob(R, w is None, P.where(e.fr.f, e.node), "%s does not add the failures of every searcher: %s" % (f["q"], w), key="fails all %s" % e.kind)
            bad = [c for c in conditions(e) if "FailsCount" not in tshow(c)]
            rep.ob(R, not bad, P.where(e.fr.f, e.node), "%s adds failures only if %s" % (f["q"], " and ".join(tshow(c)[:80] for c in bad)), key="fails cond %s" % e.kind)
        adds = [e for e, v in up if e.kind == "store" and v is not None and "second" in tshow(v)]
        rep.ob(R, good > 0 and bool(adds), P.where(f, f), "%s does not add the counts of failures that have the same reason" % f["q"], key="fails added")
    # the host interface
    hosts = [f for f in P.funcs.values() if f.get("body") and any(n["k"] == "Call" and n["n"] == "CombineInfo" for n in P.calls(f))]
    rep.need("functions that report the totals", 1, len(hosts))
    for f in hosts:
        got = {k: (v, n) for k, v, n in named(P, f)}
        for key, fl in (("expectedCount", "ExpectedCount"), ("searchedCount", "SearchedCount")):
            if key not in got:
                rep.ob(R, False, P.where(f, f), "%s does not report %s" % (f["q"], key), key="%s %s" % (f["q"], key))
                continue
            v, n = got[key]
            ms = {x["n"] for x in resolve(P, f, v) if x["k"] == "Mem" and x.get("c") == "ldt::SearcherModelingInfo"}
            rep.ob(R, ms == {fl}, P.where(f, n), "%s reports %s as %s" % (f["q"], ", ".join(sorted(ms)) or show(v), key), key="%s %s" % (f["q"], key))
        if "failedCount" not in got:
            rep.ob(R, False, P.where(f, f), "%s does not report failedCount" % f["q"], key="%s failedCount" % f["q"])
            continue
        v, n = got["failedCount"]
        ds = {x["d"] for x in walk(v) if x["k"] == "Ref" and x.get("dk") == "var"}
        ok = False
        for lp in P.all_nodes(f):
            if lp["k"] == "RangeFor" and any(x["k"] == "Mem" and x["n"] == "FailsCount" for x in walk(lp["r"])):
                ss = lp["b"]["s"] if lp["b"]["k"] == "Block" else [lp["b"]]
                for s in ss:
                    e = strip(s["e"]) if s["k"] == "Expr" else strip(s)
                    if e["k"] == "Bin" and e["op"] in ("+=", "=") and strip(e["a"])["k"] == "Ref" and strip(e["a"])["d"] in ds:
                        src = [x for x in walk(e["b"]) if x["k"] == "Ref" and x.get("dk") == "binding" or x["k"] == "Mem" and x["n"] in ("first", "second")]
                        if len(src) == 1 and (src[0].get("t") or "").replace("const ", "") == "int" and (e["op"] == "+=" or any(x["k"] == "Ref" and x.get("d") in ds for x in walk(e["b"]))):
                            ok = True
                if any(x["k"] in ("Break", "Continue", "Return") for x in walk(lp["b"])):
                    ok = False
        rep.ob(R, ok, P.where(f, n), "%s does not report the sum of all failures as failedCount" % f["q"], key="%s failedCount" % f["q"])


def resolve(P, f, e):
    """nodes of an expression, through local variables initialised once"""
    decl = {}
    for n in P.all_nodes(f):
        if n["k"] == "Decl":
            for v in n["v"]:
                decl[v["d"]] = v
    out, seen, st = [], set(), [e]
    while st:
        for x in walk(st.pop()):
            out.append(x)
            if x["k"] == "Ref" and x.get("dk") == "var" and x["d"] in decl and x["d"] not in seen:
                seen.add(x["d"])
                i = decl[x["d"]].get("init")
                if i is not None and x["d"] in decl and not any(y["k"] == "Mem" and y["b"] is not None and strip(y["b"]) is x for y in walk(e)):
                    st.append(i)
    return out


class SetLoop(Paths):
    """starting the searchers: each once, messages raised, nothing leaves a parallel region"""

    def __init__(self, P):
        super().__init__(P)
        self.problems, self.starts, self.inomp, self.omps = {}, 0, 0, 0

    tag = SearchLoop.tag
    problem = SearchLoop.problem

    def atom(self, n, st):
        if n["k"] == "Mem" and n["n"] == "RequestCancel":
            out = []
            for s, _ in self.ev(n["b"], st):
                out += [(self.tag(s, "cancel"), True), (s, False)]
            return out
        return None

    def prim(self, n, s):
        if n["k"] == "Call" and n["n"] == "what":
            return [(s, "MSG")], []
        if n["k"] == "Call" and n["n"] == "Start" and (n.get("oc") or "").endswith("Searcher"):
            self.starts += 1
            if "started" in s[0]:
                self.problem(n, "a searcher can be started twice")
            if "failed" in s[0] and not self.inomp:
                self.problem(n, "another searcher is started after one has failed")
            return [(self.tag(s, "started", "failed"), "MSG"), (self.tag(s, "started"), "")], [self.tag(s, "started", "failed")]
        return None

    def caught(self, h, s):
        return self.tag(s, "failed")

    def enter_loop(self, n, st):
        t = st[0]
        if "it" in t and "started" not in t and "failed" not in t:
            self.problem(n, "a searcher can be passed over without being started")
        keep = {"it"} | (t & {"failed"})
        return (frozenset(keep), st[1])

    def s_OMP(self, n, states):
        self.inomp += 1
        self.omps += 1
        o = self.run_block(n["b"], states)
        self.inomp -= 1
        if o.thr:
            self.problem(n, "an exception can leave the parallel region")
            o.thr = set()
        if o.ret:
            self.problem(n, "the parallel region can be left by return")
        return o

    def follow(self, f):
        return own(f) and not f.get("virtual") and (f.get("c") or "").endswith("ModelSet") and any(n["k"] == "Call" and n["n"] == "Start" or n["k"] == "Mem" and n["n"] == "RequestCancel" for n in self.P.all_nodes(f))


def sets(P, rep):
    R = "a model set starts every searcher and raises its error"
    fs = func(P, "ModelSet::Start")
    for f in fs:
        L = SetLoop(P)
        o = L.run(f)
        for s, _ in list(o.ret) + [(x, None) for x in o.fall]:
            if "failed" in s[0]:
                L.problem(f, "the error of a searcher can be lost")
            if "it" in s[0] and "started" not in s[0] and "cancel" not in s[0]:
                L.problem(f, "the search can end before every searcher has been started")
        rep.need("starts of searchers", 2, L.starts)
        rep.need("parallel regions", 1, L.omps)
        rep.ob(R, not L.problems, P.where(f, f), "%s: %s" % (f["q"], "; ".join(sorted({"%s (line %s)" % (t, l) for l, t in L.problems}))), key=f["q"])
        r = Rec(P, stop=("Start",))
        r.run(f["f"])
        n = 0
        for e in r.events:
            if e.kind == "call" and e.name == "Start":
                n += 1
                w = over_all(e, e.obj) if elem(e.obj) else over_all(e, peel(e.obj))
                if w is not None and "stop early" in w:
                    w = None        # how it stops is judged by the paths above
                rep.ob(R, w is None, P.where(e.fr.f, e.node), "%s does not start every searcher: %s" % (f["q"], w), key="%s %d" % (f["q"], n))
        rep.need("loops that start searchers", 2, n)


