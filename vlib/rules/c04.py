"""C04: a cancelled search stops promptly and reports no partial model."""
import re
from ..program import AnalysisError, strip, walk, show, walk_nolambda
from ..paths import Paths
from .r01 import own
from .c05 import func

LEVEL = "other"
TECHNIQUE = "path-state analysis (all paths, exceptions included) of every loop that estimates models, of the recording step and of the host call: a fresh look at the request before each estimation and before each result; lifetime analysis of what the worker captures"
NOTE = ("Decides where the request is looked at and what follows. How long one estimation takes is not bounded here, and the flags are plain (not atomic) variables: "
        "that another thread's write becomes visible is assumed.")
EXPLANATION = NOTE

MODEL = re.compile(r"^ldt::(Sur|SurExtended|DiscreteChoice(<.*>)?|DiscreteChoiceExtended|Varma|VarmaExtended)$")
PUSH = ("Push0", "Push1", "Push2")


def plain_ref(t):
    return t is not None and t.replace(" ", "") == "bool&"


def estimation(P, n):
    """a call that estimates one model"""
    if n["k"] != "Call":
        return False
    if n["n"] == "EstimateOne":
        return True
    return bool(MODEL.match(n.get("oc") or "")) and (n["n"] == "Calculate" or n["n"].startswith("Estimate")) and n.get("o") is not None and strip(n["o"])["k"] != "This"


def is_request(n):
    """reads the user's request itself (not a copy)"""
    n = strip(n)
    return n["k"] == "Mem" and n["n"] == "RequestCancel"


class Look(Paths):
    """tags: clear = the request was read as not raised since the last estimation; cancel = read as raised"""

    def __init__(self, P, names=("RequestCancel",)):
        super().__init__(P)
        self.problems = {}
        self.est = self.push = self.reads = 0
        self.run_clears = True

    def problem(self, n, text):
        self.problems.setdefault((n.get("l"), text), n)

    def reads_request(self, n):
        if is_request(n):
            return True
        if n["k"] == "Ref" and n.get("dk") == "parm" and plain_ref(n.get("dt") or ""):
            return True
        return False

    def atom(self, n, st):
        if self.reads_request(n):
            self.reads += 1
            return [((st[0] - {"clear"} | {"cancel"}, st[1]), True), ((st[0] | {"clear"}, st[1]), False)]
        if n["k"] == "Bin" and n["op"] == "=" and is_request(n["a"]):
            return [(s, None) for s, _ in self.ev(n["b"], st)]
        return None

    def prim(self, n, s):
        if estimation(self.P, n):
            self.est += 1
            if "cancel" in s[0]:
                self.problem(n, "a model can be estimated after the request was seen")
            elif "clear" not in s[0]:
                self.problem(n, "a model can be estimated without looking at the request since the last one")
            t = (s[0] - {"clear"}, s[1])
            return [(t, None)], [t]
        if n["k"] == "Call" and n["n"] == "EstimateOneReg":
            t = ((s[0] - {"clear"}) | {"evaluated"}, s[1])
            return [(t, "MSG"), (t, "")], [t]
        if n["k"] == "Call" and n["n"] in PUSH:
            self.push += 1
            if "evaluated" in s[0]:
                if "cancel" in s[0]:
                    self.problem(n, "results can be recorded after the request was seen")
                elif "clear" not in s[0]:
                    self.problem(n, "results can be recorded without looking at the request after the evaluation")
            return [(s, None)], [s]
        return None

    def follow(self, f):
        if not own(f) or f.get("virtual") or f["n"] in PUSH or f["n"] in ("EstimateOneReg", "EstimateOne"):
            return False
        if MODEL.match(f.get("c") or ""):
            return False
        c = self.P.__dict__.setdefault("_c04rel", {})
        if f["f"] not in c:
            c[f["f"]] = False
            c[f["f"]] = any(estimation(self.P, n) or n["k"] == "Call" and n["n"] in PUSH + ("EstimateOneReg",) or is_request(n) or
                            n["k"] == "Ref" and n.get("dk") == "parm" and plain_ref(n.get("dt") or "") for n in self.P.all_nodes(f)) and not simulation(f)
        return c[f["f"]]


def simulation(f):
    """takes the request by reference and runs on its own"""
    return any(plain_ref(p["t"]) for p in f["p"]) and len(f["p"]) > 3


def lines(L):
    return "; ".join(sorted({"%s (line %s)" % (t, l) for l, t in L.problems}))


def run(P, rep):
    # ---------------------------------------------------------------- loops that estimate
    R = "the request is looked at between two estimations"
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if not f.get("body") or not own(f) or f["file"].startswith("Rpackage"):
            continue
        sim = simulation(f)
        srch = f["q"].endswith("Searcher::Start")
        if not (sim or srch):
            continue
        if not any(estimation(P, P_n) for k in P.reach([f["f"]], stop=lambda g: g["n"] in ("EstimateOne",) or bool(MODEL.match(g.get("c") or ""))) for P_n in P.calls(P.funcs[k])):
            continue
        L = Look(P)
        L.run(f)
        if not L.est:
            continue
        n += 1
        rep.ob(R, not L.problems, P.where(f, f), "%s: %s" % (f["q"], lines(L)), key=f["q"])
    rep.need("search and simulation loops", 4, n)

    # the loop over the searchers: starting one looks at the request first
    for f in func(P, "ModelSet::Start"):
        pass

    # ---------------------------------------------------------------- recording
    R2 = "an interrupted evaluation records nothing"
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if f["n"] != "EstimateOne" or not f.get("body") or not own(f):
            continue
        L = Look(P)
        L.run(f)
        n += L.push
        rep.ob(R2, not L.problems, P.where(f, f), "%s: %s" % (f["q"], lines(L)), key=f["q"])
    rep.need("recording steps", 2, n)
    roots = [f["f"] for f in P.funcs.values() if f["n"] in ("EstimateOne", "EstimateOneReg") and f.get("body") and own(f)]
    reach = P.reach(roots)
    for k in sorted(reach):
        f = P.funcs[k]
        if f["n"] == "EstimateOne":
            continue
        for c in P.calls(f):
            if c["k"] == "Call" and c["n"] in PUSH and (f.get("c") or "").startswith("ldt::") and (f.get("c") or "") != "ldt::Searcher":
                callers = [g for g in P.funcs.values() if g["n"] == "EstimateOne" and g.get("body") and k in P.reach([g["f"]])]
                followed = any(x.get("f") == k for g in callers for x in P.calls(g))
                rep.ob(R2, followed, P.where(f, c), "%s records results outside the recording step" % f["q"], key=f["q"] + " records")

    # ---------------------------------------------------------------- handing the request on
    R3 = "the request itself is handed on, and only raised"
    n = 0
    for k in sorted(reach):
        f = P.funcs[k]
        if not f.get("body"):
            continue
        refs = ref_vars(P, f)
        for c in P.calls(f):
            if c["k"] != "Call":
                continue
            for t in P.targets(c):
                g = P.funcs[t]
                for i, p in enumerate(g["p"]):
                    if plain_ref(p["t"]) and i < len(c["a"]) and simulation(g) and own(g):
                        n += 1
                        a = strip(c["a"][i])
                        ok = is_request(a) or a["k"] == "Ref" and (a.get("dk") == "parm" and plain_ref(a.get("dt") or "") or a.get("d") in refs)
                        rep.ob(R3, ok, P.where(f, c), "%s hands %s to %s in place of the user's request" % (f["q"], show(a), g["q"]), key="%s -> %s" % (f["q"], g["q"]))
    rep.need("simulations that get the request", 3, n)
    for f in P.funcs.values():
        if not f.get("body") or f.get("ctor"):
            continue
        for x in P.all_nodes(f):
            if x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                a = strip(x["a"])
                if is_request(a) or a["k"] == "Ref" and a.get("dk") == "parm" and plain_ref(a.get("dt") or "") and f["f"] in reach:
                    v = strip(x["b"])
                    rep.ob(R3, x["op"] in ("=", "|=") and v["k"] == "Bool" and bool(v["v"]), P.where(f, x), "%s sets the request to %s" % (f["q"], show(v)), key=f["q"] + " store")
    host(P, rep)


def ref_vars(P, f):
    """local references bound to the request"""
    out = set()
    for n in P.all_nodes(f):
        if n["k"] == "Decl":
            for v in n["v"]:
                if plain_ref(v["t"]) and v.get("init") is not None and is_request(v["init"]):
                    out.add(v["d"])
    return out


# ---------------------------------------------------------------- the host call
class Flag(Paths):
    """the worker lowers its flag whatever happens"""

    def __init__(self, P, d):
        super().__init__(P)
        self.d = d

    def atom(self, n, st):
        if n["k"] == "Bin" and n["op"] == "=" and strip(n["a"])["k"] == "Ref" and strip(n["a"]).get("d") == self.d:
            out = []
            for s, v in self.ev(n["b"], st):
                out.append(((s[0] | {"low"} if v is False else s[0] - {"low"}, s[1]), None))
            return out
        return None


class Host(Paths):
    """async ... wait ... look at the request ... report"""

    def __init__(self, P, fut):
        super().__init__(P)
        self.fut, self.problems, self.reports, self.sync = fut, {}, 0, 0

    problem = Look.problem

    def atom(self, n, st):
        if is_request(n):
            return [((st[0] - {"clear"} | {"cancel"}, st[1]), True), ((st[0] | {"clear"}, st[1]), False)]
        return None

    def prim(self, n, s):
        if n["k"] != "Call":
            return None
        o = strip(n["o"]) if n.get("o") is not None else None
        if n["n"] == "async":
            t = (s[0] - {"clear", "got"} | {"running"}, s[1])
            return [(t, None)], [s]
        if o is not None and o["k"] == "Ref" and o.get("d") in self.fut and n["n"] in ("get", "wait"):
            t = (s[0] - {"running", "clear"} | {"got"} | ({"raised"} if n["n"] == "get" else set()), s[1])
            return [(t, None)], [t]
        if n["n"] == "Start" and (n.get("oc") or "").startswith("ldt::"):
            self.sync += 1
            t = (s[0] - {"clear"} | {"got", "raised"}, s[1])
            return [(t, None)], [t]
        if n["n"] == "GetModelSetResults":
            self.reports += 1
            if "running" in s[0] or "got" not in s[0]:
                self.problem(n, "results can be read while the search is running")
            elif "raised" not in s[0]:
                self.problem(n, "an error of the search can be lost")
            if "cancel" in s[0] or "clear" not in s[0]:
                self.problem(n, "results of a cancelled search can be reported")
            return [(s, None)], [s]
        return None


class Poll(Paths):
    """the progress loop polls for interrupts in each round; an interrupt raises the request"""

    def __init__(self, P):
        super().__init__(P)
        self.problems, self.polls, self.loops = {}, 0, 0
        self.key = None

    problem = Look.problem

    def atom(self, n, st):
        if n["k"] == "Bin" and n["op"] == "=" and is_request(n["a"]):
            return [((s[0] | {"raised"} if v is True else s[0], s[1]), None) for s, v in self.ev(n["b"], st)]
        return None

    def prim(self, n, s):
        if n["k"] == "Call" and (n["n"] == "checkUserInterrupt" or n["n"] == "R_CheckUserInterrupt"):
            self.polls += 1
            return [((s[0] | {"polled"}, s[1]), None)], [(s[0] | {"polled", "intr"}, s[1])]
        return None

    def enter_loop(self, n, st):
        if self.flagloop(n):
            self.loops += 1
            if "round" in st[0] and "polled" not in st[0]:
                self.problem(n, "a round of the progress loop does not look for an interrupt")
            return ((st[0] - {"polled"}) | {"round"}, st[1])
        return st

    def flagloop(self, n):
        c = n.get("c")
        return c is not None and any(x["k"] == "Ref" and x.get("dk") == "parm" and plain_ref(x.get("dt") or "") for x in walk(c))

    def follow(self, f):
        return own(f) and any(n["k"] == "Call" and n["n"] in ("checkUserInterrupt", "R_CheckUserInterrupt") for n in self.P.all_nodes(f))


def scopes(f):
    """declaration id -> (order, chain of enclosing blocks)"""
    out = {}
    order = [0]

    def go(n, chain):
        if n["k"] == "Decl":
            for v in n["v"]:
                order[0] += 1
                out[v["d"]] = (order[0], tuple(chain), v)
        ch = chain + [id(n)] if n["k"] in ("Block", "For", "While", "RangeFor", "If", "Try") else chain
        from ..program import kids
        if n["k"] == "Lambda":
            return
        for c in kids(n):
            go(c, ch)
    go(f["body"], [])
    return out


def host(P, rep):
    R = "the host waits for the search and raises the request on interrupt"
    asy = []
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if not f.get("body") or not own(f):
            continue
        for n in P.all_nodes(f):
            if n["k"] == "Call" and n.get("q") in ("std::async",) or n["k"] == "Ctor" and n.get("c") in ("std::thread", "std::jthread") and n["a"]:
                asy.append((f, n))
            if n["k"] == "Call" and n["n"] == "detach" and "thread" in (n.get("oc") or ""):
                rep.ob(R, False, P.where(f, n), "%s detaches a thread" % f["q"], key=f["q"] + " detach")
    rep.need("calls that start a worker", 3, len(asy))
    for f, n in asy:
        name = f["q"]
        if n["k"] == "Ctor":
            rep.ob(R, False, P.where(f, n), "%s starts a thread that an exception would leave running" % name, key=name + " thread")
            continue
        pol = [x for x in walk(n["a"][0]) if x["k"] == "Ref" and x.get("dk") == "enum"]
        rep.ob(R, len(pol) == 1 and pol[0]["n"] == "async", P.where(f, n), "%s does not start the worker at once (%s)" % (name, show(n["a"][0])[:60]), key=name + " launch")
        sc = scopes(f)
        fut = [d for d, (o, ch, v) in sc.items() if v.get("init") is not None and any(x is n for x in walk(v["init"]))]
        rep.ob(R, len(fut) == 1, P.where(f, n), "%s does not keep the worker's future in a variable: it would block or be lost" % name, key=name + " future")
        if len(fut) != 1:
            continue
        fo, fch, fv = sc[fut[0]]
        lam = [x for a in n["a"][1:] for x in walk(a) if x["k"] == "Lambda"]
        if not lam:
            for a in n["a"][1:]:
                for x in walk(a):
                    if x["k"] == "Ref" and x.get("d") in sc and sc[x["d"]][2].get("init") is not None and strip(sc[x["d"]][2]["init"])["k"] == "Lambda":
                        lam.append(strip(sc[x["d"]][2]["init"]))
        rep.ob(R, len(lam) == 1, P.where(f, n), "%s starts a worker that is not a lambda" % name, key=name + " lambda")
        if len(lam) != 1:
            continue
        body = lam[0].get("body")
        used = {x["d"]: x for x in walk(body) if x["k"] == "Ref" and x.get("dk") == "var" and x.get("d") in sc}
        late = [x["n"] for d, x in used.items() if not sc[d][2].get("static") and (sc[d][0] > fo or sc[d][1] != fch[:len(sc[d][1])])]
        rep.ob(R, not late, P.where(f, n), "%s: the worker uses %s, which is released before the wait for the worker" % (name, ", ".join(sorted(late))), key=name + " lifetime")
        gone = [x for x in P.all_nodes(f) if x["k"] == "Call" and x.get("q") in ("std::move",) and any(y["k"] == "Ref" and y.get("d") == fut[0] for y in walk(x)) or
                x["k"] == "Call" and x["n"] in ("share",) and x.get("o") is not None and strip(x["o"]).get("d") == fut[0]]
        rep.ob(R, not gone, P.where(f, n), "%s gives the worker's future away" % name, key=name + " kept")
        # the flags the main thread waits on
        flags = set()
        for c in P.calls(f):
            if c["k"] == "Call":
                for t in P.targets(c):
                    g = P.funcs[t]
                    for i, p in enumerate(g["p"]):
                        if plain_ref(p["t"]) and i < len(c["a"]) and any(x["k"] in ("While", "For", "DoWhile") and x.get("c") is not None and any(y["k"] == "Ref" and y.get("d") == p["d"] for y in walk(x["c"])) for x in P.all_nodes(g)):
                            a = strip(c["a"][i])
                            if a["k"] == "Ref":
                                flags.add(a["d"])
        for x in P.all_nodes(f):
            if x["k"] in ("While", "DoWhile", "For") and x.get("c") is not None and not any(x is y for y in walk(lam[0])):
                for y in walk(x["c"]):
                    if y["k"] == "Ref" and y.get("dk") == "var" and y.get("d") in used and (y.get("dt") or y.get("t")) == "bool":
                        flags.add(y["d"])
        rep.need("flags the main thread waits on", 1, len(flags))
        for d in sorted(flags):
            fl = Flag(P, d)
            fl.stack = ["lambda"]
            o = fl.run_block(body, {(frozenset(), frozenset())})
            ends = list(o.fall) + [s for s, _ in o.ret]
            bad = [s for s in ends + list(o.thr) if "low" not in s[0]]
            rep.ob(R, not bad and ends, P.where(f, lam[0]), "%s: the worker can end%s without lowering '%s', on which the main thread waits" % (name, " by an exception" if bad and bad[0] in o.thr else "", sc[d][2]["n"] if d in sc else d), key=name + " flag")
    # reporting
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if f.get("body") and own(f) and any(c["k"] == "Call" and c["n"] == "GetModelSetResults" for c in P.calls(f)):
            sc = scopes(f)
            fut = {d for d, (o, ch, v) in sc.items() if "future<" in v["t"]}
            H = Host(P, fut)
            H.run(f)
            n += H.reports
            rep.ob(R, not H.problems, P.where(f, f), "%s: %s" % (f["q"], lines(H)), key=f["q"] + " report")
    rep.need("reports of a search", 4, n)
    # polling
    n = loops = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if not f.get("body") or not own(f):
            continue
        if not any(c["k"] == "Call" and c["n"] in ("checkUserInterrupt", "R_CheckUserInterrupt") for k in P.reach([f["f"]]) for c in P.calls(P.funcs[k])):
            if any(x["k"] in ("While", "DoWhile") and x.get("c") is not None and any(y["k"] == "Ref" and y.get("dk") == "parm" and plain_ref(y.get("dt") or "") for y in walk(x["c"])) for x in P.all_nodes(f)) and f["file"].startswith("Rpackage"):
                rep.ob(R, False, P.where(f, f), "%s waits without looking for an interrupt" % f["q"], key=f["q"] + " waits")
            continue
        direct = any(c["k"] == "Call" and c["n"] in ("checkUserInterrupt", "R_CheckUserInterrupt") for c in P.calls(f))
        wait = any(x["k"] in ("While", "DoWhile", "For") and x.get("c") is not None and any(y["k"] == "Ref" and y.get("dk") == "parm" and plain_ref(y.get("dt") or "") for y in walk(x["c"])) for x in P.all_nodes(f))
        if not direct and not wait:
            continue
        L = Poll(P)
        o = L.run(f)
        n += L.polls
        loops += L.loops
        for s in list(o.fall) + [x for x, _ in o.ret]:
            if "intr" in s[0]:
                if "raised" not in s[0]:
                    L.problem(f, "an interrupt can be swallowed without raising the request")
            elif direct and "polled" not in s[0]:
                L.problem(f, "it can end without looking for an interrupt")
        for s in o.thr:
            if "intr" in s[0] and "raised" not in s[0]:
                L.problem(f, "an interrupt can leave without raising the request: the worker would run on and the host would wait for all of it")
        rep.ob(R, not L.problems, P.where(f, f), "%s: %s" % (f["q"], lines(L)), key=f["q"] + " poll")
    rep.need("looks for an interrupt", 1, n)
    rep.need("rounds of the progress loop", 1, loops)
    # a search on the main thread polls itself
    for f in sorted(P.funcs.values(), key=lambda f: f["q"]):
        if f["n"] == "EstimateOneReg" and f.get("body") and f["file"].startswith("Rpackage"):
            L = MainThread(P)
            L.run(f)
            rep.need("evaluations on the main thread", 1, L.calls)
            rep.ob(R, not L.problems, P.where(f, f), "%s: %s" % (f["q"], lines(L)), key=f["q"] + " main")


class MainThread(Look):
    calls = 0

    def prim(self, n, s):
        if n["k"] == "Call":
            if n["n"] == "ReportProgress" or n.get("o") is not None and any(x["k"] == "Mem" and x["n"] == "ReportProgress" for x in walk(n["o"])) and n.get("op") == "()":
                return [((s[0] - {"clear"} | {"polled"}, s[1]), None)], [s]
            if n.get("op") == "()" and "Function" in (n.get("oc") or ""):
                self.calls += 1
                if "polled" not in s[0]:
                    self.problem(n, "the user's function is called without looking for an interrupt")
                elif "clear" not in s[0]:
                    self.problem(n, "the user's function is called without looking at the request")
        return None

    def follow(self, f):
        return False
