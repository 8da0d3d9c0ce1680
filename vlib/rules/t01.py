"""T01: models evaluated in parallel share no mutable state."""
import re
from ..program import walk, strip
from ..modref import ModRef, Fn, root, lshow, D, E, F, is_ptr, ptrlike
from ..rast import rfunctions, rcalls, RError

LEVEL = "other"
TECHNIQUE = ("interprocedural points-to and modification analysis of everything reachable from Searcher::Start: memory written is classified as private to the "
             "searcher or shared; escape check of the OpenMP region; forbidden-call check (host R interpreter, hidden library state) over the call graph")
NOTE = ("Every function reachable from the evaluation of a candidate (virtual targets, callbacks and lambdas included) is analysed: no write reaches static or global "
        "storage; every write through a pointer or reference member of a searcher goes to memory the searcher owns - the value that its constructors and evaluation "
        "give the member never is memory handed to the constructor; inside the parallel region only what the iteration declares, its own searcher and its own "
        "buffers are written (or under critical/atomic); no call of the R interpreter except from RFuncSearcher, whose searches are neither parallel nor on a worker "
        "thread; no call of library functions with hidden state. Elements of one array are one location. The cancel flag and the progress counters, which the "
        "reporting thread reads while they change, are not part of this argument.")
EXPLANATION = NOTE

HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale",
          "strerror", "tmpnam", "getenv", "setenv", "putenv", "unsetenv", "strsignal", "lgamma_r_global", "ecvt", "fcvt", "crypt", "qsort_r_global", "signal", "atexit"}
RAPI = re.compile(r"^(Rcpp::|R_|Rf_|Rprintf$|REprintf$|Rvprintf$|INTEGER$|REAL$|LOGICAL$|STRING_|VECTOR_|SET_|TYPEOF$|MARK_|ALTREP|unif_rand$|norm_rand$|exp_rand$|GetRNGstate$|PutRNGstate$|PROTECT|UNPROTECT)")


def outer_d(l):
    """the dereference closest to the root"""
    o = None
    while l[0] in ("f", "e", "d"):
        if l[0] == "d":
            o = l
        l = l[1]
    return o


class Members:
    """what a location below `this` denotes after the constructor and any number of evaluations"""

    def __init__(self, M, ctor, starts):
        self.fn = Fn(M, ctor)
        self.fn.env = dict(M.of(ctor["f"]).out)
        self.starts = []
        for s in starts:
            x = Fn(M, s)
            x.env = {k: v for k, v in M.of(s["f"]).out.items() if root(k if k[0] != "~" else k[1]) == ("T",)}
            self.starts.append(x)

    def value(self, r, depth=0):
        """memory that location r (below this) may point to, in terms of the constructor's parameters"""
        out = set()
        for v in self.fn.get(r):
            if v != D(r):
                out.add(v)
        if depth < 3:
            for s in self.starts:
                for v in s.get(r):
                    if v != D(r):
                        if root(v) == ("T",):
                            out |= self.resolve(v, depth + 1)
                        elif root(v)[0] in ("N", "G"):
                            out.add(v)
        return out

    def resolve(self, l, depth=0):
        if l[0] not in ("f", "e", "d"):
            return {l}
        b = self.resolve(l[1], depth)
        if l[0] in ("f", "e"):
            return {(l[0], x) + l[2:] for x in b}
        out = set()
        for x in b:
            if root(x) == ("T",):
                out |= self.value(x, depth)
            elif root(x)[0] == "P":
                out.add(D(x))
        return out


def run(P, rep):
    M = ModRef(P)

    def suspect(f, s):
        return any(root(l) == ("T",) and outer_d(l) is not None for l in s.mods)
    M.suspect = suspect
    smemo = {}

    def mods_of(k):
        if k not in smemo:
            smemo[k] = sorted(M.of(k).mods.items(), key=str)
        return smemo[k]
    starts = [f for f in P.funcs.values() if f["n"] == "Start" and f.get("c") == "ldt::Searcher"]
    if len(starts) != 1:
        rep.need("the evaluation loop (ldt::Searcher::Start)", 1, len(starts))
        return
    start = starts[0]
    reach = P.reach([start["f"]])
    rep.did("functions reachable from the evaluation", len(reach))

    # 1. static and global storage
    for k in sorted(reach, key=lambda k: (P.funcs[k]["file"], P.funcs[k]["l"], k)):
        f = P.funcs[k]
        hit = None
        for l, v in mods_of(k):
            if root(l)[0] == "G" and not root(l)[1].endswith("@thread") and v[1] is None:
                hit = (l, v)
                break
        rep.ob("static storage", hit is None, hit[1][0] if hit else P.where(f),
               f["q"] + ("" if hit is None else " writes to static or global storage %s, which models evaluated at the same time share" % lshow(hit[0], f)),
               key=f["q"])
    rep.floor("static storage", 300)

    # 2. memory shared by searchers
    classes = [c for c in P.derived("ldt::Searcher")]
    nev = 0
    for c in sorted(classes):
        ctors = [f for f in P.ctors(c) if f["p"] and not (len(f["p"]) == 1 and c.split("<")[0].split("::")[-1] in f["p"][0]["t"])]
        evs = [f for f in P.funcs.values() if f.get("c") == c and f["n"] in ("EstimateOne", "EstimateOneReg", "Start")]
        names = fieldnames(P, c)
        base_evs = [start] + [f for b in P.bases(c) for f in P.funcs.values() if f.get("c") == b and f["n"] in ("EstimateOne", "EstimateOneReg") and f.get("body")]
        for ct in ctors:
            mem = Members(M, ct, evs + base_evs)
            for f in evs + base_evs:
                nev += 1
                for l, v in mods_of(f["f"]):
                    if root(l) != ("T",):
                        continue
                    d = outer_d(l)
                    if d is None:
                        continue
                    if topfield(l) not in names:
                        continue
                    sh = sorted({lshow(x, ct) for x in mem.resolve(l) if root(x)[0] == "P" or root(x)[0] == "G" and not root(x)[1].endswith("@thread")})
                    where = v[0]
                    via = " through %s" % v[1][0]["q"] if v[1] else ""
                    rep.ob("memory of the searcher", not sh, where,
                           "%s: %s" % (c, lshow(l, f)) + ("" if not sh else " is written by %s%s while models are evaluated, and it is %s of the constructor, which other searchers share"
                                                           % (f["q"], via, ", ".join(sh[:3]))), key="%s|%s" % (c, lshow(l, f)))
    rep.floor("memory of the searcher", 60)
    rep.need("evaluations analysed", 20, nev)

    region(P, M, rep)
    interpreter(P, rep, reach, start)
    hidden(P, rep, reach)


def topfield(l):
    n = None
    while l[0] in ("f", "e", "d"):
        if l[0] == "f":
            n = l[2]
        l = l[1]
    return n


def fieldnames(P, c):
    out = set()
    for x in [c] + list(P.bases(c)):
        r = P.records.get(x)
        if r:
            out |= {fd["n"] for fd in r["fields"]}
    return out


# ---------------------------------------------------------------- 3. the parallel region
ACCESS = {"at", "operator[]", "begin", "end", "front", "back", "data", "get", "operator->", "operator*", "size", "empty", "c_str", "rbegin", "rend", "length"}


class Region:
    def __init__(self, P, M, f, omp):
        self.P, self.M, self.f, self.omp = P, M, f, omp
        self.bad = []
        self.nodes = 0
        b = omp["b"]
        self.loopvars = set()
        if b["k"] == "For":
            for v in decls(b.get("i")):
                self.loopvars.add(v["d"])
            body = b["b"]
            for part in (b.get("n"),):
                pass
        elif b["k"] == "RangeFor":
            self.loopvars.add(b["v"]["d"] if isinstance(b["v"], dict) and "d" in b["v"] else None)
            body = b["b"]
        else:
            body = b
        self.local = {}           # declared inside: decl id -> initialiser
        self.privs = set()
        for c in omp.get("cl") or []:
            if isinstance(c, dict):
                if re.search("private|reduction", c.get("n", "")):
                    self.privs |= set(c.get("v") or [])
            elif isinstance(c, str) and re.search("private|reduction", c):
                self.privs.add(c)
        self.collect(body)
        self.this_shared = True
        self.depth = 0
        self.lams = {}
        for v in decls(f.get("body")):
            i = strip(v.get("init"))
            if i is not None and i["k"] == "Lambda" and "d" in v:
                self.lams[v["d"]] = i
        self.seen = set()
        self.scan(body)

    def enter(self, g, n):
        """the body of a helper that is given the index of the iteration (or something of its own)"""
        R = Region.__new__(Region)
        R.P, R.M, R.f, R.omp = self.P, self.M, g, self.omp
        R.bad, R.nodes, R.loopvars, R.local, R.privs, R.seen, R.lams = [], 0, set(), {}, set(), set(), {}
        R.depth = self.depth + 1
        R.this_shared = True if n.get("o") is None else self.shared(n["o"])
        for p, a in zip(g["p"], n.get("a") or []):
            if self.own_index(a):
                R.loopvars.add(p["d"])
            t = p["t"]
            if not (t.rstrip().endswith("&") or is_ptr(t) or ptrlike(t)) or not self.shared(a):
                R.local[p["d"]] = {"t": "", "init": None}
        R.collect(g["body"])
        for v in decls(g["body"]):
            i = strip(v.get("init"))
            if i is not None and i["k"] == "Lambda" and "d" in v:
                R.lams[v["d"]] = i
        R.scan(g["body"])
        self.nodes += R.nodes
        return R.bad

    def collect(self, n):
        for x in walk(n):
            if x["k"] == "Decl":
                for v in x["v"]:
                    if "d" in v and not v.get("static"):
                        self.local[v["d"]] = v
            elif x["k"] == "RangeFor" and isinstance(x.get("v"), dict) and "d" in x["v"]:
                v = dict(x["v"])
                v["init"] = x["r"]
                self.local[v["d"]] = v
            elif x["k"] == "Try":
                for h in x.get("h") or []:
                    v = h.get("v") if isinstance(h, dict) else None
                    if isinstance(v, dict) and "d" in v:
                        self.local[v["d"]] = dict(v, init=None)
            elif x["k"] == "Lambda":
                for p in x.get("p") or []:
                    if isinstance(p, dict) and "d" in p:
                        self.local[p["d"]] = dict(p, init=None)

    def collect_body(self, L):
        keep = {p["d"]: self.local.get(p["d"]) for p in L.get("p") or [] if isinstance(p, dict)}
        self.collect(L["body"])
        for d, v in keep.items():
            if v is None:
                self.local.pop(d, None)

    def own_index(self, i):
        i = strip(i)
        if i is None:
            return False
        if i["k"] == "Ref" and i.get("d") in self.loopvars:
            return True
        for x in walk(i):
            if x["k"] == "Call" and x.get("n") == "omp_get_thread_num":
                return True
        if i["k"] == "Ref" and i.get("d") in self.local and self.local[i["d"]].get("init"):
            return self.own_index(self.local[i["d"]]["init"])
        return False

    def shared(self, e, depth=0):
        """does e denote (or point to) memory that other iterations use too?"""
        e = strip(e)
        if e is None or depth > 20:
            return False
        k = e["k"]
        if k == "Cast":
            return self.shared(e["e"], depth + 1)
        if k == "Ref":
            if e.get("dk") in ("func", "enum"):
                return False
            d = e.get("d")
            if d in self.loopvars or e.get("n") in self.privs or e.get("tls"):
                return False
            if d in self.local:
                v = self.local[d]
                t = v.get("t") or ""
                if t.rstrip().endswith("&") or is_ptr(t) or ptrlike(t):
                    return self.shared(v.get("init"), depth + 1) if v.get("init") else False
                return False
            return True
        if k == "This":
            return self.this_shared
        if k == "Mem":
            return self.shared(e["b"], depth + 1)
        if k == "Sub":
            if self.own_index(e["i"]):
                return False
            return self.shared(e["b"], depth + 1)
        if k == "Un":
            return self.shared(e["e"], depth + 1)
        if k == "Bin":
            if e["op"] in ("+", "-") and (self.own_index(e["b"]) or self.own_index(e["a"])):
                return False
            return (self.shared(e["a"], depth + 1) or self.shared(e["b"], depth + 1)) if (is_ptr(e.get("t") or "") or e["op"] in ("=", ",")) else False
        if k == "Cond":
            return self.shared(e["a"], depth + 1) or self.shared(e["b"], depth + 1)
        if k == "Call":
            n = e.get("n")
            if n in ("at", "operator[]") and e.get("a") and self.own_index(e["a"][-1]):
                return False
            o = e.get("o")
            if n in ACCESS or e.get("op") in ("[]", "*", "->"):
                base = o if o is not None else (e["a"][0] if e.get("a") else None)
                return self.shared(base, depth + 1)
            t = e.get("t") or ""
            if is_ptr(t) or t.rstrip().endswith("&"):
                return (o is not None and self.shared(o, depth + 1)) or any(self.shared(a, depth + 1) for a in e.get("a") or [])
            return False
        return False

    def report(self, n, what):
        self.bad.append((self.P.where(self.f, n), what))

    def scan(self, n):
        from ..program import kids, show
        if n is None:
            return
        if n["k"] == "OMP" and re.search("critical|atomic", n.get("dir") or ""):
            return
        self.nodes += 1
        k = n["k"]
        if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            if self.shared(n["a"]):
                self.report(n, "writes to %s, which the other iterations share" % show(n["a"]))
        elif k == "Un" and n.get("op") in ("++", "--", "p++", "p--", "post++", "post--"):
            if self.shared(n["e"]):
                self.report(n, "writes to %s, which the other iterations share" % show(n["e"]))
        elif k == "Call":
            self.call(n)
        for c in kids(n):
            if isinstance(c, dict):
                self.scan(c)

    def call(self, n):
        from ..program import show
        name = n.get("n") or ""
        o = n.get("o")
        ts = self.P.targets(n)
        if n.get("op") == "()" or name == "operator()":
            c = strip(o if o is not None else (n["a"][0] if n.get("a") else None))
            if c is not None and c["k"] == "Ref" and c.get("d") in self.lams:
                L = self.lams[c["d"]]
                if c["d"] not in self.seen:
                    self.seen.add(c["d"])
                    args = n["a"] if o is not None else n["a"][1:]
                    for p, a in zip(L.get("p") or [], args):
                        if self.own_index(a):
                            self.loopvars.add(p["d"])
                        if not self.shared(a):
                            self.local[p["d"]] = {"t": "", "init": None}
                        else:
                            self.local.pop(p["d"], None)
                    if c["d"] not in self.local:
                        self.collect_body(L)
                        self.scan(L["body"])
                return
        if ts:
            if len(ts) == 1 and self.depth < 4 and any(self.own_index(a) for a in n.get("a") or []):
                g = self.P.funcs[list(ts)[0]]
                if g.get("body") and not g.get("ctor"):
                    self.bad += self.enter(g, n)
                    return
            for t in ts:
                s = self.M.of(t)
                g = self.P.funcs[t]
                for l in s.mods:
                    r = root(l)
                    if r == ("T",) and o is not None and self.shared(o):
                        self.report(n, "%s writes to %s of %s, which the other iterations share" % (g["q"], lshow(l, g), show(o)))
                        break
                    if r == ("T",) and o is None and self.this_shared and not g.get("static") and not g.get("ctor"):
                        self.report(n, "%s writes to %s, which the other iterations share" % (g["q"], lshow(l, g)))
                        break
                    if r[0] == "P" and r[1] < len(n.get("a") or []) and self.shared(n["a"][r[1]]):
                        self.report(n, "%s writes to %s, given as %s, which the other iterations share" % (g["q"], lshow(l, g), show(n["a"][r[1]])))
                        break
            return
        const = n.get("cm") or name in ACCESS
        op = n.get("op")
        if op and (op.endswith("=") and op not in ("==", "!=", "<=", ">=") or op in ("++", "--")):
            base = o if o is not None else (n["a"][0] if n.get("a") else None)
            if base is not None and self.shared(base):
                self.report(n, "writes to %s, which the other iterations share" % show(base))
            return
        if op or const:
            return
        if o is not None and self.shared(o):
            self.report(n, "%s changes %s, which the other iterations share" % (name, show(o)))
        if o is None or True:
            for a, t in zip(n.get("a") or [], n.get("pt") or []):
                if (t.rstrip().endswith("&") and not t.startswith("const") and "&&" not in t or is_ptr(t) and not t.startswith("const")) and self.shared(a):
                    self.report(n, "%s may change %s, which the other iterations share" % (name or n.get("q"), show(a)))


def decls(n):
    for x in walk(n) if n else ():
        if x["k"] == "Decl":
            for v in x["v"]:
                yield v


def region(P, M, rep):
    found = 0
    runs = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"])):
        for n in P.all_nodes(f):
            if n["k"] == "OMP" and "parallel" in (n.get("dir") or ""):
                found += 1
                R = Region(P, M, f, n)
                starts = [c for c in walk(n) if c["k"] == "Call" and any(P.funcs[t]["q"] == "ldt::Searcher::Start" or any(P.funcs[r]["q"] == "ldt::Searcher::Start" for r in P.reach([t])) for t in P.targets(c))]
                runs += len(starts)
                rep.ob("parallel region", not R.bad, R.bad[0][0] if R.bad else P.where(f, n),
                       f["q"] + ("" if not R.bad else ": the parallel region " + "; ".join(b for _, b in R.bad[:3])), key=f["q"])
                rep.did("statements and expressions of parallel regions", R.nodes)
    rep.need("parallel regions that evaluate searchers", 1, runs)


# ---------------------------------------------------------------- 4. host interpreter, hidden state
def external(P, f):
    for c in P.calls(f):
        if c["k"] == "Ctor":
            if (c.get("c") or "").startswith("Rcpp::"):
                yield c, c["c"]
            continue
        if not P.targets(c):
            yield c, c.get("q") or c.get("n") or ""
        elif (c.get("q") or "").startswith("Rcpp::"):
            yield c, c["q"]


def interpreter(P, rep, reach, start):
    rcl = set()
    for k in sorted(reach, key=lambda k: (P.funcs[k]["file"], P.funcs[k]["l"], k)):
        f = P.funcs[k]
        hits = [(c, n) for c, n in external(P, f) if RAPI.match(n)]
        cls = f.get("c")
        if hits and cls and "ldt::Searcher" in P.bases(cls) and f["file"].startswith("Rpackage"):
            rcl.add(cls)
            continue
        # called only from such a class?
        rep.ob("host interpreter", not hits, P.where(f, hits[0][0]) if hits else P.where(f),
               f["q"] + ("" if not hits else " calls %s of the host R interpreter and is reached by evaluations on worker threads (%s)" % (
                   hits[0][1], " <- ".join(reversed(P.path(reach, k)[-4:])))), key=f["q"])
    rep.floor("host interpreter", 300)
    # searchers that call R: never parallel and never on a worker thread
    for cls in sorted(rcl):
        makers = [f for f in P.funcs.values() if any(n["k"] == "Ctor" and n.get("c") == cls for n in P.all_nodes(f)) and f.get("c") != cls]
        entry = set()
        for m in makers:
            for f in P.funcs.values():
                if f["file"].startswith("Rpackage") and m["f"] in P.reach([f["f"]]):
                    entry.add(f["f"])
        names = sorted({P.funcs[e]["q"] for e in entry})
        for e in sorted(entry):
            f = P.funcs[e]
            asy = [c for c in P.calls(f) if (c.get("q") or c.get("c") or "") in ("std::async", "std::thread", "std::jthread")]
            rep.ob("R models on the host thread", not asy, P.where(f, asy[0]) if asy else P.where(f),
                   f["q"] + ("" if not asy else " runs a search whose models call R on another thread"), key=f["q"])
        off = any(parallel_off_cpp(P, P.funcs[e]) for e in entry)
        where, why = "", ""
        if not off:
            off, where, why = parallel_off_r(names)
        rep.ob("R models are not parallel", off, where or (P.where(P.funcs[sorted(entry)[0]]) if entry else ""),
               "%s: parallel evaluation is switched off%s" % (cls, "" if off else " nowhere between the user and the search: " + why), key=cls)
    rep.need("searchers that call R", 1, len(rcl))


def parallel_off_cpp(P, f):
    for n in P.all_nodes(f):
        if n["k"] == "Bin" and n["op"] == "=" and strip(n["a"])["k"] == "Mem" and strip(n["a"])["n"] == "Parallel":
            v = strip(n["b"])
            if v["k"] in ("Bool", "Int", "Num", "Lit") and str(v.get("v")).lower() in ("false", "0"):
                return True
    return False


def parallel_off_r(names):
    """every R function that calls one of the entry points sets options$parallel to FALSE first"""
    fs = rfunctions()
    cand = ["." + n for n in names]
    n = 0
    for name, fn in sorted(fs.items()):
        calls = [c for c in rcalls(fn["body"]) if c["fn"] in cand]
        if not calls:
            continue
        n += 1
        top = fn["body"]["a"] if fn["body"].get("fn") == "{" else [{"v": fn["body"]}]
        done = False
        for st in top:
            s = st["v"]
            if any(c["fn"] in cand for c in rcalls(s)):
                if not done:
                    return False, "Rpackage/R/%s:%s" % (fn["file"], s.get("l") or fn["l"]), "%s calls the search with the user's choice of parallel" % name
            if sets_false(s):
                done = True
            elif s.get("fn") == "if" and sets_false_block(s["a"][1]["v"]) and is_parallel(s["a"][0]["v"]):
                done = True
    return n > 0, "", "no R function calls it" if not n else ""


def is_parallel(e):
    return e.get("fn") == "$" and e["a"][1]["v"].get("n") == "parallel"


def sets_false(s):
    if s.get("fn") not in ("<-", "="):
        return False
    a, b = s["a"][0]["v"], s["a"][1]["v"]
    return is_parallel(a) and b.get("k") == "bool" and b.get("v") is False


def sets_false_block(s):
    if s.get("fn") == "{":
        return any(sets_false(x["v"]) for x in s["a"])
    return sets_false(s)


def hidden(P, rep, reach):
    for k in sorted(reach, key=lambda k: (P.funcs[k]["file"], P.funcs[k]["l"], k)):
        f = P.funcs[k]
        hits = [(c, n) for c, n in external(P, f) if n.split("::")[-1] in HIDDEN and (n.startswith("std::") and n.count("::") == 1 or "::" not in n)]
        rep.ob("hidden library state", not hits, P.where(f, hits[0][0]) if hits else P.where(f),
               f["q"] + ("" if not hits else " calls %s, which keeps state shared by all threads" % hits[0][1]), key=f["q"])
