"""E01: numerical and logical failures surface."""
from ..program import walk, strip, kids, show
from ..absint import K, ZERO, TRUE, BRK, is_k, State
from ..tables import Table
from ..flow import completes, fold
from .r01 import Parents, may_throw, guarded_nodes, own

LEVEL = "other"
TECHNIQUE = "abstract evaluation of every call site of a status-returning routine with the failing status injected; typestate of exception objects and handlers"
NOTE = ("Static analysis over every LAPACK call and every call of a function that hands on its status: with a positive and with a negative "
        "status no path may end as if it had succeeded. Every exception object must be thrown (or be a variable that is), every handler must "
        "raise, record or report. Optimisers that merely stop early are outside the rule.")
EXPLANATION = NOTE

LAPACK_STATUS = {"getrf", "getri", "potrf2", "potrf", "geqrf", "trtrs", "posv", "gesvd", "gesv", "syev", "potrs", "orgqr", "getrs", "potri"}


def lapack(n):
    m = n.get("n") or ""
    return n["k"] == "Call" and not n.get("o") and m.endswith("_") and m[1:-1] in LAPACK_STATUS


class Ev(Table):
    def __init__(self, P, site, V, status):
        super().__init__(P, lambda *a: False)
        self.site, self.V, self.status = site, V, status
        self.bad = []
        self.hit = False
        self.fmark = ("var", (), "$fail")
        self.propag = []
        self.loops = []

    def model_call(self, node, name, obj, args, st, fr):
        if lapack(node):
            loc = None
            a = args[-1] if args else None
            if a is not None and a[0] == "ptr" and a[1][0] == "adr":
                loc = a[1][1]
            v = K(0)
            if node is self.site:
                v = K(self.V)
                self.hit = True
                st.env[self.fmark] = K(1)
            for i, x in enumerate(args[:-1]):
                if x[0] == "ptr" and x[1][0] == "adr" and not str((node.get("pt") or [""] * 20)[i]).startswith("const"):
                    self.write(x[1][1], ("call", self.uid(node), fr.id, i), st, node, fr)
            if loc is not None:
                self.write(loc, v, st, node, fr)
            return K(0)
        if node["k"] == "Call" and any(t in self.status for t in self.P.targets(node)):
            if node is self.site:
                self.hit = True
                st.env[self.fmark] = K(1)
                return K(self.V)
            return K(0)
        return super().model_call(node, name, obj, args, st, fr)

    def one_iter(self, n, st, fr, cont, lid, outs):
        cur = super().one_iter(n, st, fr, cont, lid, outs)
        if cur is not None and cur.env.get(self.fmark) == K(1) and not self.quiet:
            c = n.get("c")
            again = TRUE
            if c is not None:
                self.quiet += 1
                again = self.cond(c, cur.copy(), fr)
                self.quiet -= 1
            if self.known(cur, again) is False:
                outs[BRK] = self.join(outs.get(BRK), cur) if outs.get(BRK) is not None else cur
            else:
                self.loops.append(n)
        return cur

    def on_return(self, node, val, st, fr):
        if fr.depth == 0 and st.env.get(self.fmark) not in (None, K(0)):
            v = self.rv(val, st) if val is not None else None
            self.propag.append((node, v, st.env.get(self.fmark)))


def fails(v):
    """a returned value that says 'failed'"""
    if v is None:
        return False
    if is_k(v) and v[1] is not None and not isinstance(v[1], bool):
        return isinstance(v[1], str) and v[1] != "" or (not isinstance(v[1], str) and (v[1] != v[1] or v[1] != 0))
    s = str(v)
    return "nan" in s.lower() or "NAN" in s


def outcome(P, f, site, status):
    """(handled, propagates, description) for a failing call at site"""
    prop, bad, hit = False, None, False
    for V in (3, -2):
        ev = Ev(P, site, V, status)
        st = State()
        st.env[ev.fmark] = K(0)
        out, v = ev.run(f["f"], state=st)
        hit = hit or ev.hit
        void = f.get("rt") in ("void", "", None) or f.get("ctor")
        if void:
            if out is not None and out.env.get(ev.fmark) != K(0):
                bad = "continues as if status %d meant success" % V
        if ev.loops:
            bad = "goes on with the next round of the loop at line %s although the status was %d" % (ev.loops[0].get("l"), V)
        for node, v, m in ev.propag:
            if void:
                continue
            if fails(v):
                if is_k(v) and v[1] == V:
                    prop = True
            else:
                bad = "returns %s at line %s although the status was %d" % ("a normal value", node.get("l"), V)
    return bad is None, prop, bad, hit


def exc_type(P, t):
    t = (t or "").replace("const ", "").strip(" &")
    if t in ("std::logic_error", "std::runtime_error", "std::invalid_argument", "std::out_of_range", "std::domain_error", "std::exception",
             "std::length_error", "std::range_error", "std::bad_alloc", "Rcpp::exception"):
        return True
    return t in P.records and ("std::exception" in P.bases(t) or any(exc_type(P, b) for b in P.records[t]["bases"]))


def run(P, rep):
    MESSAGE.clear()
    # ---- functions whose integer result is a failure status
    status = set()
    for f in P.funcs.values():
        if f.get("body") and own(f) and f.get("rt") == "int":
            rs = [strip(n["e"]) for n in P.all_nodes(f) if n["k"] == "Return" and n.get("e")]
            vs = [fold(r) if r["k"] != "Un" else (-fold(r["e"]) if r["op"] == "-" and fold(r["e"]) is not None else None) for r in rs]
            if f.get("c", "").startswith("ldt::Matrix<") and vs and all(v is not None for v in vs) and 0 in vs and any(v < 0 for v in vs):
                status.add(f["f"])
    sites = []
    done = set()
    ch = True
    while ch:
        ch = False
        for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"], f["f"])):
            if not f.get("body") or not own(f):
                continue
            for n in P.all_nodes(f):
                if id(n) in done or n["k"] != "Call":
                    continue
                if not (lapack(n) or any(t in status for t in P.targets(n))):
                    continue
                done.add(id(n))
                ok, prop, bad, hit = outcome(P, f, n, status)
                sites.append((f, n, ok, bad, hit))
                if prop and f.get("rt") == "int" and f["f"] not in status:
                    status.add(f["f"])
                    ch = True
    rep.did("status-returning functions", len(status))
    for f, n, ok, bad, hit in sites:
        if not hit:
            # code the evaluation never reaches (behind an unconditional error or a compile-time false)
            rep.did("unreachable status calls")
            continue
        rep.ob("a failing status surfaces", ok, P.where(f, n), "%s: status of %s: %s" % (f["q"], n["n"], bad or "handled"), key="%s|%s" % (f["q"], n["n"]))
    # ---- exception objects
    for f in P.funcs.values():
        if not f.get("body") or not own(f):
            continue
        pr = None
        for n in P.all_nodes(f):
            if n["k"] != "Ctor" or not exc_type(P, n.get("c")):
                continue
            if pr is None:
                pr = Parents(P, f)
            u = pr.up(n)
            while u is not None and u["k"] == "Ctor" and u.get("cp"):
                u = pr.up(u)
            ok = True
            if f.get("ctor") and exc_type(P, f.get("c")):
                continue          # base-class construction
            if u is None or u["k"] in ("Expr", "Block", "If", "Case", "Default", "For", "While"):
                ok = False
            elif u["k"] == "Decl":
                v = [v for v in u["v"] if v.get("init") is not None and any(x is n for x in walk(v["init"]))]
                ok = bool(v) and any(x["k"] == "Throw" and any(y.get("d") == v[0]["d"] for y in walk(x) if y["k"] == "Ref") for x in P.all_nodes(f))
            rep.ob("an error object is thrown", ok, P.where(f, n), "%s: %s %s" % (f["q"], n["c"], "thrown" if ok else "is built but never thrown"),
                   key="%s|%s" % (f["q"], n["c"]))
    # ---- handlers
    mt = may_throw(P)
    for f in P.funcs.values():
        if not f.get("body") or not own(f):
            continue
        for n in P.all_nodes(f):
            if n["k"] != "Try":
                continue
            live = False
            for x, g in guarded_nodes(dict(f, body=n["b"], inits=None)):
                if g:
                    continue
                if x["k"] == "Throw" or x["k"] in ("Call", "Ctor") and (x.get("q") == "Rcpp::stop" or x.get("n") in ("at", "rethrow_exception")
                                                                       or any(mt.get(t) for t in P.targets(x)) or (x["k"] == "Call" and not P.targets(x) and not x.get("q", "").startswith("std::"))
                                                                       or x.get("q", "").startswith("std::sto")):
                    live = True
            for h in n["h"]:
                ok, why = handler_ok(P, f, n, h)
                rep.ob("an intercepted error is raised, recorded or reported", ok or not live, "%s:%s" % (f["file"], h["b"].get("l") or n.get("l")),
                       "%s: handler %s" % (f["q"], why), key="%s|%s" % (f["q"], h.get("t") or "..."))
    # ---- error messages handed to the caller are looked at
    for f in P.funcs.values():
        if not f.get("body") or not own(f):
            continue
        for n in P.all_nodes(f):
            if n["k"] == "Expr":
                e = strip(n["e"])
                if e["k"] == "Call" and any(t in MESSAGE for t in P.targets(e)):
                    rep.ob("a returned error message is looked at", False, P.where(f, n), "%s drops the message of %s" % (f["q"], e.get("n")), key="%s|%s" % (f["q"], e.get("n")))
            elif n["k"] == "Call" and any(t in MESSAGE for t in P.targets(n)):
                rep.ob("a returned error message is looked at", True, P.where(f, n), f["q"], key="%s|%s" % (f["q"], n.get("n")))
    rep.floor("a failing status surfaces", 20)
    rep.floor("an error object is thrown", 300)
    rep.floor("an intercepted error is raised, recorded or reported", 10)


MESSAGE = set()


def says_something(e):
    for x in walk(e):
        if x["k"] == "Str" and x.get("v"):
            return True
        if x["k"] == "Call" and x.get("n") == "what":
            return True
        if x["k"] == "Bool" or x["k"] == "Int" and x["v"]:
            return True
        if x["k"] == "Call" and x.get("n") == "current_exception":
            return True
    return False


RECORD = ("insert", "push_back", "emplace", "push", "append", "operator+=")


def handler_ok(P, f, t, h):
    b = h["b"]
    c = completes(b, P)
    if c <= {"T"}:
        return True, "raises"
    for x in walk(b):
        if x["k"] == "Throw":
            pass
        if x["k"] == "Call":
            q = x.get("n") or ""
            if q in RECORD and x.get("o") is not None:
                return True, "records into %s" % show(x["o"])
            ts = P.targets(x)
            if ts and x.get("a"):
                return True, "records through %s" % q
            if x.get("callee") is not None or x.get("op") == "()":
                return True, "records through a callable"
            if q in ("current_exception",):
                return True, "keeps the exception"
        if x["k"] == "Call" and x.get("op") == "=" and x.get("o") is not None or x["k"] == "Bin" and x["op"] == "=":
            v = strip(x["o"] if x["k"] == "Call" else x["a"])
            if v["k"] == "Ref" and v.get("d") and not any(y["k"] == "Decl" and any(w.get("d") == v["d"] for w in y["v"]) for y in walk(b)):
                src = x["a"][0] if x["k"] == "Call" else x["b"]
                if says_something(src) and any(y["k"] == "If" and any(z.get("d") == v["d"] for z in walk(y["c"])) for y in walk(f["body"]) if not any(y is w for w in walk(b))):
                    return True, "keeps the error in %s, which is tested afterwards" % v["n"]
        if x["k"] == "Return" and x.get("e") is not None:
            e = strip(x["e"])
            if (f.get("rt") or "").startswith("std::string") or "basic_string" in (f.get("rt") or ""):
                if says_something(e) or h.get("d") and any(y["k"] == "Ref" and y.get("d") == h["d"] for y in walk(e)):
                    MESSAGE.add(f["f"])
                    return True, "returns an error message"
            v = fold(e)
            txt = show(e)
            if "inf" in txt.lower() or "nan" in txt.lower() or (v is not None and v not in (0, "", True)) or (e["k"] == "Bool" and not e["v"]) \
                    or e["k"] == "Un" and e["op"] == "-":
                return True, "returns a failing value"
    if "C" in c or "N" in c:
        # silently invalid: a success counter after the try statement must be skipped
        cnt = success_counter(f, t, "C" in c and "N" not in c)
        if cnt:
            return True, "skips the success counter %s" % cnt
    return False, "neither raises, records nor reports the error"


def success_counter(f, t, skips):
    """name of a counter that only advances when the try block succeeded"""
    chain = []

    def find(n):
        for c in kids(n):
            if c is t or find(c):
                chain.append((n, c))
                return True
        return False
    find(f["body"])
    if not skips:
        return None
    for blk, child in chain:
        if blk["k"] == "Block":
            i = [j for j, s in enumerate(blk["s"]) if s is child]
            for s in blk["s"][i[0] + 1:]:
                if s["k"] == "Expr":
                    e = strip(s["e"])
                    if e["k"] == "Un" and ("++" in e["op"] or "--" in e["op"]):
                        nm = strip(e["e"]).get("n")
                        if any(x["k"] == "If" and any(y.get("n") == nm for y in walk(x["c"])) for x in walk(f["body"])):
                            return nm
        if blk["k"] in ("For", "While", "DoWhile", "RangeFor"):
            break
    return None
