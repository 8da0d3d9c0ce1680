"""R01: every allocation has exactly one owner that releases it."""
from ..program import walk, strip, kids, show
from ..absint import base_type
import re

LEVEL = "other"
TECHNIQUE = "ownership typestate over every allocation, hand-off and release site of the typed AST"
NOTE = ("Static analysis over every new/delete/smart-pointer construction in the parsed translation units, including exceptional paths "
        "(calls that can reach a throw). Running out of memory inside push_back itself is not considered; translated Fortran is not covered.")
EXPLANATION = NOTE

SMART = ("std::unique_ptr<", "std::shared_ptr<")


def own(f):
    return not f["file"].startswith("/") and not f["file"].endswith(".c")


def is_smart(t):
    return bool(t) and t.replace("const ", "").strip().startswith(SMART)


class Parents:
    def __init__(self, P, f):
        self.m = {}
        roots = [i["e"] for i in f.get("inits") or [] if i.get("e")] + ([f["body"]] if f.get("body") else [])
        for r in roots:
            for n in walk(r):
                for c in kids(n):
                    self.m[id(c)] = n

    def up(self, n):
        """nearest parent that is not a cast"""
        x = self.m.get(id(n))
        while x is not None and (x["k"] in ("ICast", "Cast")):
            x = self.m.get(id(x))
        return x


def may_throw(P):
    """functions that can end by an exception other than bad_alloc"""
    if hasattr(P, "_mt"):
        return P._mt
    mt = {}
    call = {}
    for k, f in P.funcs.items():
        if not f.get("body"):
            continue
        t = False
        cs = set()
        for n, guarded in guarded_nodes(f):
            if guarded:
                continue
            if n["k"] == "Throw":
                t = True
            elif n["k"] in ("Call", "Ctor"):
                if n.get("q") == "Rcpp::stop" or (n.get("n") == "at" and not n.get("in")):
                    t = True
                cs.update(P.targets(n))
        mt[k] = t
        call[k] = cs
    ch = True
    while ch:
        ch = False
        for k in mt:
            if not mt[k] and any(mt.get(c) for c in call[k]):
                mt[k] = True
                ch = True
    P._mt = mt
    return mt


def guarded_nodes(f):
    """(node, inside a try with a catch-all)"""
    out = []
    st = [(f["body"], False)] + [(i["e"], False) for i in f.get("inits") or [] if i.get("e")]
    while st:
        n, g = st.pop()
        out.append((n, g))
        if n["k"] == "Lambda":
            continue
        if n["k"] == "Try":
            ca = any(h.get("t") in (None, "", "...") for h in n["h"])
            st.append((n["b"], g or ca))
            for h in n["h"]:
                st.append((h["b"], g))
            continue
        for c in kids(n):
            st.append((c, g))
    return out


def node_throws(P, n):
    mt = may_throw(P)
    for x in walk(n):
        if x["k"] == "Throw":
            return x
        if x["k"] in ("Call", "Ctor"):
            if x.get("q") == "Rcpp::stop" or x.get("n") == "at":
                return x
            if any(mt.get(t) for t in P.targets(x)):
                return x
    return None


def deleted_members(P, cls):
    """members whose pointees the destructor releases: name -> (whole container?, guard member)"""
    out = {}
    for d in P.funcs.values():
        if d.get("c") == cls and d.get("dtor") and d.get("body"):
            def rec(n, guard, loop):
                if n is None:
                    return
                k = n["k"]
                if k == "If":
                    c = strip(n["c"])
                    rec(n["a"], guard + [n["c"]], loop)
                    rec(n.get("b"), guard + [n["c"]], loop)
                    return
                if k in ("RangeFor", "For"):
                    rec(n["b"], guard, loop + [n])
                    return
                if k == "Delete":
                    e = strip(n["e"])
                    m = None
                    if e["k"] == "Mem" and strip(e["b"])["k"] == "This":
                        m = e["n"]
                    elif loop:
                        l = loop[-1]
                        if l["k"] == "RangeFor":
                            r = strip(l["r"])
                            v = l["v"]
                            if r["k"] == "Mem" and e["k"] == "Ref" and v and e["d"] == v["d"]:
                                m = r["n"]
                        else:
                            ms = [x["n"] for x in walk(n["e"]) if x["k"] == "Mem"]
                            m = ms[0] if ms else None
                        brk = [x for x in walk(l["b"]) if x["k"] in ("Break", "Return", "Continue", "Throw")]
                        out.setdefault("!loops", []).append((d, l, m, brk))
                    if m:
                        out[m] = dict(node=n, guard=guard, f=d, arr=n.get("arr"))
                    return
                for c in kids(n):
                    rec(c, guard, loop)
            rec(d["body"], [], [])
    return out


def run(P, rep):
    mt = may_throw(P)
    owners = {}
    for r in P.records.values():
        dm = deleted_members(P, r["n"])
        if dm:
            owners[r["n"]] = dm
            for d, l, m, brk in dm.get("!loops", []):
                rep.ob("a destructor releases everything it owns", not brk and m is not None, P.where(d, l),
                       "%s leaves its releasing loop early" % d["q"], key=d["q"])
    # functions that give an allocation to their caller
    givers = {}
    work = []
    for f in P.funcs.values():
        if own(f) and f.get("body"):
            for n in P.all_nodes(f):
                if n["k"] == "New":
                    work.append((f, n))
    done = set()
    news = len(work)
    par = {}

    def parents(f):
        if f["f"] not in par:
            par[f["f"]] = Parents(P, f)
        return par[f["f"]]

    def owning_member(f, e):
        """e names a container/pointer member whose class destructor releases it"""
        e = strip(e)
        if e["k"] == "Mem":
            for c in [e.get("c")] + ([f["c"]] if f.get("c") else []):
                if c:
                    for b in [c] + P.bases(c) + P.derived(c):
                        if e["n"] in owners.get(b, {}):
                            return b, e["n"]
        return None

    pushes = []       # (f, node, class, member)

    def push(f, u, om, n):
        pushes.append((f, u, om))
        if n["k"] == "New":
            rep.ob("the releasing form matches the allocation", bool(n.get("arr")) == bool(owners[om[0]][om[1]]["arr"]), P.where(f, n),
                   "%s: new%s kept in %s::%s, released with delete%s" % (f["q"], "[]" if n.get("arr") else "", om[0], om[1], "[]" if owners[om[0]][om[1]]["arr"] else ""),
                   key="%s|%s" % (f["q"], om[1]))
    while work:
        f, n = work.pop()
        if (f["f"], id(n)) in done:
            continue
        done.add((f["f"], id(n)))
        pr = parents(f)
        u = pr.up(n)
        what = n.get("at") or n.get("n")
        kd = "an allocation goes straight to its owner"
        key = "%s|%s" % (f["q"], what)
        if u is None:
            rep.ob(kd, False, P.where(f, n), "%s: result of new %s is dropped" % (f["q"], what), key=key)
            continue
        if u["k"] == "Ctor" and is_smart(u.get("c")):
            arr = "[]" in (u.get("c") or "")
            rep.ob(kd, n["k"] != "New" or bool(n.get("arr")) == arr, P.where(f, n), "%s: new %s given to %s" % (f["q"], what, u["c"]), key=key)
            continue
        if u["k"] == "Call" and u.get("n") == "reset" and is_smart(u.get("oc")):
            rep.ob(kd, True, P.where(f, n), "%s: %s" % (f["q"], what))
            continue
        if u["k"] == "Call" and u.get("n") in ("push_back", "emplace_back") and u.get("o"):
            om = owning_member(f, u["o"])
            ct = (strip(u["o"]).get("t") or u.get("oc") or "")
            if om:
                push(f, u, om, n)
                rep.ob(kd, True, P.where(f, n), "%s: new %s handed to %s::%s" % (f["q"], what, om[0], om[1]))
            else:
                rep.ob(kd, "unique_ptr" in (u.get("oc") or "") , P.where(f, n),
                       "%s: new %s is put into %s, which nobody releases" % (f["q"], what, show(u["o"])), key=key)
            continue
        var = None
        if u["k"] == "Decl":
            var = [v for v in u["v"] if v.get("init") is not None and any(x is n for x in walk(v["init"]))][0]
        elif u["k"] == "Bin" and u["op"] == "=":
            a = strip(u["a"])
            if a["k"] == "Ref" and a.get("dk") == "var":
                var = a
            elif a["k"] == "Mem":
                om = owning_member(f, a)
                rep.ob(kd, om is not None, P.where(f, n), "%s: new %s stored in %s, which no destructor releases" % (f["q"], what, show(a)), key=key)
                if om:
                    push(f, u, om, n)
                continue
        elif u["k"] == "Return":
            givers.setdefault(f["f"], f)
            for g in P.funcs.values():
                if g.get("body") and own(g):
                    for c in P.calls(g):
                        if f["f"] in P.targets(c):
                            work.append((g, c))
            rep.ob(kd, True, P.where(f, n), "%s returns the allocation" % f["q"])
            continue
        if var is None:
            rep.ob(kd, False, P.where(f, n), "%s: new %s has no owner" % (f["q"], what), key=key)
            continue
        if is_smart(var.get("t")):
            rep.ob(kd, True, P.where(f, n), "%s: %s" % (f["q"], what))
            continue
        # raw local: must reach a hand-off before anything can throw or leave
        res = follow(P, f, n, var, owning_member)
        if res[0] == "return":
            givers.setdefault(f["f"], f)
            for g in P.funcs.values():
                if g.get("body") and own(g):
                    for c in P.calls(g):
                        if f["f"] in P.targets(c):
                            work.append((g, c))
        elif res[0] == "push":
            push(f, res[1], res[2], n)
        rep.ob(kd, res[0] != "bad", P.where(f, n), "%s: '%s' holding new %s %s" % (f["q"], var["n"], what, res[1] if res[0] == "bad" else "is handed on"), key=key)
    rep.did("allocation sites", news)
    # ---- the holder of raw owned members is destroyed even if building it fails
    for f, u, (cls, m) in pushes:
        dm = owners[cls][m]
        g = dm["guard"]
        for c in g:
            flag = [x["n"] for x in walk(c) if x["k"] == "Mem"]
            val = None
            for x in walk(f["body"]):
                if x["k"] == "Bin" and x["op"] == "=" and strip(x["a"])["k"] == "Mem" and strip(x["a"])["n"] in flag:
                    val = strip(x["b"])
                    if val["k"] == "Bool":
                        val = val["v"]
            rep.ob("an owned member is marked as owned", val is True and strip(c)["k"] in ("Mem", "Ref"), P.where(f, u),
                   "%s adds to %s::%s without marking it as owned" % (f["q"], cls, m), key="%s|%s" % (f["q"], m))
        if f.get("ctor"):
            deleg = any(i.get("deleg") for i in f.get("inits") or [])
            thr = node_throws(P, f["body"])
            rep.ob("a failing constructor releases what it allocated", deleg or thr is None, P.where(f, u),
                   "%s can fail (at line %s) after allocating into %s, which its destructor would release but is not run" % (f["q"], (thr or {}).get("l"), m),
                   key="%s|%s" % (f["q"], m))
    # ---- deletes
    for f in P.funcs.values():
        if not own(f) or not f.get("body"):
            continue
        for n in P.all_nodes(f):
            if n["k"] == "Delete":
                rep.did("release sites")
                e = strip(n["e"])
                t = base_type(e.get("t", "")).rstrip("*").strip() if e.get("t") else ""
                t = re.sub(r"\s*\*+\s*(const)?$", "", (e.get("t") or "")).replace("const ", "").strip()
                owner = f.get("dtor") and f.get("c") in owners
                local_new = False
                if e["k"] == "Ref" and not owner:
                    # releases a local: it must hold a fresh allocation, never a smart pointer's memory
                    srcs = sources(f, e)
                    local_new = bool(srcs) and all(s["k"] == "New" and bool(s.get("arr")) == bool(n.get("arr")) for s in srcs)
                rep.ob("only the owner releases", bool(owner or local_new), P.where(f, n),
                       "%s releases %s, which it does not own" % (f["q"], show(n["e"])), key="%s|%s" % (f["q"], show(n["e"])))
                if t in P.records and not n.get("arr"):
                    poly_ok(P, rep, t, P.where(f, n), "%s deletes" % f["q"])
            ct = n.get("c") if n["k"] == "Ctor" else None
            if n["k"] == "Ctor" and is_smart(ct) and n.get("a"):
                a = strip(n["a"][0])
                src = a
                if a["k"] in ("New", "ZeroInit", "Null"):
                    ok = True
                elif a.get("t") == "std::nullptr_t" or "nullptr" in str(a.get("t")):
                    ok = True
                elif a["k"] == "Ref":
                    if not (a.get("t") or "").rstrip("const ").rstrip().endswith("*"):
                        continue
                    ss = sources(f, a)
                    ok = bool(ss) and all(s["k"] == "New" or (s["k"] == "Call" and any(t in givers for t in P.targets(s))) for s in ss)
                elif a["k"] == "Call":
                    if not (a.get("t") or "").rstrip().endswith("*"):
                        continue
                    ok = a.get("n") == "release" or any(t in givers for t in P.targets(a))
                elif a["k"] in ("Ctor",):
                    continue
                elif a["k"] in ("Un", "Mem", "Sub"):
                    if not (a.get("t") or "").rstrip().endswith("*"):
                        continue
                    ok = False
                else:
                    continue
                rep.ob("a smart pointer takes only memory nobody else owns", ok, P.where(f, n),
                       "%s: %s takes %s" % (f["q"], ct, show(a)), key="%s|%s" % (f["q"], show(a)))
            if n["k"] == "Call" and n.get("n") == "release" and is_smart(n.get("oc")):
                u = parents(f).up(n)
                ok = u is not None and (u["k"] == "Ctor" and is_smart(u.get("c")) or u["k"] == "Call" and u.get("n") == "reset")
                rep.ob("released smart pointers are taken over", ok, P.where(f, n), "%s: result of release() has no owner" % f["q"], key=f["q"])
    # ---- polymorphic deletion through smart pointers
    seen = set()
    for t, where in smart_types(P):
        m = re.match(r"^std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete<.*>)?>$", t)
        if not m:
            continue
        c = m.group(1).strip().rstrip("[]")
        if c in seen or c not in P.records:
            continue
        seen.add(c)
        poly_ok(P, rep, c, where, "a smart pointer deletes")
    # ---- copies of owners
    for f in P.funcs.values():
        if not f.get("body") or not own(f):
            continue
        for n in P.all_nodes(f):
            if n["k"] == "Ctor" and n.get("cp") and n.get("c") in owners:
                r = P.records[n["c"]]
                user = any(m.get("copy") and not m.get("impl") and not m.get("dfl") for m in r["methods"])
                rep.ob("an owner of raw memory is never copied member by member", user, P.where(f, n),
                       "%s copies a %s, both copies release the same memory" % (f["q"], n["c"]), key="%s|%s" % (f["q"], n["c"]))
    rep.ob("an owner of raw memory is never copied member by member", True, "", "%d owner classes" % len(owners))
    rep.floor("an allocation goes straight to its owner", 60)
    rep.floor("deleted through a type with a virtual destructor", 6)
    rep.floor("a failing constructor releases what it allocated", 3)


def poly_ok(P, rep, c, where, what):
    r = P.records[c]
    ds = [d for d in P.derived(c, strict=True) if d in P.records]
    rep.ob("deleted through a type with a virtual destructor", not ds or bool(r.get("vdtor")), where,
           "%s a %s whose destructor is not virtual although %s derive from it" % (what, c, ", ".join(d for d in ds[:3])), key=c)


def smart_types(P):
    out = {}
    for f in P.funcs.values():
        if not own(f):
            continue
        for n in P.all_nodes(f):
            for t in ([n.get("c")] if n["k"] == "Ctor" else []) + ([v.get("t") for v in n["v"]] if n["k"] == "Decl" else []):
                if is_smart(t):
                    out.setdefault(t, P.where(f, n))
        t = f.get("rt")
        if is_smart(t):
            out.setdefault(t, P.where(f))
    for r in P.records.values():
        for fd in r["fields"]:
            for m in re.findall(r"std::(?:unique|shared)_ptr<[^<>]*(?:<[^<>]*>)?[^<>]*>", fd["t"]):
                out.setdefault(m, "%s:%s" % (r.get("file"), fd["l"]))
    return sorted(out.items())


def sources(f, ref):
    """initialisers and assignments of a local pointer"""
    out = []
    for n in walk(f["body"]):
        if n["k"] == "Decl":
            for v in n["v"]:
                if v["d"] == ref["d"] and v.get("init") is not None:
                    out.append(strip(v["init"]))
        if n["k"] == "Bin" and n["op"] == "=":
            a = strip(n["a"])
            if a["k"] == "Ref" and a.get("d") == ref["d"]:
                out.append(strip(n["b"]))
    return out


def follow(P, f, new, var, owning_member):
    """the statements after the allocation, in order, until the pointer is handed on"""
    # find the block chain
    path = []

    def find(n):
        for c in kids(n):
            if c is new or find(c):
                path.append((n, c))
                return True
        return False
    find(f["body"])
    path = path            # innermost first
    for blk, child in path:
        if blk["k"] in ("For", "While", "DoWhile", "RangeFor", "Lambda"):
            return ("bad", "is not handed on in the loop that allocates it")
        if blk["k"] != "Block":
            continue
        i = [j for j, s in enumerate(blk["s"]) if s is child][0]
        for s in blk["s"][i + 1:]:
            h = handoff(P, f, s, var, owning_member)
            if h:
                return h
            if s["k"] == "Return":
                return ("bad", "is leaked by the return at line %s" % s.get("l"))
            x = node_throws(P, s)
            if x is not None:
                return ("bad", "is leaked if line %s raises an error" % (x.get("l")))
            if any(y["k"] in ("Return", "Continue", "Break", "Goto") for y in walk(s)):
                return ("bad", "may be leaked by the jump at line %s" % s.get("l"))
    return ("bad", "is never handed to an owner")


def handoff(P, f, s, var, owning_member):
    """does the statement (unconditionally) hand the pointer on?"""
    if s["k"] == "Return":
        e = strip(s.get("e"))
        while e is not None and e["k"] == "Ctor" and len(e.get("a") or []) == 1 and not is_smart(e.get("c")):
            e = strip(e["a"][0])
        if e is not None and e["k"] == "Ctor" and is_smart(e.get("c")) and e.get("a") and strip(e["a"][0]).get("d") == var["d"]:
            return ("ok", s)
        if e is not None and e["k"] == "Ref" and e.get("d") == var["d"]:
            return ("return", s)
        return None
    if s["k"] not in ("Expr", "Decl"):
        return None
    for n in walk(s):
        if n["k"] == "Delete" and strip(n["e"]).get("d") == var["d"]:
            return ("ok", n)
        if n["k"] == "Ctor" and is_smart(n.get("c")) and n.get("a") and strip(n["a"][0]).get("d") == var["d"]:
            return ("ok", n)
        if n["k"] == "Call" and n.get("n") in ("push_back", "emplace_back", "reset") and n.get("a"):
            a = strip(n["a"][0])
            if a.get("k") == "Ref" and a.get("d") == var["d"]:
                if n["n"] == "reset" and is_smart(n.get("oc")):
                    return ("ok", n)
                if "unique_ptr" in (n.get("oc") or ""):
                    return ("ok", n)
                om = owning_member(f, n["o"])
                if om:
                    return ("push", n, om)
        if n["k"] == "Bin" and n["op"] == "=" and strip(n["b"]).get("d") == var["d"] and strip(n["b"])["k"] == "Ref" and strip(n["a"])["k"] == "Mem":
            om = owning_member(f, n["a"])
            if om:
                return ("push", n, om)
    return None
