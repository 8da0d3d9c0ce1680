"""M01: checked matrix operations reject mismatched shapes before touching data."""
from ..program import walk, strip
from ..absint import (State, add, sub, mul, neg, tnot, ONE, ZERO, K, is_k, tid, tshow, subterms, to_poly, ite)
from ..events import Recorder, Event, conj
from .. import bounds
from ..bounds import entails

LEVEL = "other"
TECHNIQUE = ("symbolic evaluation of every checked operation of Matrix/MatrixSym (helpers inlined) with an entailment "
             "check (linear arithmetic with products) of every element access and every BLAS/LAPACK operand")
NOTE = ("For all shapes, indices and index lists: in every checked operation of Matrix<double> and in Get/Set of the symmetric "
        "matrices, the facts established on the path (the operation's own tests and loop bounds) imply that each element access lies inside "
        "its matrix and that each BLAS/LAPACK call stays inside the arrays it is given; it returns only when the shapes its definition relates "
        "(a table in the rule) are equal; and no test of shapes comes after a write. "
        "Assumed: RowsCount, ColsCount and container sizes are not negative and a Matrix's Data holds RowsCount*ColsCount elements; "
        "products do not overflow. Not covered: MakeTriangular, in-place Transpose (index arithmetic with division or remainder), index "
        "formulas of the packed symmetric storage, and the operations that have no test and no unchecked twin (First, Last, "
        "MaximumInRow, ApplyRow_in, GetRangeRow and others), which are unchecked by contract.")
EXPLANATION = NOTE

MAT = "ldt::Matrix<double>"
PRIM = {"Get0", "Set0", "Get0r", "Set_Plus0", "Set_Minus0"}

CHECKED = """Add Add_in Apply Apply_in Chol ColumnsMean ColumnsMeans ColumnsMeansVariances ColumnsStandard ColumnsSum
ColumnsVariance ColumnsVariances CopyFrom CopyFrom0 CopyTo CopyTo0 CorrelationColumn CovarianceColumn Det DiagDot Diagonal Divide
Divide_in Dot DotDiag DotSym DotTr DotVector Dot_AAt Dot_AtA Dot_AtA_nan Equals Get GetColumn GetDiag GetRow GetSub GetSubVector
GetVector IdenKron Inv IsDiagonal IsSymmetric Kron KronIden Multiply Multiply_in QR Restructure RowsSum Set SetColumn
SetColumnFromColumn SetColumnFromDiag SetColumnFromRow SetColumn_minus SetColumn_plus SetRow SetRowFromDiag SetRowFromRow SetRow_minus
SetRow_plus SetSub SetSubRow SetSubVector SetSub_t SetValueDiag SetValueOffDiag SetVector Set_Minus Set_Plus SolvePos SolveTrian
Sort SortByVector SortColumnsBy SortRowsBy Subtract Subtract_in SymDot ToString TrDot TrDotTr TrKronIden Trace Transpose
VectorDotVector tDotVector""".split()
# operations on the whole matrix: nothing to reject, but they have to stay inside
WHOLE = """All Any EqualsValue Maximum Minimum HasNaN Mean Variance Sum SetValue SetSequence Power_in IndicesOfVector""".split()
SKIP = {("Transpose", 0)}


EW = "R=1.R C=1.C R=0.R C=0.C"
SQ = "R=C"
# what "the shapes agree" means for each operation: R, C, L are the rows, columns and length of this; n.R those of
# the n-th argument where it is a matrix, n itself where it is a number
SHAPES = dict(
    Add=EW, Subtract=EW, Multiply=EW, Divide=EW, Add_in="R=0.R C=0.C", Subtract_in="R=0.R C=0.C", Multiply_in="R=0.R C=0.C",
    Divide_in="R=0.R C=0.C", Apply="L=0.L L=1.L L=2.L", Apply_in="L=0.L", CopyTo="R=0.R C=0.C", CopyFrom="R=0.R C=0.C",
    CopyTo0="L=0.L", CopyFrom0="L=0.L", Sort="R=0.R C=0.C", SortByVector="L=0.L", SortRowsBy="R=0.R C=0.C",
    SortColumnsBy="R=0.R C=0.C", SetValueDiag=SQ, SetValueOffDiag=SQ, GetDiag=SQ, Trace=SQ, Det=SQ, IsSymmetric=SQ,
    Diagonal="0.R=0.C", IsDiagonal="0.R=0.C", VectorDotVector="R=L L=0.L", DotVector="C=0.R R=1.R 0.R=0.L 1.R=1.L",
    tDotVector="R=0.R C=1.R 0.R=0.L 1.R=1.L", Dot="C=0.R R=1.R 0.C=1.C", DotTr="C=0.C R=1.R 0.R=1.C", TrDot="R=0.R C=1.R 0.C=1.C",
    TrDotTr="R=0.C C=1.R 0.R=1.C", DotDiag="C=0.L R=1.R C=1.C", DiagDot="L=0.R 0.R=1.R 0.C=1.C", Dot_AAt="R=0.R R=0.C",
    Dot_AtA="C=0.R C=0.C", Dot_AtA_nan="C=0.R C=0.C C=1.R C=1.C", SymDot="R=C C=0.R R=1.R 0.C=1.C", DotSym="C=0.R 0.R=0.C R=1.R 0.C=1.C",
    Transpose="R=0.C C=0.R", Kron="1.R=R*0.R 1.C=C*0.C", KronIden="1.R=R*0 1.C=C*0", IdenKron="1.R=R*0 1.C=C*0",
    TrKronIden="1.R=C*0 1.C=R*0", Inv="R=C R=0.R C=0.C", Chol="R=C R=0.R C=0.C", QR="R=0.R R=0.C C=1.R C=1.C", SolveTrian="R=C C=0.R",
    SolvePos="R=C C=0.R", GetRow="C=1.L", GetColumn="R=1.L", SetRowFromDiag="C=1.R 1.R=1.C", SetColumnFromDiag="R=1.R 1.R=1.C",
    GetVector="R=L", SetVector="R=L", GetSubVector="R=L", ColumnsMeans="C=0.L", ColumnsVariances="C=0.L",
    ColumnsMeansVariances="C=0.L C=1.L", Restructure="L=0*1")


def shape(s, f):
    """the term an operand of a relation stands for, or None when the overload has no such matrix"""
    out = ONE
    for x in s.split("*"):
        o, _, d = x.rpartition(".")
        if x.isdigit():
            if "Matrix" in f["p"][int(x)]["t"]:
                return None
            out = mul(out, ("p", f["p"][int(x)]["n"]))
            continue
        if o:
            if int(o) >= len(f["p"]) or "Matrix<" not in f["p"][int(o)]["t"]:
                return None
            o = ("p", f["p"][int(o)]["n"])
        else:
            o = ("this",)
        r, c = ("f", o, "RowsCount", 0), ("f", o, "ColsCount", 0)
        out = mul(out, {"R": r, "C": c, "L": mul(r, c)}[d])
    return out


def shapes(P, rep, f, label, st, prove):
    n = 0
    for rel in SHAPES.get(f["n"], "").split():
        a, b = (shape(x, f) for x in rel.split("="))
        if a is None or b is None:
            continue
        n += 1
        ok = st is None or prove(sub(a, b), st.facts) and prove(sub(b, a), st.facts)
        rep.ob("the shapes of operands and results agree", ok, P.where(f, f["body"]),
               "%s returns only when %s" % (label, tshow(a) + " = " + tshow(b)), key="%s|%s" % (label, rel))
    return n


def nonneg(t):
    if t[0] in ("it", "trip"):
        return True
    if t[0] in ("f", "F"):
        return t[2] in ("RowsCount", "ColsCount", "size", "$n")
    if t[0] == "min":
        return all(nonneg(x) or is_k(x) and x[1] >= 0 for x in t[1])
    if t[0] == "max":
        return any(nonneg(x) or is_k(x) and x[1] >= 0 for x in t[1])
    return False


# ------------------------------------------------------------ BLAS / LAPACK
N, T, L, R = ord("N"), ord("T"), ord("L"), ord("R")


def tr(c, r, k):
    """(rows, columns) of an operand that is r x k when not transposed"""
    return (r, k) if c == N else (k, r) if c in (T, ord("C")) else None


def spec(name, A):
    """name without the type letter and underscore, A(i): i-th argument's value (scalars) ->
    list of (pointer argument, rows, columns, leading dimension or None for a vector)"""
    if name in ("copy", "dot"):
        return [(1, A(0), A(2), "inc"), (3, A(0), A(4), "inc")]
    if name == "axpy":
        return [(2, A(0), A(3), "inc"), (4, A(0), A(5), "inc")]
    if name == "scal":
        return [(2, A(0), A(3), "inc")]
    if name == "gemv":
        s = tr(ch(A(0)), A(1), A(2))
        return s and [(4, A(1), A(2), A(5)), (6, s[1], A(7), "inc"), (9, s[0], A(10), "inc")]
    if name == "gemm":
        a, b = tr(ch(A(0)), A(2), A(4)), tr(ch(A(1)), A(4), A(3))
        return a and b and [(6, a[0], a[1], A(7)), (8, b[0], b[1], A(9)), (11, A(2), A(3), A(12))]
    if name == "syrk":
        a = tr(ch(A(1)), A(2), A(3))
        return a and [(5, a[0], a[1], A(6)), (8, A(2), A(2), A(9))]
    if name == "symm":
        d = {L: A(2), R: A(3)}.get(ch(A(0)))
        return d and [(5, d, d, A(6)), (7, A(2), A(3), A(8)), (10, A(2), A(3), A(11))]
    if name == "getrf":
        return [(2, A(0), A(1), A(3)), (4, A(0), None, "min", A(1))]
    if name == "getri":
        return [(1, A(0), A(0), A(2)), (3, A(0), None, "vec"), (4, A(5), None, "vec")]
    if name in ("potrf", "potrf2"):
        return [(2, A(1), A(1), A(3))]
    if name == "geqrf":
        return [(2, A(0), A(1), A(3)), (4, A(0), None, "min", A(1)), (5, A(6), None, "work")]
    if name == "trtrs":
        return [(5, A(3), A(3), A(6)), (7, A(3), A(4), A(8))]
    if name == "posv":
        return [(3, A(1), A(1), A(4)), (5, A(1), A(2), A(6))]
    if name == "lange":
        return [(3, A(1), A(2), A(4))]
    return None


def ch(t):
    return t[1] if is_k(t) else None


class M(Recorder):
    def __init__(self, P, cls, prim, addr):
        super().__init__(P)
        self.cls, self.prim, self.addr = cls, prim, addr
        self.n = 0

    def want_inline(self, fkey, node, frame):
        f = self.P.funcs.get(fkey)
        if not f or not f.get("body") or frame.depth >= 10:
            return False
        c = f.get("c") or ""
        if f["n"] in self.prim and c == self.cls:
            return False
        return "Matrix" in c or not f["file"].startswith("/") and not f["file"].endswith(".c") and not c and \
            any("Matrix" in p["t"] for p in f["p"])

    def size_of(self, base, st):
        """number of elements an address may be used for, or None"""
        if base[0] in ("f", "F") and base[2] == "Data":
            r = self.read(("fld", base[1], "RowsCount"), st)
            return mul(r, self.read(("fld", base[1], "ColsCount"), st))
        n = st.env.get(("fld", base, "$n"))
        return n

    def access(self, node, base, idx, st, fr):
        if self.quiet:
            return
        self.events.append(Event(kind="idx", node=node, obj=base, args=[idx], facts=st.facts, loops=list(self.loopstack), fr=fr,
                                 val=self.size_of(base, st)))

    def on_index(self, node, base, idx, st, fr):
        if id(node) in self.addr:
            return
        if base[0] == "ptr":
            base, idx = base[1], add(base[2], idx)
        self.access(node, base, idx, st, fr)

    def lvalue(self, e, st, fr):
        e1 = strip(e)
        if e1["k"] == "Un" and e1["op"] == "*" and not self.isobj(e1.get("t")) and id(e1) not in self.addr:
            self.quiet += 1
            b = self.rv(self.ev(e1["e"], st.copy(), fr), st)
            self.quiet -= 1
            if b[0] == "ptr":
                self.access(e1, b[1], b[2], st, fr)
            elif b[0] in ("f", "F"):
                self.access(e1, b, ZERO, st, fr)
        return super().lvalue(e, st, fr)

    def on_throw(self, node, st, fr):
        if not self.quiet:
            self.events.append(Event(kind="throw", node=node, facts=st.facts, fr=fr, loops=list(self.loopstack)))
        super().on_throw(node, st, fr)


def extremes(facts, goal):
    """*max_element(begin(v), end(v)) bounds every element of v"""
    ts = {t for c in list(facts) + [goal] for t in subterms(c) if isinstance(t, tuple) and t}
    out = list(facts)
    for t in ts:
        if t[0] != "ap" or len(t) != 3 or t[1] != "operator*" or t[2][:1] != ("ap",) or \
                t[2][1] not in ("std::max_element", "std::min_element") or len(t[2]) != 4:
            continue
        a, b = t[2][2:]
        if a[:2] != ("ap", "begin") or b[:2] != ("ap", "end") or a[2:] != b[2:]:
            continue
        for e in ts:
            if e[0] in ("f", "F") and len(e) > 2 and isinstance(e[2], tuple) and e[2][:1] == ("at",) and e[1] == a[2]:
                out.append(("ge0", sub(t, e) if t[2][1].endswith("max_element") else sub(e, t)))
    return out


def where_of(P, e):
    return P.where(e.fr.f, e.node)


class Prover:
    def __init__(self):
        self.memo = {}
        self.n = 0

    def __call__(self, goal, facts):
        k = (goal, facts if isinstance(facts, frozenset) else frozenset(facts))
        if k not in self.memo:
            self.n += 1
            self.memo[k] = entails(goal, extremes(conj(facts), goal), nonneg)
        return self.memo[k]


def context(facts):
    return " and ".join(sorted(tshow(x)[:60] for x in conj(facts) if x[0] in ("ge0", "eq0", "gt0")))[:300]


def check_events(P, rep, e, cls, prove, f, label):
    n = 0
    bad = False

    def show(ok, rule, ev, what):
        nonlocal bad
        where = where_of(P, ev)
        if not ok:
            bad = True
        rep.ob(rule, ok, where, "%s: %s" % (label, what), key="%s in %s: %s" % (f["n"], ev.fr.f["n"], what))
        return ok
    for v in e.events:
        if v.kind == "call" and v.name in e.prim and (e.P.funcs.get(v.node.get("f")) or {}).get("c") == cls:
            o = v.obj
            r = e.read(("fld", o, "RowsCount"), v.st)
            c = r if "Sym" in cls else e.read(("fld", o, "ColsCount"), v.st)
            i, j = v.args[:2]
            n += 1
            for nm, goals, x in (("row", (i, sub(sub(r, i), ONE)), i), ("column", (j, sub(sub(c, j), ONE)), j)):
                ok = all(prove(g, v.facts) for g in goals)
                show(ok, "element access inside the matrix", v, "%s %s of %s is inside" % (nm, short(x), short(o)))
        elif v.kind == "idx":
            if v.val is None:
                rep.did("accesses to other containers")
                continue
            n += 1
            i = v.args[0]
            ok = prove(i, v.facts) and prove(sub(sub(v.val, i), ONE), v.facts)
            show(ok, "element access inside the array", v, "element %s of %s is inside" % (short(i), short(v.obj)))
        elif v.kind == "call" and not (v.q or "").startswith("ldt::") and v.obj is None:
            n += blas(rep, e, v, prove, show)
    return n, bad


def short(t):
    import re
    return re.sub(r"it<[^>]*>", "i", re.sub(r"phi<[^>]*>", "v", tshow(t)))[:70]


def blas(rep, e, v, prove, show):
    name = v.name
    args = v.args

    def at(i):
        a = args[i]
        if a[0] == "ptr" and a[1][0] == "adr" and a[2] == ZERO:
            return e.read(a[1][1], v.st)
        return a

    def target(i):
        a = args[i]
        base, off = (a[1], a[2]) if a[0] == "ptr" else (a, ZERO)
        if base[0] == "adr":
            return base, off, ONE
        return base, off, e.size_of(base, v.st)
    if name.endswith("_") and name[0] in "ds" and spec(name[1:-1], lambda i: ZERO) is not None or name[1:-1] in ("gemv", "gemm", "syrk", "symm"):
        s = spec(name[1:-1], at)
        rep.did("BLAS/LAPACK calls")
        if s is None:
            show(False, "BLAS/LAPACK operands inside their arrays", v, "%s: transposition or side is not a constant" % name)
            return 1
        for x in s:
            base, off, size = target(x[0])
            p = x[0]
            if size is None:
                rep.did("BLAS/LAPACK operands without a known size")
                continue
            room = sub(size, off)
            kind = x[3]
            if kind == "inc":
                ok = x[2] == ONE and prove(sub(room, x[1]), v.facts)
                w = "%s elements" % short(x[1])
            elif kind == "min":
                ok = prove(sub(room, ("min", frozenset((x[1], x[4])))), v.facts) or prove(sub(room, x[1]), v.facts) or \
                    prove(sub(room, x[4]), v.facts)
                w = "min(%s, %s) elements" % (short(x[1]), short(x[4]))
            elif kind == "vec":
                ok = prove(sub(room, x[1]), v.facts)
                w = "%s elements" % short(x[1])
            elif kind == "work":
                ok = x[1] == K(-1) and room == ONE or prove(sub(room, x[1]), v.facts)
                w = "%s elements" % short(x[1])
            else:
                ok = prove(sub(x[3], x[1]), v.facts) and prove(sub(room, mul(x[3], x[2])), v.facts)
                w = "%s x %s elements, leading dimension %s" % (short(x[1]), short(x[2]), short(x[3]))
            show(ok and prove(off, v.facts), "BLAS/LAPACK operands inside their arrays", v, "%s: argument %d holds %s" % (name, p + 1, w))
        return 1
    # ranges given to algorithms
    n = 0
    for i, a in enumerate(args):
        if a[0] == "ptr" and a[1][0] in ("f", "F") and a[1][2] == "Data":
            size = e.size_of(a[1], v.st)
            ok = prove(a[2], v.facts) and prove(sub(size, a[2]), v.facts)
            show(ok, "addresses handed to algorithms inside the array", v, "%s: argument %d at offset %s" % (name, i + 1, short(a[2])))
            n += 1
    return n


def late_tests(P, rep, e, f, label, prove):
    """no rejection after a write"""
    def write(v):
        return v.kind == "call" and (v.name in e.prim and v.name.startswith("Set") or
                                     v.name.endswith("_") and v.name[0] == "d" and "_dot" not in v.name) or \
            v.kind == "store" and v.loc[0] == "fld" and isinstance(v.loc[2], tuple) and v.loc[2][0] == "at" and \
            v.loc[1][0] in ("f", "F") and v.loc[1][2] == "Data" or \
            v.kind == "store" and v.loc[0] == "cell" and v.loc[1][0] in ("f", "F") and v.loc[1][2] == "Data"
    allw, writes = [v for v in e.events if write(v)], []
    for v in e.events:
        if write(v):
            writes.append(v)
        if v.kind == "throw":
            fs = conj(v.facts)
            if any(y[:1] == ("call",) for x in fs for y in subterms(x)):
                continue
            before = [x for x in writes if not any(tnot(y) in fs for y in conj(x.facts)) and x.loops != v.loops]
            later = [x for x in allw if x.loops and v.loops and x.loops[0] is v.loops[0] and x not in before]
            if later and not before and not prove(neg(ONE), v.facts):
                before = later
            rep.ob("rejected before anything is written", not before, where_of(P, v), "%s: the test comes before the first write" % label,
                   key="%s: %s" % (f["n"], "write before test"))


def run(P, rep):
    bounds.LIMIT = 40000
    addr = {id(strip(n["e"])) for f in P.funcs.values() if "Matrix" in (f.get("c") or "") for n in walk(f.get("body"))
            if n.get("k") == "Un" and n["op"] == "&"}
    prove = Prover()
    fs = sorted((f for f in P.funcs.values() if f.get("c") == MAT and f.get("body") and not f.get("ctor")),
                key=lambda f: (f["file"], f["l"]))
    names, nrel = set(), 0
    for f in fs:
        if (f["n"], len(f["p"])) in SKIP or f["n"] not in CHECKED and f["n"] not in WHOLE:
            continue
        label = "%s(%s)" % (f["n"], ", ".join(p["n"] for p in f["p"]))
        e = M(P, MAT, PRIM, addr)
        st = e.run(f["f"])[0]
        n, bad = check_events(P, rep, e, MAT, prove, f, label)
        if f["n"] in CHECKED:
            nrel += shapes(P, rep, f, label, st, prove)
            names.add(f["n"])
            late_tests(P, rep, e, f, label, prove)
        rep.did("operations")
        rep.did("accesses and calls", n)
    rep.need("checked operations", len(CHECKED) - 4, len(names))
    rep.need("relations of shapes", 125, nrel)
    # the primitives, given indices that are inside
    np = 0
    for f in fs:
        if f["n"] not in PRIM:
            continue
        this = ("sym", "this")
        e = M(P, MAT, set(), addr)
        i, j = [("sym", "%s" % p["n"]) for p in f["p"][:2]]
        t = ("obj", "M")
        r, c = ("f", t, "RowsCount", 0), ("f", t, "ColsCount", 0)
        fa = [("ge0", i), ("ge0", j), ("ge0", sub(sub(r, i), ONE)), ("ge0", sub(sub(c, j), ONE))]
        rest = [("sym", p["n"]) for p in f["p"][2:]]
        e.run(f["f"], this=t, args=[i, j] + rest, facts=fa)
        n, bad = check_events(P, rep, e, MAT, prove, f, f["n"])
        np += 1 if n else 0
    rep.need("element primitives", 4, np)
    # symmetric matrices
    ns = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f["file"], f["l"])):
        c = f.get("c") or ""
        if c.startswith("ldt::MatrixSym<") and c.endswith("double>") and f["n"] in ("Get", "Set") and f.get("body"):
            e = M(P, c, {"Get0", "Set0"}, addr)
            e.run(f["f"])
            n, bad = check_events(P, rep, e, c, prove, f, "%s::%s" % (c[5:], f["n"]))
            ns += 1 if n else 0
    rep.need("accessors of symmetric matrices", 4, ns)
    rep.did("entailments", prove.n)
