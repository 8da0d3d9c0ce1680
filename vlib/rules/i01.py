"""I01: operations leave the operands they only read unchanged."""
import json, os
from ..modref import ModRef, pointee_const, root, lshow, is_ptr, is_rhandle, ptrlike
from ..absint import base_type

LEVEL = "other"
TECHNIQUE = ("interprocedural points-to and modification analysis (access paths, flow-sensitive, summaries applied bottom-up over the call graph, "
             "lambdas and virtual targets included) of every operand that is only read")
NOTE = ("For every function of the library and of the R glue: no write on any path - direct, through a callee, through another object that shares the "
        "operand's memory, or through BLAS/LAPACK and standard algorithms - reaches memory that is reachable from an operand declared read-only (reference or "
        "pointer to const, receiver of a const method, member pointing to const), from the inputs of the library's operations that are not declared const (a "
        "table in the rule), or from an R object handed in by the user. Elements of one array are one location. Assumed: distinct arguments do not overlap, "
        "and function objects given by the caller (objectives, R functions) do not write to what they are given. The operands that are read-only are those "
        "declared so when the check was written (vlib/inputs.json): dropping a const does not make an operand writable.")
EXPLANATION = NOTE

# inputs of operations that are not declared const: (function, parameters) -> read only
TABLE = {
    "ldt::Dataset<>::Calculate": ["colIndexes"],
    "ldt::DatasetTs<>::Data": [],
    "ldt::DatasetTs<>::Update": ["indexes"],
    "ldt::DiscreteChoiceExtended::Calculate": ["aucOptions"],
    "ldt::DiscreteChoiceExtended::DiscreteChoiceExtended": ["costMatrices", "pcaOptions"],
    "ldt::DiscreteChoiceSim::Calculate": ["aucOptions"],
    "ldt::DiscreteChoiceSim::DiscreteChoiceSim": ["pcaOptions"],
    "ldt::DiscreteChoiceSearcher::DiscreteChoiceSearcher": ["aucOptions", "options", "costMatrixes"],
    "ldt::DistributionMixture::DistributionMixture": ["dists", "weights"],
    "ldt::DistributionEmpirical103::DistributionEmpirical103": ["quantiles"],
    "ldt::FrequencyCost::Check": ["frequencyCost"],
    "ldt::FrequencyDayBased::FrequencyDayBased": ["day"],
    "ldt::FrequencyDayBased::Hourly": ["day"],
    "ldt::FrequencyDayBased::Minutely": ["day"],
    "ldt::FrequencyDayBased::Secondly": ["day"],
    "ldt::FrequencyDayBased::XTimesADay": ["day"],
    "ldt::FrequencyWeekBased::FrequencyWeekBased": ["range"],
    "ldt::LimitedMemoryBFGSB::Minimize": ["lower", "upper"],
    "ldt::LimitedMemoryBFGSB::Minimize0": ["lower", "upper"],
    "ldt::LimitedMemoryBFGSB::Minimize00": ["lower", "upper"],
    "ldt::Matrix::GetAnyNanRow": ["colIndexes"],
    "ldt::Matrix::GetSub": ["rowindexes", "colindexes", "secondindexes", "firstindexes"],
    "ldt::Matrix::GetSub0": ["rowindexes", "colindexes"],
    "ldt::Matrix::MakeTriangular": ["elements"],
    "ldt::Matrix::MakeTriangular0": ["elements"],
    "ldt::Matrix::RemoveColumnsIn": ["cols"],
    "ldt::Matrix::RemoveNanVector": ["data"],
    "ldt::Matrix::SetSubRow": ["source"],
    "ldt::Matrix::SetSubRow0": ["source"],
    "ldt::Matrix::SortByVector": ["indexes"],
    "ldt::Matrix::SortByVector0": ["indexes"],
    "ldt::Matrix::SortColumnsBy": ["col_indexes"],
    "ldt::Matrix::SortColumnsBy0": ["col_indexes"],
    "ldt::Matrix::SortRowsBy": ["row_indexes"],
    "ldt::Matrix::SortRowsBy0": ["row_indexes"],
    "ldt::Matrix::IsDiagonal": ["mat"],
    "ldt::PolynomialM::Data": ["a"],
    "ldt::Polynomial::Data": ["a"],
    "ldt::Searcher::Push0": ["coef"], "ldt::Searcher::Push1": ["coef"], "ldt::Searcher::Push2": ["coef"],
    "ldt::SearcherSummary::Push": ["coef"],
    "ldt::Searcher::Searcher": ["options"], "ldt::SearcherReg::SearcherReg": ["options"],
    "ldt::SurExtended::SurExtended": ["pcaOptionsX", "pcaOptionsY"],
    "ldt::SurModelset::SurModelset": ["options"],
    "ldt::SurSearcher::SurSearcher": ["options"],
    "ldt::SurSimulation::Calculate": ["data", "cancel"],
    "ldt::SurSimulation::SurSimulation": ["pcaOptionsX", "pcaOptionsY"],
    "ldt::Variable::IsEqualTo": ["other"],
    "ldt::Varma::Difference": ["polyDiff"],
    "ldt::Varma::UnDiferences": ["polyDiff"],
    "ldt::Varma::Varma": ["optimOptions"],
    "ldt::VarmaExtended::VarmaExtended": ["optimOptions", "pcaOptionsX", "pcaOptionsY"],
    "ldt::VarmaModelset::VarmaModelset": ["optimOptions", "options", "source"],
    "ldt::VarmaRestriction::Calculate": ["generalRestrictedIndexes"],
    "ldt::VarmaSearcher::VarmaSearcher": ["optimOptions", "options"],
    "ldt::VarmaSimulation::Calculate": ["data", "exo", "cancel"],
    "ldt::VarmaSimulation::VarmaSimulation": ["optimOptions", "pcaOptionsX", "pcaOptionsY"],
    "ldt::VarmaStorage::GetExpNames": ["endoNames", "exoNames"],
    "ldt::VarmaStorage::VarmaStorage": ["optimOptions"],
    "ldt::DiscreteChoiceSimBase::GetFromType": ["pcaOptions"],
    "ldt::DiscreteChoiceModelsetBase::GetFromTypes": ["options", "aucOptions", "costMatrixes", "newtonOptions"],
    "biggestWithoutNaN": ["indexes", "ranges"],
}
# R objects that are changed by design
R_EXEMPT = {("EstimSur", "restriction"): "only when the significance search is on, and then it is a matrix of the function's own (the R side refuses both)"}


def plain(q):
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


class Kinds:
    def __init__(self, P):
        self.P = P
        self.inputs = set()
        for q, ps, n in json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "inputs.json"))):
            self.inputs.add((q, ps, n))
        self.table = {plain(q): set(ns) for q, ns in TABLE.items()}
        self.fields = {}
        for r in P.records.values():
            for fd in r["fields"]:
                self.fields.setdefault(fd["n"], set()).add(fd["t"])
        self.memo = {}

    def roots(self, f):
        """read-only roots of f: {('P', i)|('T',): reason}"""
        r = self.memo.get(f["f"])
        if r is not None:
            return r
        r = {}
        ps = ",".join(p["n"] for p in f["p"])
        tab = self.table.get(plain(f["q"]), ())
        glue = f["file"].startswith("Rpackage")
        for i, p in enumerate(f["p"]):
            t = p["t"]
            if pointee_const(t):
                r[("P", i)] = "read-only parameter"
            elif (f["q"], ps, p["n"]) in self.inputs or p["n"] in tab:
                r[("P", i)] = "read-only parameter"
            elif glue and is_rhandle(t) and (f["q"], p["n"]) not in R_EXEMPT:
                r[("P", i)] = "R object"
        if not f.get("static") and f.get("c"):
            if f.get("const") or (f["q"], ps, "this") in self.inputs:
                r[("T",)] = "receiver"
        self.memo[f["f"]] = r
        return r

    def why(self, f, l):
        x = l
        through = None
        while x[0] in ("f", "e", "d"):
            if x[0] == "d" and x[1][0] == "f":
                ts = self.fields.get(x[1][2], ())
                if ts and all(pointee_const(t) for t in ts):
                    through = x[1][2]
            x = x[1]
        rs = self.roots(f)
        if x in rs and not (f.get("ctor") and x == ("T",)):
            n = "this" if x == ("T",) else f["p"][x[1]]["n"]
            return (rs[x], n)
        if through:
            return ("member that points to read-only data", through)
        return None


def run(P, rep):
    K = Kinds(P)
    M = ModRef(P)
    M.suspect = lambda f, s: any(K.why(f, l) for l in s.mods)
    nroots = nf = nm = 0
    for key, f in sorted(P.funcs.items(), key=lambda kv: (kv[1]["file"], kv[1]["l"], kv[0])):
        s = M.of(key)
        nf += 1
        nm += len(s.mods)
        bad = {}
        for l, v in sorted(s.mods.items(), key=str):
            w = K.why(f, l)
            if w is None:
                continue
            where, via, node = v
            if via is not None:      # reported where it happens
                g, gv = via
                if any(v2 is gv and K.why(g, l2) for l2, v2 in M.of(g["f"]).mods.items()):
                    continue
            bad.setdefault(w, (l, where, via))
        sig = f["q"] + "(" + ",".join(p["n"] for p in f["p"]) + ")"
        for r, kind in K.roots(f).items():
            n = "this" if r == ("T",) else f["p"][r[1]]["n"]
            hit = bad.pop((kind, n), None)
            nroots += 1
            report(rep, P, f, sig, kind, n, hit)
        for (kind, n), hit in bad.items():
            report(rep, P, f, sig, kind, n, hit)
        if not bad:
            for c in s.mods:
                pass
    # members that point to read-only data are looked at in every method of their classes
    for r in P.records.values():
        for fd in r["fields"]:
            if ptrlike(fd["t"]) and pointee_const(fd["t"]) and r["n"].startswith("ldt::"):
                rep.ob("member that points to read-only data", not any(
                    v["rule"] == "member that points to read-only data" and v["key"].endswith("|" + fd["n"]) for v in rep.viol),
                    r["n"], "%s::%s" % (r["n"], fd["n"]), key="%s|%s" % (r["n"], fd["n"]))
    for q, kind, where, u in sorted(getattr(M, "lammods", {}).values(), key=str):
        rep.ob("read-only parameter", False, where, "%s: a function object writes to its read-only parameter %s" % (q, kind), key="%s|lambda|%s" % (q, kind))
    rep.did("functions summarised", nf)
    rep.did("calls resolved", M.n_calls)
    rep.did("locations written (function x access path)", nm)
    rep.floor("read-only parameter", 700)
    rep.floor("receiver", 150)
    rep.floor("R object", 60)


def report(rep, P, f, sig, kind, n, hit):
    if hit is None:
        rep.ob(kind, True, P.where(f), "%s: %s" % (sig, n), key="%s|%s" % (sig, n))
        return
    l, where, via = hit
    rep.ob(kind, False, where, "%s writes to %s, which it only reads (%s)%s" % (
        f["q"], lshow(l, f), kind, " through " + via[0]["q"] if via else ""), key="%s|%s" % (sig, n))
