"""Linear-arithmetic entailment over the facts of the evaluator.

entails(goal, facts): is the polynomial goal >= 0 a non-negative combination
of the facts (each fact may be multiplied by atoms that cannot be negative)?
A bounded, purely syntactic search; failing to find one means 'not shown'.
"""
from .absint import to_poly, from_poly, is_k, tid, sub, neg, tnot, tand, tor, eq0, ge0, subterms, ONE, TRUE, FALSE


def _split(m, by):
    """m / by as a monomial, or None"""
    out = list(m)
    for x in by:
        if x in out:
            out.remove(x)
        else:
            return None
    return tuple(out)


def _mulmono(d, q):
    return {tuple(sorted(m + q, key=tid)): c for m, c in d.items()} if q else d


def _comb(g, f, k):
    out = dict(g)
    for m, c in f.items():
        out[m] = out.get(m, 0) - k * c
        if out[m] == 0:
            del out[m]
    return out


def normal(facts):
    """facts -> polynomials >= 0, polynomials == 0 and clauses"""
    pos, eqs, clauses = [], [], []
    for c in facts:
        if c[0] == "and":
            p, z, q = normal(c[1])
            pos += p
            eqs += z
            clauses += q
        elif c[0] == "ge0":
            pos.append(to_poly(c[1]))
        elif c[0] == "gt0":
            pos.append(to_poly(sub(c[1], ONE)))
        elif c[0] == "eq0":
            eqs.append(to_poly(c[1]))
        elif c[0] == "or":
            clauses.append(c)
    return pos, eqs, clauses


def signs(pos, nonneg):
    """nonneg, extended by the atoms that the facts show not to be negative"""
    known = set()

    def nn(x):
        return x in known or nonneg(x)
    more = True
    while more:
        more = False
        for f in pos:
            up = [m for m, c in f.items() if c > 0]
            up = [m for m in up if m]
            if len(up) != 1 or f.get((), 0) > 0 or \
                    not all(nn(x) for m, c in f.items() if c < 0 for x in m):
                continue
            un = [x for x in up[0] if not nn(x)]
            if len(un) == 1 and up[0].count(un[0]) == 1 and len(up[0]) == 1:
                known.add(un[0])
                more = True
    return nn


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=tid))
            out[k] = out.get(k, 0) + c * d
            if out[k] == 0:
                del out[k]
    return out


def psub(d, x, e):
    """the polynomial d with the atom x replaced by the polynomial e"""
    if not any(x in m for m in d):
        return d
    out = {}
    for m, c in d.items():
        k = m.count(x)
        t = {tuple(y for y in m if y != x): c}
        for _ in range(k):
            t = pmul(t, e)
        for n, v in t.items():
            out[n] = out.get(n, 0) + v
            if out[n] == 0:
                del out[n]
    return out


def refuted(x, facts):
    """does a literal contradict the facts (syntactically)?"""
    ls = x[1] if x[0] == "and" else (x,)
    return any(tnot(y) in facts for y in ls)


def choices(goal, facts):
    """conditional terms, minima and maxima that occur, as clauses"""
    seen, out = set(), []
    for c in list(facts) + [goal]:
        for t in subterms(c):
            if not isinstance(t, tuple) or not t or t in seen:
                continue
            seen.add(t)
            if t[0] == "ite" and len(t) == 4:
                out.append(("or", frozenset({tand(t[1], eq0(sub(t, t[2]))), tand(tnot(t[1]), eq0(sub(t, t[3])))})))
            elif t[0] in ("max", "min") and len(t) == 2:
                for x in t[1]:
                    out.append(("ge0", sub(t, x) if t[0] == "max" else sub(x, t)))
                out.append(("or", frozenset(eq0(sub(t, x)) for x in t[1])))
    return out


def solve_equalities(g, pos, eqs, nonneg):
    """eliminates atoms that an equality determines"""
    eqs = [dict(e) for e in eqs]
    gone = set()
    while eqs:
        e = eqs.pop()
        pick = None
        for m, c in sorted(e.items(), key=lambda mc: [tid(x) for x in mc[0]]):
            if len(m) == 1 and c in (1, -1) and not any(m[0] in n for n in e if n != m):
                if pick is None or not nonneg(m[0]):
                    pick = m
        if pick is None:
            pos = pos + [e, {m: -c for m, c in e.items()}]
            continue
        x = pick[0]
        c = e[pick]
        r = {m: -v * c for m, v in e.items() if m != pick}
        g = psub(g, x, r)
        pos = [psub(f, x, r) for f in pos]
        eqs = [psub(f, x, r) for f in eqs]
        if nonneg(x):
            pos.append(r)
        gone.add(x)
    return g, [f for f in pos if f]


WORK, LIMIT = [0], 10000         # steps one question may take before it counts as unproven


def entails(goal, facts, nonneg):
    """do the facts entail goal >= 0?"""
    WORK[0] = 0
    return _entails(goal, facts, nonneg)


def _entails(goal, facts, nonneg, depth=7, split=2):
    """goal: term (polynomial); nonneg(atom) -> bool"""
    if split:
        facts = list(facts) + choices(goal, facts)
    pos, eqs, clauses = normal(facts)
    g, pos = solve_equalities(to_poly(goal), pos, eqs, nonneg)
    nonneg = signs(pos, nonneg)
    uniq = []
    for f in pos:
        if f not in uniq and not all(c >= 0 and all(nonneg(x) for x in m) for m, c in f.items()):
            uniq.append(f)
    pos = uniq
    if any(set(f) == {()} and f[()] < 0 for f in pos):
        return True             # contradictory facts: not reached
    left = [250]

    def bad(d):
        return [m for m, c in d.items() if c < 0 or not all(nonneg(x) for x in m)]

    def go(d, n, seen):
        b = bad(d)
        if not b:
            return True
        if n == 0 or len(d) > 14:
            return False
        key = frozenset(d.items())
        if seen.get(key, -1) >= n:
            return False
        seen[key] = n
        left[0] -= 1
        WORK[0] += 1
        if left[0] < 0 or WORK[0] > LIMIT:
            return False
        b.sort(key=lambda m: (-len(m), [tid(x) for x in m]))
        m = b[0]
        c = d[m]
        nxt = []
        for f in pos:
            for fm, fc in f.items():
                if (fc < 0) != (c < 0):
                    continue
                q = _split(m, fm)
                if q is None or not all(nonneg(x) for x in q):
                    continue
                k = c / fc
                if k == int(k):
                    k = int(k)
                e = _comb(d, _mulmono(f, q), k)
                nxt.append((len(q), len(bad(e)), len(nxt), e))
        nxt.sort(key=lambda x: x[:3])
        return any(go(e, n - 1, seen) for _, _, _, e in nxt)
    for n in range(1, depth + 1):
        left[0] = 250
        if go(g, n, {}):
            return True
    if split and WORK[0] <= LIMIT:
        # case distinction on a clause that says something about the goal
        near = atoms(goal)
        for cl in sorted(clauses, key=lambda c: (-len(near & atoms(c)), len(c[1]), tid(c))):
            others = [c for c in facts if c != cl]
            live = [x for x in cl[1] if not refuted(x, others)]
            if all(_entails(goal, others + [x], nonneg, depth, split - 1) for x in live):
                return True
    return False


# ------------------------------------------------------------------ booleans
def flat(facts):
    out = set()
    for c in facts:
        if c[0] == "and":
            out |= flat(c[1])
        else:
            out.add(c)
    return out


def propagate(facts, nonneg):
    """unit propagation; None when the facts contradict each other"""
    fs = flat(facts)
    while True:
        if FALSE in fs or any(tnot(c) in fs for c in fs):
            return None
        more = set()
        for c in fs:
            if c[0] != "or":
                continue
            live = [x for x in c[1] if not all_refuted(x, fs, nonneg)]
            if not live:
                return None
            if len(live) == 1:
                more |= flat([live[0]])
            elif len(live) < len(c[1]):
                more.add(("or", frozenset(live)))
        if more <= fs:
            return fs
        fs |= more


def atoms(c):
    return frozenset(t for t in subterms(c) if isinstance(t, tuple) and t and t[0] in ("f", "p", "it", "phi", "phio", "ite", "u", "ap"))


def all_refuted(x, fs, nonneg):
    """a literal (or a conjunction of literals) that cannot hold"""
    for y in flat([x]):
        n = tnot(y)
        if n in fs:
            return True
        if y[0] == "not" and y[1][0] == "eq0":
            continue
        if n[0] == "or" and any(z in fs for z in n[1]):
            return True
        if y[0] == "or" and all(all_refuted(z, fs, nonneg) for z in y[1]):
            return True
        if y[0] == "ge0" and _entails(sub(neg(y[1]), ONE), [c for c in fs if c[0] != "or"], nonneg, 3, 0):
            return True
    return False


def absurd(facts, nonneg, split=4, focus=frozenset()):
    if WORK[0] > LIMIT:
        return False
    fs = propagate(facts, nonneg)
    if fs is None:
        return True
    lin = [c for c in fs if c[0] != "or"]
    # an inequality excluded by the others
    for c in lin:
        if c[0] == "ge0" and _entails(sub(neg(c[1]), ONE), [x for x in lin if x != c], nonneg, 4, 0):
            return True
        if c[0] == "not" and c[1][0] == "eq0":
            t = c[1][1]
            if _entails(t, lin, nonneg, 4, 0) and _entails(neg(t), lin, nonneg, 4, 0):
                return True
    if split:
        for c in sorted((c for c in fs if c[0] == "or"), key=lambda c: (not focus & atoms(c), len(c[1]), tid(c))):
            rest = fs - {c}
            if all(absurd(rest | {x}, nonneg, split - 1, focus) for x in c[1]):
                return True
    return False


def implies(facts, c, nonneg, split=3):
    """do the facts entail the condition c?"""
    WORK[0] = 0
    return _implies([plain(x, nonneg) for x in facts], plain(c, nonneg), nonneg, split)


def plain(c, nonneg):
    """one form for tests of counters: x != 0 is x >= 1"""
    if c[0] == "eq0" and nonneg(c[1]):
        return ge0(neg(c[1]))
    if c[0] == "not":
        return tnot(plain(c[1], nonneg))
    if c[0] in ("and", "or"):
        return (tand if c[0] == "and" else tor)(*[plain(x, nonneg) for x in c[1]])
    return c


def _implies(facts, c, nonneg, split):
    if c == TRUE or c in facts:
        return True
    if c[0] == "and":
        return all(_implies(facts, x, nonneg, split) for x in c[1])
    fs = propagate(facts, nonneg)
    if fs is None or c in fs:
        return True
    if c[0] == "ge0":
        return _entails(c[1], fs, nonneg)
    if c[0] == "gt0":
        return _entails(sub(c[1], ONE), fs, nonneg)
    if c[0] == "eq0":
        return _entails(c[1], fs, nonneg) and _entails(neg(c[1]), fs, nonneg)
    if c[0] == "or":
        for x in c[1]:
            more = list(fs) + [tnot(y) for y in c[1] if y != x]
            if _implies(more, x, nonneg, 0):
                return True
    return absurd(list(fs) + [tnot(c)], nonneg, split, atoms(c))
