"""Queries over the abstract interpreter's results: decision-tree specifications and coverage of path conditions.

A specification is a Python function `spec(q)`; `q(atom, n=2)` asks for the value of an atomic fact of the analysed
program (variant of a term, truth of a predicate).  `explore` enumerates every combination of answers the specification
can distinguish; each leaf is a scenario = a conjunction of facts standing for all the executions that satisfy it."""
from engine import S, pp, cdict, cranges, _strtruth, subst, contains, subterms  # noqa

BUDGET = 200000


def b(t):
    return ("b", t)


def var(t, n=2):
    return ("var", t, n)


def dom(atom):
    return 2 if atom[0] == "b" else atom[2] if atom[0] == "var" else None


def cnorm(atom, cons):
    n = dom(atom)
    if n is not None and cons[0] == "not":
        return ("in", frozenset(range(n)) - cons[1])
    return cons


def inter(x, y):
    if x[0] == "in" and y[0] == "in":
        return ("in", x[1] & y[1])
    if x[0] == "in":
        return ("in", x[1] - y[1])
    if y[0] == "in":
        return ("in", y[1] - x[1])
    return ("not", x[1] | y[1])


def empty(c):
    return c[0] == "in" and not c[1]


def implied(k, c):
    """constraint k is at least as strong as c"""
    if c[0] == "in":
        return k[0] == "in" and k[1] <= c[1]
    if k[0] == "in":
        return not (k[1] & c[1])
    return c[1] <= k[1]


def add(E, conj, atom, cons):
    """conj & (atom in cons) or None"""
    cons = cnorm(atom, cons)
    k = E.decide(conj, atom)
    if k is not None:
        k = cnorm(atom, k)
        n = inter(k, cons)
        if empty(n):
            return None
        d = cdict(conj)
        if atom in d:
            if n == d[atom]:
                return conj
            return recheck(E, atom, conj, frozenset([(a, v) for a, v in conj if a != atom] + [(atom, n)]))
        if implied(k, cons):
            return conj
        cons = n
    if empty(cons):
        return None
    new = frozenset(list(conj) + [(atom, cons)])
    return recheck(E, atom, conj, new)


def recheck(E, atom, conj, new):
    """the new fact may contradict an old one (checked in the other direction)"""
    for a, v in conj:
        if a == atom or a[0] != "b":
            continue
        if atom[0] == "b" and a[1][1] in ("seq", "pre", "suf", "lt", "eq") or atom[0] == "var" and a[1][1] == "eq" and has_disc(a[1]):
            k = E.decide(new - {(a, v)}, a)
            if k is not None and empty(inter(cnorm(a, k), cnorm(a, v))):
                return None
    return new


def has_disc(t):
    return any(x[0] == "S" and x[1] == "disc" for x in t[2:4])


def merge(E, c1, c2):
    if len(c1) < len(c2):
        c1, c2 = c2, c1
    for a, v in c2:
        c1 = add(E, c1, a, v)
        if c1 is None:
            return None
    return c1


def meets(E, pc, F):
    """conjunctions of pc & F that are satisfiable"""
    out = []
    for c in pc:
        m = merge(E, c, F)
        if m is not None:
            out.append(m)
    return out


class Budget(Exception):
    pass


def uncovered(E, conj, ds, n=None):
    """a strengthening of conj outside every conjunction of ds, or None"""
    n = n if n is not None else [BUDGET]
    n[0] -= 1
    if n[0] < 0:
        raise Budget()
    live = []
    for d in ds:
        rest, good = [], True
        for a, c in d:
            k = E.decide(conj, a)
            if k is not None:
                k = cnorm(a, k)
                c = cnorm(a, c)
                if implied(k, c):
                    continue
                if empty(inter(k, c)):
                    good = False
                    break
            rest.append((a, c))
        if good:
            if not rest:
                return None
            live.append(frozenset(rest))
    if not live:
        return conj
    live = list(set(live))
    best = min(live, key=lambda r: (len(r), repr(sorted(r, key=repr))))
    cnt = {}
    for r in live:
        for a, c in r:
            cnt[a] = cnt.get(a, 0) + 1
    a, c = max(best, key=lambda x: (cnt[x[0]], repr(x)))
    comp = cnorm(a, ("not", c[1]) if c[0] == "in" else ("in", c[1]))
    for cons in (c, comp):
        m = add(E, conj, a, cons)
        if m is None:
            continue
        r = uncovered(E, m, live_full(ds, live), n)
        if r is not None:
            return r
    return None


def live_full(ds, live):
    return live


def cover(E, pc, ds, F=frozenset()):
    """every execution of `pc` satisfying F is in the disjunction ds? -> None or a counterexample"""
    ds = [d for x in ds for d in x]
    n = [BUDGET]
    for c in pc:
        m = merge(E, c, F)
        if m is None:
            continue
        r = uncovered(E, m, ds, n)
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------ specifications
class Spec:
    def __init__(self, E, base=frozenset(), limit=20000):
        self.E, self.base, self.limit = E, base, limit

    def leaves(self, fn):
        """-> [(facts, result)]"""
        out, stack = [], [[]]
        while stack:
            script = stack.pop()
            st = {"conj": self.base, "i": 0}
            E = self.E

            def q(atom, n=None):
                d = dom(atom) if n is None else n
                k = E.decide(st["conj"], atom)
                if k is not None:
                    k = cnorm(atom, k)
                    if k[0] == "in" and len(k[1]) == 1:
                        return next(iter(k[1]))
                i = st["i"]
                st["i"] += 1
                if i < len(script):
                    v = script[i]
                else:
                    feas = [x for x in range(d) if add(E, st["conj"], atom, ("in", frozenset([x]))) is not None]
                    for x in feas[1:]:
                        stack.append(script[:i] + [x])
                    script.append(feas[0])
                    v = feas[0]
                st["conj"] = add(E, st["conj"], atom, ("in", frozenset([v])))
                return v
            script = list(script)
            r = fn(q)
            out.append((st["conj"], r))
            if len(out) > self.limit:
                raise Budget()
        return out


# ------------------------------------------------------------------ normal form of values
def flat(op, v):
    if isinstance(v, tuple) and len(v) > 2 and v[0] == "S" and v[1] == op:
        r = []
        for x in v[2:]:
            r += flat(op, x)
        return r
    return [v]


def nf(v, conj=None, E=None):
    """order/grouping-insensitive normal form; `max` is resolved by known comparisons"""
    if not isinstance(v, tuple):
        return v
    if conj is not None and v and v[0] == "S":
        r = cranges(conj).get(v)
        if r and r[0] is not None and r[0] == r[1]:
            return ("i", r[0])
    if v and v[0] == "S" and len(v) > 2 and v[1] in ("max", "min", "add"):
        op = v[1]
        xs = [nf(x, conj, E) for x in v[2:]]
        xs = [y for x in xs for y in flat(op, x)]
        if op == "add":
            k = sum(x[1] for x in xs if x[0] == "i")
            xs = [x for x in xs if x[0] != "i"]
            if k or not xs:
                xs.append(("i", k))
        else:
            xs = list(dict.fromkeys(xs))
            ks = [x for x in xs if x[0] == "i"]
            xs = [x for x in xs if x[0] != "i"]
            if ks:
                k = (max if op == "max" else min)(x[1] for x in ks)
                if not (op == "max" and k == 0 and xs):
                    xs.append(("i", k))
            if conj is not None and E is not None:
                xs = _dominated(xs, conj, E, op)
        if len(xs) == 1:
            return xs[0]
        return ("S", op) + tuple(sorted(xs, key=repr))
    return tuple(nf(x, conj, E) for x in v)


def _dominated(xs, conj, E, op):
    xs = list(xs)
    ch = True
    while ch and len(xs) > 1:
        ch = False
        for x in xs:
            for y in xs:
                if x == y:
                    continue
                lo, hi = (x, y) if op == "max" else (y, x)
                # x is dominated by y
                k = E.decide(conj, ("b", S("lt", lo, hi)))
                if k is not None and k == ("in", frozenset([1])):
                    xs.remove(x)
                    ch = True
                    break
                k = E.decide(conj, ("b", S("lt", hi, lo)))
                if k is not None and k == ("in", frozenset([0])):
                    xs.remove(x)
                    ch = True
                    break
            if ch:
                break
    return xs


def show(conj, limit=14):
    l = []
    for a, v in sorted(conj, key=lambda x: repr(x)):
        t = pp(a[1])
        if len(t) > 160:
            t = t[:157] + "..."
        vs = sorted(v[1], key=str)
        if a[0] == "b" and v[0] == "in" and len(vs) == 1:
            l.append(("" if vs[0] else "not ") + t)
        elif a[0] == "var" and v[0] == "in":
            l.append("%s is variant %s" % (t, "/".join(map(str, vs))))
        else:
            l.append("%s %s %s" % (t, "in" if v[0] == "in" else "not in", vs))
    return "; ".join(l[:limit]) + ("; ..." if len(l) > limit else "") or "always"


def eta(E, conj, g, w):
    """expand terms of known variant so that g and w have the same shape"""
    if g == w or not (isinstance(g, tuple) and isinstance(w, tuple) and g and w):
        return g, w
    for swap in (False, True):
        x, y = (g, w) if not swap else (w, g)
        if x[0] == "S" and y[0] == "A" and y[1] in E.adts:
            n = E.nvar(y[1])
            if n > 1:
                k = E.decide(conj, ("var", x, n))
                if k is None or k[0] != "in" or len(k[1]) != 1:
                    return g, w
                k = next(iter(k[1]))
            else:
                k = 0
            x2 = ("A", y[1], k, tuple(S("f", x, k, i) for i in range(len(y[3]) if k == y[2] else nfields(E, y[1], k))))
            g, w = (x2, y) if not swap else (y, x2)
            break
        if x[0] == "S" and y[0] == "T":
            x2 = ("T", tuple(S("f", x, 0, i) for i in range(len(y[1]))))
            g, w = (x2, y) if not swap else (y, x2)
            break
    if g[0] == w[0] and g[0] == "A" and g[1:3] == w[1:3] and len(g[3]) == len(w[3]):
        ps = [eta(E, conj, a, b) for a, b in zip(g[3], w[3])]
        return (g[:3] + (tuple(p[0] for p in ps),), w[:3] + (tuple(p[1] for p in ps),))
    if g[0] == w[0] and g[0] in ("T", "V") and len(g[1]) == len(w[1]):
        ps = [eta(E, conj, a, b) for a, b in zip(g[1], w[1])]
        return ((g[0], tuple(p[0] for p in ps)), (w[0], tuple(p[1] for p in ps)))
    return g, w


def nfields(E, path, k):
    a = E.adts.get(path)
    return len(a["variants"][k]["fields"]) if a else 1


def same(E, conj, got, want):
    if got == want:
        return True
    g, w = eta(E, conj, got, want)
    return nf(g, conj, E) == nf(w, conj, E)
