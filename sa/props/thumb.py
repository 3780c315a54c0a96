"""C11-C13: the machine code decoder.  One abstract interpretation of the decoder loop for a generic position; the bytes of the
instruction at that position are symbolic bits, and everything the iteration does (advance, record a target, change the figure)
is compared, as a function of those bits, with an instruction table written from the architecture manual."""
from engine import S, OPT, Incomplete, pp
from bits import Bits

B, ADDR, V7, TAGS = S("bytes"), S("addr"), S("v7"), S("tags")


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def has(t, *needles):
    return any(x in needles for x in walk(t))


def lin(v, k=1, out=None):
    """value as {term: coefficient}; the constant under None"""
    out = {} if out is None else out

    def put(t, c):
        out[t] = out.get(t, 0) + c
        if not out[t]:
            del out[t]
    if v[0] == "i":
        put(None, k * v[1])
    elif v[0] == "S" and v[1] == "add":
        for x in v[2:]:
            lin(x, k, out)
    elif v[0] == "S" and v[1] == "neg":
        lin(v[2], -k, out)
    elif v[0] == "S" and v[1] == "mul" and v[2][0] == "i":
        lin(v[3], k * v[2][1], out)
    elif v[0] == "S" and v[1] == "mul" and v[3][0] == "i":
        lin(v[2], k * v[3][1], out)
    elif v[0] == "S" and v[1] == "shl" and v[3][0] == "i":
        lin(v[2], k << v[3][1], out)
    else:
        put(v, k)
    return out


def half(v):
    """v = x / 2 -> x"""
    if v[0] == "S" and (v[1] == "div" and v[3] == ("i", 2) or v[1] == "shr" and v[3] == ("i", 1)):
        return v[2]
    return None


class Decoder:
    def __init__(self, ctx):
        self.ctx = ctx
        E = self.E = ctx.engine()
        key = ctx.body("thumb::analyze")
        body = E.bodies[key] if hasattr(E, "bodies") else None
        self.base = None
        self.D = Bits(E, self.byte, self.flag)
        self.D.alloc(("v7",), 1)
        for off in (1, 0, 3, 2):
            self.D.alloc(("byte", off), 8)
        self.other = []
        args, used = [], set()
        for i in range(body["argc"]):
            ty = body["locals"][i + 1][0].replace(" ", "")
            sym = B if "[u8]" in ty else ADDR if ty == "u32" else V7 if ty == "bool" else TAGS if "Tag" in ty else None
            if sym is None or sym in used:
                raise Incomplete("parameter %d of thumb::analyze is not understood (%s)" % (i, ty))
            used.add(sym)
            args.append(sym)
        if len(used) != 4:
            raise Incomplete("thumb::analyze does not take the code, its address, the architecture and the tags")
        self.outs = E.run(key, tuple(args))
        if not self.outs:
            raise Incomplete("thumb::analyze never returns")
        if E.incomplete:
            raise Incomplete("thumb::analyze: " + "; ".join(sorted(set(E.incomplete)))[:300])
        self.find_loop()

    # ---- the bytes of the instruction at the position
    def offset(self, t):
        """a byte of the code -> (linear form of its offset, constant)"""
        if t[1] != "elem":
            return None
        c, i = t[2], t[3]
        if c == B:
            l = lin(i)
        elif c[0] == "S" and c[1] == "sub" and c[2] == B:
            l = lin(i)
            for x, k in lin(c[3]).items():
                l[x] = l.get(x, 0) + k
        elif c[0] == "S" and c[1] == "elem" and c[2][0] == "S" and c[2][1] == "chunks_exact" and c[2][2] == B and c[2][3] == ("i", 2):
            l = lin(i)
            for x, k in lin(c[3], 2).items():
                l[x] = l.get(x, 0) + k
        else:
            return None
        k = l.pop(None, 0)
        return tuple(sorted(l.items(), key=repr)), k

    def byte(self, t):
        o = self.offset(t)
        if o is None:
            return None
        l, k = o
        if not l:
            return ("byte-at", k)
        if len(l) == 1 and l[0][1] in (1, 2) and l[0][0][0] == "S" and l[0][0][1] == "phi" and len(l[0][0][2:]) == 3:
            if self.base is None:
                self.base = l[0]
            if l[0] == self.base and 0 <= k < 4:
                return ("byte", k)
        return ("byte-other", l, k)

    def flag(self, t):
        return ("v7",) if t == V7 else None

    # ---- structure
    def find_loop(self):
        E = self.E
        s, v = self.outs[0]
        r = E.deep(s, v)
        f = r[1] if r[0] == "T" else r[3] if r[0] == "A" else ()
        if len(f) != 5:
            raise Incomplete("thumb::analyze does not return five results")
        if self.base is None:
            raise Incomplete("thumb::analyze reads no instruction in a loop over the code")
        self.pos, self.coef = self.base
        self.lid = self.pos[2]
        recs = E.loops.get(self.lid)
        if not recs or len(recs) != 1:
            raise Incomplete("the loop over the code is entered in %d states" % len(recs or ()))
        self.loop = recs[0]
        self.vecs = f[0], f[1]
        self.H = {S("phi", self.lid, x[1], x[2]): (x[1], x[2]) for x in E.havoc[self.lid] if x[0] == "m"}
        if self.pos not in self.H:
            raise Incomplete("the position in the code is not kept by the loop that reads it")
        en = self.loop["entry"]
        c, p = self.H[self.pos]
        self.pos0 = E.deep(en, E.rdcell(en, c, p))
        if set(self.H) and not any(x[0] == "v" for x in ()):
            pass
        D = self.D
        self.h = [[D.B.var(D.alloc(("byte", 2 * n + (i >= 8)), 8) + 7 - i % 8) for i in range(16)] for n in (0, 1)]
        self.v7 = D.B.var(D.alloc(("v7",), 1))
        # equal counters: phis that start equal and advance alike
        self.alias = {}
        for ph, (c, p) in self.H.items():
            if ph != self.pos and E.deep(en, E.rdcell(en, c, p)) == self.pos0:
                if all(c in b.mem and self.sub(E.deep(b, E.rdcell(b, c, p)), {ph: self.pos}) == self.after(b, self.pos) for b in self.loop["backs"]):
                    self.alias[ph] = self.pos
        self.states = []
        for b in self.loop["backs"]:
            self.states.append(("next", b, self.guard(b.dom, b.pc)))
        for x, b in self.loop["exits"]:
            self.states.append(("exit", b, self.guard(b.dom, b.pc)))
        self.classify()

    def sub(self, v, m):
        if not m or not isinstance(v, tuple):
            return v
        if v in m:
            return m[v]
        return tuple(self.sub(x, m) for x in v)

    def after(self, b, ph):
        c, p = self.H[ph]
        if c not in b.mem:
            return None
        return self.E.deep(b, self.E.rdcell(b, c, p))

    def guard(self, dom, pc):
        return self.D.B.and_(1 if dom is None else dom, self.D.pcbdd(pc))

    def atoms(self):
        return [(k[1], n) for k, n in self.D.vars.items() if k[0] == "atom"]

    def exists(self, f, drop):
        BD, m = self.D.B, {}

        def go(x):
            if x < 2:
                return x
            if x not in m:
                v, lo, hi = BD.n[x]
                lo, hi = go(lo), go(hi)
                m[x] = BD.or_(lo, hi) if drop(v) else BD.mk(v, lo, hi) if False else BD.ite(BD.var(v), hi, lo)
            return m[x]
        return go(f)

    def classify(self):
        """what the path conditions say about the layout: enough code left, and code or data at this position"""
        D, BD = self.D, self.D.B
        self.live = [1, 1]      # this halfword exists, the next one exists
        tagvars = set()
        for a, n in self.atoms():
            t = a[1]
            if has(t, TAGS):
                tagvars.add(n)
                continue
            if a[0] == "b" and t[0] == "S" and has(t, B) and has(t, self.pos) and not any(x[0] == "S" and x[1] in ("bv", "bb") for x in walk(t) if len(x) > 1 and isinstance(x[0], str)):
                if t[1] == "more":
                    k = lin(t[3]).get(None, 0)
                    w = 1 if t[2] != B else None
                    hw = k if w else k // 2
                    pol = BD.var(n)
                elif t[1] == "lt" and has(t[3], B):
                    k = lin(t[2]).get(None, 0)
                    hw = k if self.coef == 2 and lin(t[2]).get(self.pos) == 1 else k // 2
                    pol = BD.var(n)
                elif t[1] == "lt" and has(t[2], B):
                    k = lin(t[3]).get(None, 0)
                    hw = (k - 1) if self.coef == 2 and lin(t[3]).get(self.pos) == 1 else (k - 1) // 2
                    pol = BD.neg(BD.var(n))
                else:
                    continue
                for i in range(2):
                    if hw <= i:
                        self.live[i] = BD.and_(self.live[i], pol)
        self.tagvars = tagvars
        code = 0
        bits = {n + i for k, n in D.vars.items() if k[0] == "byte" for i in range(8)}
        reads = {n for n in bits if n < D.vars[("byte", 3)]}
        for _, s, g in self.states:
            if s.dom is not None and s.dom != 1:
                code = BD.or_(code, g)
        self.code = self.exists(code, lambda v: v not in tagvars)
        self.full = BD.and_(self.live[1], BD.and_(self.live[0], self.code))

    def pat(self, *ps):
        """16-bit patterns over the halfwords, MSB first: 0 1 or a don't care"""
        BD, r = self.D.B, 1
        for h, p in zip(self.h, ps):
            p = p.replace(" ", "").replace("_", "")
            assert len(p) == 16, p
            for i, ch in enumerate(reversed(p)):
                if ch in "01":
                    r = BD.and_(r, h[i] if ch == "1" else BD.neg(h[i]))
        return r

    def enc(self, f):
        """an encoding in f, for a report"""
        a = self.D.B.any_sat(f)
        w = []
        for h in self.h:
            n = 0
            for i, x in enumerate(h):
                n |= a.get(self.D.B.n[x][0], 0) << i
            w.append(n)
        v = a.get(0)
        s = "%04x" % w[0]
        if w[0] >> 11 >= 0b11101:
            s += " %04x" % w[1]
        return s + ("" if v is None else " (v7)" if v else " (v6)")

    def inter(self, *fs):
        r = 1
        for f in fs:
            r = self.D.B.and_(r, f)
            if r == 0:
                return 0
        return r

    def union(self, fs):
        r = 0
        for f in fs:
            r = self.D.B.or_(r, f)
        return r

    def minus(self, f, g):
        return self.D.B.and_(f, self.D.B.neg(g))

    # ---- results as functions of the loop's variables
    def flagof(self, v, sg):
        """the diagram of a boolean value; sg: substitution of loop variables"""
        D, BD = self.D, self.D.B
        if v[0] == "S" and v[1] == "phi":
            if v in sg:
                return self.flagof(sg[v], {})
            return BD.var(D.alloc(("atom", ("b", v)), 1))
        if v[0] == "S" and v[1] == "not":
            return BD.neg(self.flagof(v[2], sg))
        if v[0] == "S" and v[1] in ("or", "and", "xor"):
            return {"or": BD.or_, "and": BD.and_, "xor": BD.xor}[v[1]](self.flagof(v[2], sg), self.flagof(v[3], sg))
        if v[0] == "S" and v[1] == "isvar":
            return self.variantof(v[2], v[3], v[4], sg)
        x = D.bb(v)
        if x is None:
            return BD.var(D.alloc(("atom", ("b", v)), 1))
        return x

    def variantof(self, v, n, k, sg):
        D, BD = self.D, self.D.B
        if v[0] == "A":
            return 1 if v[2] == k else 0
        if v in sg:
            return self.variantof(sg[v], n, k, {})
        return D.atombdd(("var", v, n), ("in", frozenset([k])))

    def condof(self, pc, sg):
        """the part of a path condition that is about the loop's variables (but not the position)"""
        BD, r = self.D.B, 0
        for conj in pc:
            c = 1
            for (a, x) in conj:
                t = a[1]
                if not any(p in self.H and p != self.pos for p in walk(t)) or has(t, self.pos):
                    continue
                if a[0] == "b":
                    f = self.flagof(t, sg)
                    ok = [b for b in (0, 1) if (b in x[1]) == (x[0] == "in")]
                    c = BD.and_(c, self.union([f if b else BD.neg(f) for b in ok]))
                elif a[0] == "var":
                    ok = [b for b in range(a[2]) if (b in x[1]) == (x[0] == "in")]
                    c = BD.and_(c, self.union([self.variantof(t, a[2], b, sg) for b in ok]))
                else:
                    raise Incomplete("condition %s on a result" % pp(t)[:80])
            r = BD.or_(r, c)
        return r

    def results(self, i):
        out = []
        for s, v in self.outs:
            r = self.E.deep(s, v)
            f = r[1] if r[0] == "T" else r[3]
            out.append((s, f[i]))
        return out

    def boolres(self, i, sg):
        BD = self.D.B
        return self.union([BD.and_(self.condof(s.pc, sg), self.flagof(v, sg)) for s, v in self.results(i)])

    def sigma(self, b):
        return {ph: self.after(b, ph) for ph in self.H if self.after(b, ph) is not None}

    def entry_sigma(self):
        en = self.loop["entry"]
        return {ph: self.E.deep(en, self.E.rdcell(en, c, p)) for ph, (c, p) in self.H.items()}


# ------------------------------------------------------------------ the architecture
def wide(d):
    """first halfword of a 32-bit instruction"""
    return d.union([d.pat("11101xxxxxxxxxxx"), d.pat("11110xxxxxxxxxxx"), d.pat("11111xxxxxxxxxxx")])


def field(d, *parts):
    """parts: most significant first, each (halfword, hi, lo) or a constant bit or a diagram"""
    out = []
    for p in parts:
        if isinstance(p, tuple):
            n, hi, lo = p
            out += [d.h[n][i] for i in range(hi, lo - 1, -1)]
        else:
            out.append(p)
    return list(reversed(out))


class BranchSpec:
    """encodings and displacements (relative to the instruction's own address plus 4) of the direct branches and calls"""

    def __init__(self, d):
        BD = d.D.B
        s, j1, j2 = d.h[0][10], d.h[1][13], d.h[1][11]
        i1, i2 = BD.neg(BD.xor(j1, s)), BD.neg(BD.xor(j2, s))
        far = (True, tuple(field(d, s, i1, i2, (0, 9, 0), (1, 10, 0), 0)))
        nocond = d.union([d.pat("xxxx1110xxxxxxxx"), d.pat("xxxx1111xxxxxxxx")])
        wcond = d.pat("xxxxxx111xxxxxxx")
        self.bl = [("BL T1", d.pat("11110xxxxxxxxxxx", "11x1xxxxxxxxxxxx"), far)]
        self.b = [
            ("B T1", d.minus(d.pat("1101xxxxxxxxxxxx"), nocond), (True, tuple(field(d, (0, 7, 0), 0)))),
            ("B T2", d.pat("11100xxxxxxxxxxx"), (True, tuple(field(d, (0, 10, 0), 0)))),
            ("B T3", d.inter(d.v7, d.minus(d.pat("11110xxxxxxxxxxx", "10x0xxxxxxxxxxxx"), wcond)),
             (True, tuple(field(d, s, j2, j1, (0, 5, 0), (1, 10, 0), 0)))),
            ("B T4", d.inter(d.v7, d.pat("11110xxxxxxxxxxx", "10x1xxxxxxxxxxxx")), far),
        ]
        self.cb = d.inter(d.v7, d.pat("1011x0x1xxxxxxxx"))
        # encodings that only exist on the other architecture: nothing is required of them
        self.only7 = d.minus(d.pat("11110xxxxxxxxxxx", "10xxxxxxxxxxxxxx"), d.v7)


def sat(d, spec):
    return d.union([f for _, f, _ in spec])


def iteval(d, spec):
    r = (False, ())
    for _, f, v in spec:
        r = d.D.iten(f, v, r)
    return r


def decompose(d, v):
    """value = bits + k * position + const -> (bits (signed, nodes), k) or None"""
    l = lin(v)
    if d.alias:
        l = lin(d.sub(v, d.alias))
    c = l.pop(None, 0)
    k = l.pop(d.pos, 0)
    acc = d.D.bv(("i", c))
    for t, m in l.items():
        x = d.D.bv(t)
        if x is None or m != 1:
            return None
        w = 40
        acc = d.D.norm(True, d.D.addn(d.D.fit(acc, w), d.D.fit(x, w))[0])
    return acc, k


def differ(d, g, x, y, w):
    """a subset of g where the w-bit values differ"""
    return d.inter(g, d.D.B.neg(d.D.eqn(d.D.fit(x, w), d.D.fit(y, w))))


def addk(d, x, k):
    return d.D.norm(True, d.D.addn(d.D.fit(x, 40), d.D.fit(d.D.bv(("i", k)), 40))[0])


def pushes(d, which):
    return [e for e in d.E.events if e.kind == "push" and e.data[0] == d.vecs[which]]


def start_of(ctx, d):
    l = lin(d.pos0)
    ctx.need(l in ({}, {None: 0}), "walk", "the walk starts at the first byte", "the walk starts at " + pp(d.pos0)[:80])


# ------------------------------------------------------------------ C13
def targets(ctx):
    d = Decoder(ctx)
    sp = BranchSpec(d)
    ctx.cov["instruction_patterns"] = [n for n, _, _ in sp.bl + sp.b]
    for which, spec, what in ((0, sp.bl, "calls"), (1, sp.b, "branches")):
        v = d.vecs[which]
        ents = [e for e in d.E.events if e.kind in ("insert", "remove", "clear", "sort", "mutate", "mutcall", "store") and v in e.data[:1]]
        ctx.need(not ents, "record", "the list of %s is only appended to" % what,
                 "%s of the list of %s" % (ents and ents[0].kind, what), ents and ents[0].loc)
        want, val = sat(d, spec), iteval(d, spec)
        want = d.minus(want, sp.only7)
        got, many = 0, 0
        for e in pushes(d, which):
            if not e.loops or e.loops[-1] != d.lid:
                ctx.violate("record/%s-outside" % what, "an entry of the list of %s is recorded outside the walk over the code, or several per instruction" % what, e.loc)
                continue
            g = d.guard(e.dom, e.pc)
            many = d.D.B.or_(many, d.inter(g, got))
            got = d.D.B.or_(got, g)
            wrong = d.inter(g, d.full, d.D.B.neg(d.D.B.or_(want, sp.only7)))
            ctx.need(wrong == 0, "only", "%s recorded at %s are %s" % (what, "push", what),
                     "%s is recorded among the %s but is none" % (d.enc(wrong), what), e.loc, key="only/" + what)
            dc = decompose(d, e.data[1])
            if dc is None:
                ctx.violate("value/" + what, "the displacement %s is not understood" % pp(e.data[1])[:160], e.loc)
                continue
            x, k = dc
            ctx.need(k == d.coef, "value", "the displacement of %s is relative to the instruction" % what,
                     "the displacement counts %s times the position of the instruction" % k, e.loc, key="relative/" + what)
            for n, f, y in spec:
                gg = d.inter(g, f, d.full)
                if gg == 0:
                    continue
                bad = differ(d, gg, x, addk(d, y, 4), 32)
                ctx.need(bad == 0, "value", "displacement of %s over all of its %d encodings" % (n, d.D.B.count(f, 33) >> 1),
                         "the displacement of %s is wrong, for example for %s" % (n, d.enc(bad)), e.loc, key="value/" + n)
        for n, f, _ in spec:
            miss = d.minus(d.inter(f, d.full), d.D.B.or_(got, sp.only7))
            ctx.need(miss == 0, "complete", "every %s is recorded" % n, "%s, a %s, is not recorded" % (d.enc(miss), n), key="complete/" + n)
        dup = d.inter(many, d.full)
        ctx.need(dup == 0, "once", "each of the %s is recorded once" % what, "%s is recorded twice" % d.enc(dup), key="once/" + what)
    # register branches
    reg = d.pat("010001111xxxx000")
    bx = d.pat("010001110xxxx000")
    lr = d.pat("010001110 1110 000")
    must = d.union([reg, d.minus(bx, lr)])
    may = d.union([d.pat("01000111xxxxxxxx"), d.pat("01000110 1 xxxx 111"), d.pat("01000100 1 xxxx 111"), wide(d)])
    never = d.D.B.neg(d.union([must, d.minus(may, d.union([lr]))]))
    flags(ctx, d, 2, must, never, "an indirect call")
    start_of(ctx, d)


def flags(ctx, d, idx, must, never, what):
    """result idx becomes true exactly on `must` (and is left alone on `never`)"""
    BD = d.D.B
    base = d.boolres(idx, {})
    ctx.need(d.boolres(idx, d.entry_sigma()) == 0, "flag", "initially nothing is reported as %s" % what, "%s is reported before the walk" % what)
    for kind, s, g in d.states:
        now = d.boolres(idx, d.sigma(s))
        gg = d.inter(g, d.full)
        if gg:
            miss = d.inter(gg, must, BD.neg(now))
            ctx.need(miss == 0, "flag", "%s is reported wherever there is one" % what, "%s is not reported as %s" % (d.enc(miss), what), key="flag-missed")
            extra = d.inter(gg, never, BD.neg(base), now)
            ctx.need(extra == 0, "flag", "nothing else is reported as %s" % what, "%s is reported as %s" % (d.enc(extra), what), key="flag-extra")
        lost = d.inter(g, base, BD.neg(now))
        ctx.need(lost == 0, "flag", "a report of %s is kept" % what, "a report of %s is lost at %s" % (what, d.enc(lost)), key="flag-lost")


# ------------------------------------------------------------------ C11
def steps(ctx):
    d = Decoder(ctx)
    BD, E = d.D.B, d.E
    start_of(ctx, d)
    W = wide(d)
    need = BD.ite(W, d.live[1], d.live[0])
    code = d.inter(d.code, d.live[0], need)
    cover = 0
    for kind, s, g in d.states:
        gg = d.inter(g, code)
        if gg == 0:
            continue
        if kind == "exit":
            ctx.violate("walk/stops", "the walk stops at %s" % d.enc(gg))
            continue
        cover = BD.or_(cover, g)
        v = d.after(s, d.pos)
        x = None
        if v is not None:
            l = lin(v)
            l[d.pos] = l.get(d.pos, 0) - 1
            if not l[d.pos]:
                del l[d.pos]
            c = l.pop(None, 0)
            x = d.D.bv(("i", c))
            for t, m in l.items():
                y = d.D.bv(t)
                if y is None or m != 1:
                    x = None
                    break
                x = d.D.norm(True, d.D.addn(d.D.fit(x, 40), d.D.fit(y, 40))[0])
        if x is None:
            ctx.violate("walk/step", "after %s the walk goes on at %s" % (d.enc(gg), pp(v)[:120] if v else "an unknown place"))
            continue
        k = 2 // d.coef
        want = d.D.iten(W, d.D.bv(("i", 2 * k)), d.D.bv(("i", k)))
        bad = differ(d, gg, x, want, 40)
        ctx.need(bad == 0, "step", "the walk advances by the size of the instruction", "after %s the walk does not advance by %s" % (
            d.enc(bad), "four bytes" if d.inter(bad, W) else "two bytes"), key="step")
    miss = d.minus(code, cover)
    ctx.need(miss == 0, "step", "every halfword that is code is walked over (65536 first halfwords)", "the walk does not get past %s" % (miss and d.enc(miss)), key="stops")
    # the walk ends at the end, or where only data follows
    for kind, s, g in d.states:
        if kind == "exit":
            gg = d.inter(g, d.live[0], d.code)
            gg = d.minus(gg, BD.and_(W, BD.neg(d.live[1])))
            ctx.need(gg == 0, "end", "the walk only ends at the end of the code", "the walk ends at %s although code follows" % (gg and d.enc(gg)), key="end")
    regions(ctx, d)


def tag_atoms(d):
    return [(a, n) for a, n in d.atoms() if n in d.tagvars]


def regions(ctx, d):
    """data: where is the code interpreted, and where does the walk go on behind a data region"""
    BD, E = d.D.B, d.E
    found = []      # (diagram, index of the tag) for lookups of a tag at this address
    here = None
    for a, n in tag_atoms(d):
        t = a[1]
        k = lookup(d, a, n)
        if k is not None:
            found.append((a,) + k)
    if len(found) != 1:
        ctx.violate("data/lookup", "the tag at the address of the instruction is looked up in %d ways" % len(found))
        return
    a, f, tag, universe = found[0]
    data = None
    dv = variant_index(d, "Data")
    for a2, n in tag_atoms(d):
        if a2[0] == "var" and a2[1] in tagkind(d, tag):
            data = BD.var(n) if dv == 1 else BD.neg(BD.var(n))
    if data is None:
        ctx.violate("data/kind", "the kind of the tag at the address of the instruction is not looked at")
        return
    isdata = BD.and_(f, data)
    bad = d.inter(d.code, isdata)
    ctx.need(bad == 0, "data", "no data is interpreted as code", "bytes at the start of a data region are interpreted as instructions", key="data/interpreted")
    bad = d.minus(d.inter(universe, BD.neg(isdata)), d.code)
    ctx.need(bad == 0, "data", "everything else is interpreted", "an address without a data tag is not interpreted as code", key="data/skipped")
    # where the walk goes on
    nxt = S("add", *sorted([tag_index(tag), ("i", 1)], key=repr)) if tag_index(tag) is not None else None
    cont = 0
    for kind, s, g in d.states:
        gg = d.inter(g, isdata, d.live[0])
        if gg == 0:
            continue
        if kind == "exit":
            # allowed when no tag follows, or when two data tags follow each other (a broken symbol table stops the tool)
            more = [BD.var(n) for a3, n in tag_atoms(d) if is_more(d, a3, tag)]
            if not more:
                ctx.violate("data/end", "the walk ends at a data region although code may follow")
                continue
            rest = gg
            for m in more:
                rest = d.inter(rest, m)
            rest = d.minus(rest, after_is_data(d, tag))
            ctx.need(rest == 0, "data", "the walk ends at a data region only when nothing follows", "the walk ends at a data region although code follows", key="data/end")
            continue
        cont = BD.or_(cont, gg)
        v = d.after(s, d.pos)
        w = skipped(d, v)
        ok = False
        if w is None and v is not None:
            ok = used_up(d, s, v) or nothing_to_skip(d, s, v, tag)
        if w is not None:
            end = w
            l = lin(end)
            want = [tuple(sorted(l2.items(), key=repr)) for l2 in ends(d, tag)]
            ok = tuple(sorted(l.items(), key=repr)) in want
        ctx.need(ok, "data", "behind a data region the walk goes on at the next tag", "behind a data region the walk goes on at %s" % (pp(v)[:160] if v else "?"), key="data/skip")
    ctx.need(cont != 0, "data", "the walk goes on behind a data region", "the walk never goes on behind a data region", key="data/continues")


def variant_index(d, name):
    for p, a in d.E.adts.items():
        if p.endswith("thumb::Tag") or p.endswith("::Tag"):
            for i, v in enumerate(a["variants"]):
                if v.get("name", v.get("n")) == name:
                    return i
    raise Incomplete("no variant " + name)


def lookup(d, a, n):
    """a is the outcome of a search of the tags for one at this very address
    -> (diagram of `found`, index term, diagram of the possible outcomes)"""
    t, BD = a[1], d.D.B
    if t[0] != "S":
        return None
    if a[0] == "var" and t[1] == "bsearch" and t[2] == TAGS and keyeq(d, t[3]):
        return BD.neg(BD.var(n)), S("f", t, 0, 0), 1
    if a[0] == "b" and t[1] == "eq":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if here(d, x) and y[0] == "S" and y[1] == "f" and y[4] == 0 and y[2][0] == "S" and y[2][1] == "elem" and y[2][2] == TAGS:
                i = y[2][3]
                m = S("more", TAGS, i)
                mv = [k for b, k in tag_atoms(d) if b == ("b", m)]
                if i[0] == "S" and i[1] == "phi" and mv:
                    m = BD.var(mv[0])
                    return d.inter(BD.var(n), m), S("position", y[2]), BD.or_(BD.neg(m), BD.var(n))
    return None


def here(d, v):
    return lin(d.sub(v, d.alias)) == {ADDR: 1, d.pos: 2 if d.coef == 2 else 1}


def keyeq(d, t):
    """comparison of the address of an element with the address of the instruction"""
    if t[0] == "S" and t[1] == "cmp":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if here(d, y):
                return True
    return False


def tag_index(tag):
    return tag


def tagkind(d, tag):
    return [S("f", x, 0, 1) for x in tagterms(d, tag)]


def tagterms(d, tag):
    return [S("elem", TAGS, tag)]


def nexttags(d, tag):
    """terms for the tag that follows"""
    return [S("elem", TAGS, d.E.add(tag, ("i", 1)))]


def is_more(d, a, tag):
    return a[0] == "b" and a[1] == S("more", TAGS, d.E.add(tag, ("i", 1)))


def after_is_data(d, tag):
    dv = variant_index(d, "Data")
    r = 0
    for a, n in tag_atoms(d):
        if a[0] == "var" and a[1] in [S("f", x, 0, 1) for x in nexttags(d, tag)]:
            r = d.D.B.or_(r, d.D.B.var(n) if dv == 1 else d.D.B.neg(d.D.B.var(n)))
    return r


def ends(d, tag):
    """(address of the next tag) - (address of this one), as a linear form"""
    out = []
    for x in nexttags(d, tag):
        out.append({S("f", x, 0, 0): 1, ADDR: -1, d.pos: -2 if d.coef == 2 else -1})
        for y in tagterms(d, tag):
            out.append({S("f", x, 0, 0): 1, S("f", y, 0, 0): -1})
    return out


def used_up(d, s, v):
    """the code ends before the region does"""
    def end(a, k):
        return a[0] == "b" and k == ("in", frozenset([0])) and a[1][0] == "S" and a[1][1] == "more" and has(a[1][2], B) and lin(a[1][3]) == lin(v)
    return all(any(end(a, k) for a, k in conj) for conj in s.pc)


def nothing_to_skip(d, s, v, tag):
    """only this halfword is skipped, on a path where the region is no longer than that"""
    one = 2 // d.coef
    if lin(v) != {d.pos: 1, None: one}:
        return False
    want = [tuple(sorted(l2.items(), key=repr)) for l2 in ends(d, tag)]

    def short(a, k):
        # not 1 < n/2
        if a[0] != "b" or k != ("in", frozenset([0])) or a[1][0] != "S" or a[1][1] != "lt":
            return False
        h = half(a[1][3])
        return a[1][2] == ("i", 1) and h is not None and tuple(sorted(lin(h).items(), key=repr)) in want
    return all(any(short(a, k) for a, k in conj) for conj in s.pc)


def skipped(d, v):
    """v = position + n / 2 for the number of bytes n -> n (as a value); through a loop that advances once per round"""
    E = d.E
    if v is None:
        return None
    seen = 0
    while True:
        l = lin(d.sub(v, d.alias))
        inner = [t for t in l if t is not None and t[0] == "S" and t[1] == "phi" and t != d.pos and l[t] == 1]
        if not inner or seen > 3:
            break
        seen += 1
        t = inner[0]
        w = rounds(d, t)
        if w is None:
            return None
        del l[t]
        v = E.sum([w] + [E.binop1(None, "Mul", x, ("i", k), "i64") if k != 1 else x for x, k in l.items() if x is not None] + [("i", l.get(None, 0))])
    l = lin(d.sub(v, d.alias))
    if l.pop(d.pos, 0) != 1:
        return None
    if d.coef == 2:
        if len(l) != 1:
            return None
        (t, k), = l.items()
        return half(t) if t is not None and k == 1 else None
    r = E.sum([x if k == 1 else E.neg(x) for x, k in l.items() if x is not None] + [("i", l.get(None, 0))])
    return r


def unsat(E, v):
    """a difference that stops at zero: no rounds either way"""
    return E.sum([v[2], E.neg(v[3])]) if v[0] == "S" and v[1] == "satsub" else v


def rounds(d, t):
    """the value of a variable that a loop increases by one per round, after the loop"""
    E = d.E
    lid = t[2]
    recs = E.loops.get(lid)
    if not recs:
        return None
    out = None
    for r in recs:
        H = {S("phi", lid, x[1], x[2]): (x[1], x[2]) for x in E.havoc[lid] if x[0] == "m"}
        if t not in H:
            return None

        def val(s, ph):
            c, p = H[ph]
            return E.deep(s, E.rdcell(s, c, p)) if c in s.mem else None
        for b in r["backs"]:
            x = val(b, t)
            if x == t:
                # nothing left to skip
                if not all(any(a[0] == "b" and a[1][0] == "S" and a[1][1] == "more" and has(a[1], B) and t in a[1] and k == ("in", frozenset([0])) for a, k in conj) for conj in b.pc):
                    return None
            elif x != E.add(t, ("i", 1)):
                return None
        n = None
        for ex, s in r["exits"]:
            for conj in s.pc:
                c = None
                for a, k in conj:
                    if a[0] == "b" and a[1][0] == "S" and a[1][1] == "lt" and k == ("in", frozenset([0])):
                        for ph in H:
                            l = lin(a[1][2])
                            x0 = val(r["entry"], ph)
                            if l.get(ph) == 1 and set(l) <= {ph, None} and not has(a[1][3], *H):
                                # rounds until start + c >= bound
                                if all(val(b, ph) == E.add(ph, ("i", 1)) for b in r["backs"]):
                                    c = E.sum([unsat(E, a[1][3]), ("i", -l.get(None, 0)), E.neg(x0)])
                            l = lin(a[1][3])
                            if l.get(ph) == 1 and set(l) <= {ph, None} and not has(a[1][2], *H):
                                # rounds until bound >= start + c, downwards
                                if all(val(b, ph) == E.add(ph, ("i", -1)) for b in r["backs"]):
                                    c = E.sum([unsat(E, x0), ("i", l.get(None, 0)), E.neg(a[1][2])])
                if c is None and any(a[0] == "b" and a[1][0] == "S" and a[1][1] == "more" and has(a[1], B) and t in a[1] and k == ("in", frozenset([0])) for a, k in conj):
                    continue
                if c is None or n is not None and n != c:
                    return None
                n = c
        if n is None:
            return None
        w = E.sum([val(r["entry"], t), n])
        if out is not None and out != w:
            return None
        out = w
    return out


# ------------------------------------------------------------------ C12
def times4(d, n):
    return (False, (0, 0) + tuple(n))


def popcount(d, nodes):
    acc = [0] * 6
    for n in nodes:
        acc, _ = d.D.addn(acc, [n] + [0] * 5)
    return acc


def expand_imm(d):
    """ThumbExpandImm(i:imm3:imm8)"""
    BD = d.D.B
    i, imm3 = d.h[0][10], [d.h[1][12], d.h[1][13], d.h[1][14]]
    imm8 = [d.h[1][k] for k in range(8)]
    z = [0] * 8
    r = [0] * 32

    def put(g, bits):
        for k in range(32):
            r[k] = BD.or_(r[k], BD.and_(g, bits[k]))
    top = BD.and_(BD.neg(i), BD.neg(imm3[2]))
    n0, n1 = BD.neg(imm3[0]), BD.neg(imm3[1])
    put(d.inter(top, n1, n0), imm8 + z + z + z)
    put(d.inter(top, n1, imm3[0]), imm8 + z + imm8 + z)
    put(d.inter(top, imm3[1], n0), z + imm8 + z + imm8)
    put(d.inter(top, imm3[1], imm3[0]), imm8 * 4)
    one = imm8[:7] + [1] + [0] * 24
    amount = [imm8[7], imm3[0], imm3[1], imm3[2], i]
    for n in range(8, 32):
        g = BD.neg(top)
        for k in range(5):
            g = BD.and_(g, amount[k] if n >> k & 1 else BD.neg(amount[k]))
        put(g, one[n:] + one[:n])
    return (False, tuple(r))


def adjustments(d):
    f = lambda *p: (False, tuple(field(d, *p)))
    v7 = lambda *p: d.inter(d.v7, d.pat(*p))
    return [
        ("PUSH T1", d.pat("1011010xxxxxxxxx"), times4(d, popcount(d, d.h[0][:9]))),
        ("SUB SP T1", d.pat("101100001xxxxxxx"), f((0, 6, 0), 0, 0)),
        ("STMDB SP!", v7("1110100100101101", "0x0xxxxxxxxxxxxx"), times4(d, popcount(d, d.h[1][:13] + [d.h[1][14]]))),
        ("SUB SP T2", v7("11110x01101x1101", "0xxx1101xxxxxxxx"), expand_imm(d)),
        ("SUBW SP T3", v7("11110x1010101101", "0xxx1101xxxxxxxx"), f((0, 10, 10), (1, 14, 12), (1, 7, 0))),
        ("VPUSH", v7("111011010x101101", "xxxx101xxxxxxxxx"), f((1, 7, 0), 0, 0)),
        ("STR [SP, #-n]!", v7("1111100001001101", "xxxx1x01xxxxxxxx"), f((1, 7, 0))),
    ]


def opt_cases(d, i, sg):
    """[(diagram, None | value)] for an Option result"""
    out = []

    def val(v, c, sg):
        if c == 0:
            return
        if v[0] == "A":
            out.append((c, None if v[2] == 0 else d.sub(v[3][0], sg)))
        elif v in sg:
            val(sg[v], c, {})
        else:
            out.append((d.inter(c, d.variantof(v, 2, 0, {})), None))
            out.append((d.inter(c, d.variantof(v, 2, 1, {})), S("f", v, 1, 0)))
    for s, v in d.results(i):
        val(v, d.condof(s.pc, sg), sg)
    return [x for x in out if x[0]]


def inside(d, sets, atoms):
    """where the target of the branch (encodings, displacement) is known to be compared with the function's extent:
    (diagram of `the target lies inside`, encodings for which that is tested)"""
    BD, D = d.D.B, d.D
    neg, negd, lenu, lenud, lens, lensd = 0, 0, 0, 0, 0, 0
    for a, n in d.atoms():
        t = a[1]
        if a[0] != "b" or t[0] != "S" or t[1] != "lt" or a not in atoms:
            continue
        x, y = t[2], t[3]
        u = x[0] == "S" and x[1] == "ucast"
        if u:
            x = x[2]
        dc = decompose(d, x)
        if dc is None or dc[1] != d.coef or not (y == ("i", 0) or y == S("len", B)):
            continue
        for f, v in sets:
            same = d.inter(f, D.eqn(D.fit(dc[0], 40), D.fit(addk(d, v, 4), 40)))
            g = d.inter(same, BD.var(n))
            if y == ("i", 0):
                neg, negd = BD.or_(neg, g), BD.or_(negd, same)
            elif u:
                lenu, lenud = BD.or_(lenu, g), BD.or_(lenud, same)
            else:
                lens, lensd = BD.or_(lens, g), BD.or_(lensd, same)
    r = d.inter(BD.or_(lenu, d.inter(lens, negd)), BD.neg(neg))
    return r, BD.or_(lenud, d.inter(lensd, negd))


def extents(d, sp, s):
    """what the path of a state knows about the target of a branch: inside the function, and whether it was tested"""
    BD, D = d.D.B, d.D
    atoms = {a for conj in s.pc for a, _ in conj}
    ins, known = inside(d, [(f, v) for _, f, v in sp.b], atoms)
    cbv = (False, tuple(field(d, d.h[0][9], (0, 7, 3), 0)))
    cins, cknown = 0, 0
    # compare-and-branch only goes forward
    for a, n in d.atoms():
        t = a[1]
        if a in atoms and a[0] == "b" and t[0] == "S" and t[1] == "lt" and t[3] == S("len", B):
            x = t[2][2] if t[2][0] == "S" and t[2][1] == "ucast" else t[2]
            dc = decompose(d, x)
            if dc and dc[1] == d.coef:
                same = d.inter(sp.cb, D.eqn(D.fit(dc[0], 40), D.fit(addk(d, cbv, 4), 40)))
                cknown = BD.or_(cknown, same)
                cins = BD.or_(cins, d.inter(same, BD.var(n)))
    return ins, known, cins, cknown


def figure(ctx):
    d = Decoder(ctx)
    BD, D = d.D.B, d.D
    start_of(ctx, d)
    adj = adjustments(d)
    ctx.cov["instruction_patterns"] = [n for n, _, _ in adj]
    sp = BranchSpec(d)
    amount = iteval(d, adj)
    counted = sat(d, adj)
    W = wide(d)
    # nothing is required for these: reserved encodings, other ways to push that the tool does not claim to know
    free = d.union([
        d.minus(W, BD.or_(d.v7, sat(d, sp.bl))),
        d.minus(d.pat("1110100100101101"), d.pat("xxxxxxxxxxxxxxxx", "0x0xxxxxxxxxxxxx")),
        d.pat("1110100x01101101"),
        d.pat("11111000 00x0 1101", "xxxx1x01xxxxxxxx"),
    ])
    free = d.minus(free, counted)
    isb, cb = sat(d, sp.b), sp.cb
    ent = opt_cases(d, 4, d.entry_sigma())
    ctx.need(all(v == ("i", 0) for c, v in ent) and ent, "initial", "the figure starts at zero", "the figure starts at %s" % [pp(v)[:40] if v else None for _, v in ent])
    before = opt_cases(d, 4, {})
    kept = 0
    for kind, s, g in d.states:
        sg = d.sigma(s)
        ins, known, cins, cknown = extents(d, sp, s)
        after = opt_cases(d, 4, sg)
        for cj, x in before:
            for ci, y in after:
                gg = d.inter(g, cj, ci)
                if gg == 0:
                    continue
                if x is None:
                    ctx.need(y is None, "withheld", "a withheld figure stays withheld", "a figure that was withheld comes back as %s at %s" % (y and pp(y)[:80], d.enc(gg)), key="withheld-returns")
                    continue
                g1 = d.inter(gg, d.full, BD.neg(free))
                if y is None:
                    bad = d.minus(g1, BD.or_(d.inter(isb, ins), d.minus(cb, d.minus(cknown, cins))))
                    ctx.need(bad == 0, "withheld", "the figure is only withheld at a branch inside the function", "the figure is withheld at %s" % d.enc(bad), key="withheld-needlessly")
                    continue
                bad = d.inter(g1, BD.or_(d.inter(isb, BD.or_(ins, BD.neg(known))), d.inter(cb, BD.or_(cins, BD.neg(cknown)))))
                ctx.need(bad == 0, "withheld", "the figure is withheld at a branch inside the function", "the figure is kept at %s, a branch that may stay inside the function" % d.enc(bad), key="withheld-not")
                l = lin(y)
                for t, k in lin(x).items():
                    l[t] = l.get(t, 0) - k
                    if not l[t]:
                        del l[t]
                acc = D.bv(("i", l.pop(None, 0)))
                for t, k in l.items():
                    z = D.bv(t)
                    if z is None or k != 1:
                        acc = None
                        break
                    acc = D.norm(True, D.addn(D.fit(acc, 66), D.fit(z, 66))[0])
                if acc is None:
                    gx = d.inter(g, cj, ci) if not d.inter(g, d.code) else g1
                    if gx:
                        ctx.violate("figure/form", "the figure becomes %s at %s" % (pp(y)[:160], d.enc(gx)))
                    continue
                if not d.inter(g, d.code):
                    ctx.need(acc == (False, ()), "figure", "data does not change the figure", "a data region changes the figure by " + pp(y)[:100], key="figure/data")
                    continue
                for n, f, v in adj:
                    h = d.inter(g1, f)
                    if h:
                        bad = differ(d, h, acc, v, 64)
                        ctx.need(bad == 0, "figure", "size of %s over all of its encodings" % n, "the size of %s is wrong, for example for %s" % (n, d.enc(bad)), key="figure/" + n)
                h = d.minus(g1, counted)
                if h:
                    bad = differ(d, h, acc, (False, ()), 64)
                    ctx.need(bad == 0, "figure", "no other instruction changes the figure", "%s changes the figure" % d.enc(bad), key="figure/other")
                kept = BD.or_(kept, g1)
    if not before or all(x is None for _, x in before):
        ctx.violate("figure/none", "the figure is never reported")
    may = d.union([counted, W, d.pat("101100000xxxxxxx"), d.pat("010001001xxxx101"), d.pat("010001101xxxx101"), d.pat("1011110xxxxxxxxx")])
    flags(ctx, d, 3, counted, BD.neg(may), "a change of the stack pointer")


def everything(ctx):
    targets(ctx)
    steps(ctx)
    figure(ctx)
