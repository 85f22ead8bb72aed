"""C10: exact fraction arithmetic."""
from common import *

BIN = [n + s for n in ("add", "sub", "mul", "div") for s in ("_rr", "_ri", "_ir", "eq_rr", "eq_ri")]
CMP = [n + s for n in ("eq", "ne", "lt", "gt", "le", "ge") for s in ("_rr", "_ri", "_ir")]
OTHER = "ctor2 ctor1 preinc predec postinc postdec ceil_q floor_q frac_q todouble num_q den_q".split()
UNITS = {"q": dict(cpp="rational.cpp", exports=BIN + CMP + OTHER, keep=["St3gcdI", "St3lcmI"])}
REPLAY = ["c10.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["std::gcd and std::lcm of libstdc++ meet their standard contract (common divisor with coprime quotients; common multiple)",
               "no intermediate result overflows (the property's own hypothesis)"]
BOUNDED = "int and int64 components, mixed component types, all small numerators and denominators"


class Ghost:
    """quotients and Bezout coefficients introduced by gcd and lcm"""

    def __init__(self, p):
        self.p, self.e = p, p.e
        self.memo, self.quot, self.coprime, self.pos = {}, [], [], []
        keep_contract(p, "St3gcdI", self.gcd)
        keep_contract(p, "St3lcmI", self.lcm)
        self.e.quot_hook = self.divide

    def divide(self, st, a, b):
        """exact quotient known from a contract"""
        for x, y, q in self.quot:
            if y == b:
                if x == a:
                    return q
                if x == -a:
                    return -q
                # a multiple of x
                if a.t and x.t:
                    for m, c in x.t.items():
                        for m2, c2 in a.t.items():
                            rest = list(m2)
                            try:
                                for z in m:
                                    rest.remove(z)
                            except ValueError:
                                continue
                            if c2 % c == 0:
                                f = Poly({tuple(rest): c2 // c}, "I")
                                if f * x == a:
                                    return f * q
                        break
        return None

    def gcd(self, e, st, args, ins):
        a, b = args
        k = ("gcd", a, b)
        if k not in self.memo:
            g, x, y, s, t = [fresh(n) for n in ("gcd", "gx", "gy", "bs", "bt")]
            self.memo[k] = (g, [g.ge(0), a.eq(g * x), b.eq(g * y), Or(g.ge(1), And(a.eq(0), b.eq(0))), Implies(g.ge(1), (s * x + t * y).eq(1)),
                                Implies(b.ge(1), And(y.ge(1), g.ge(1))), Implies(a.ge(1), And(x.ge(1), g.ge(1))), Implies(b.le(-1), And(y.le(-1), g.ge(1))), Implies(a.le(-1), And(x.le(-1), g.ge(1)))])
            self.quot += [(a, g, x), (b, g, y)]
            self.coprime.append((x, y, s, t))
            self.pos.append(g)
        g, fs = self.memo[k]
        for f in fs:
            st.assume(f)
        return [(st, "ret", g)]

    def lcm(self, e, st, args, ins):
        a, b = args
        e.require(st, And(a.ge(1), b.ge(1)), "%s:pre(lcm: both arguments positive)" % e.cur)
        k = ("lcm", a, b)
        if k not in self.memo:
            L, x, y = [fresh(n) for n in ("lcm", "lx", "ly")]
            self.memo[k] = (L, [L.ge(1), x.ge(1), y.ge(1), L.eq(a * x), L.eq(b * y)])
            self.quot += [(L, a, x), (L, b, y)]
            self.pos.append(L)
        L, fs = self.memo[k]
        for f in fs:
            st.assume(f)
        return [(st, "ret", L)]


def rat(p, nm):
    n, d = p.int(nm + "_num"), p.int(nm + "_den", 1)
    # class invariant: lowest terms
    s, t = fresh("bs"), fresh("bt")
    p.requires((s * n + t * d).eq(1))
    return p.struct(nm, [(0, I64, n), (8, I64, d)], 16), n, d, (s, t)


def eqs_of(pc):
    return [b.args[0] for b in pc if b.op == "eq" and b.args[0].sort == "I"]


def reduce_by(p, eqs):
    """rewrite with equations  v*w == rest  used left to right (each introduces a product of ghosts)"""
    return p


def exact(p, st, gh, n, d, N, D, what):
    """n/d is the fraction N/D"""
    goal = (n * D - N * d)
    # multiply by the ghosts that were divided out: each is positive
    scale = I(1)
    name = what
    if p.pv.prove(st.pc, goal.eq(0), 3000) == "proved":
        p.ensure(st, goal.eq(0), name)
        return
    g = goal
    for x in gh.pos:
        if p.pv.feasible(st.pc, (x.lt(1),)):
            continue
        g = g * x
    # substitute  ghost product -> defining expression, repeatedly (sound: equalities on the path)
    rules = []
    for k, (r, fs) in gh.memo.items():
        a, b = k[1], k[2]
        if k[0] == "gcd":
            q = [q for x, y, q in gh.quot if y == r]
            rules += [(r * q[0], a), (r * q[1], b)]
        else:
            rules += [(a * next(q for x, y, q in gh.quot if x == r and y == a), r), (b * next(q for x, y, q in reversed(gh.quot) if x == r and y == b), r)]
    for _ in range(12):
        h = g
        for l, r in rules:
            h = rewrite(h, l, r)
        if h == g:
            break
        g = h
    if not g.t:
        p.e.require(st, TRUE, "%s/ensures:%s" % (p.fn, name))
        return
    g = common_out(g)
    p.e.require(st, g.eq(0), "%s/ensures:%s" % (p.fn, name))


def common_out(g):
    return g


def rewrite(p, l, r):
    (lm, lc), = l.t.items()
    out = I(0)
    for m, c in p.t.items():
        rest = list(m)
        ok = True
        for z in lm:
            if z in rest:
                rest.remove(z)
            else:
                ok = False
                break
        t = Poly({tuple(rest): c}, "I") * r if ok else Poly({m: c}, "I")
        out = out + t
    return out


def lowest(p, st, gh, n, d, wit=()):
    p.ensure(st, d.ge(1), "denominator is positive")
    cands = [s * n + t * d for x, y, s, t in gh.coprime if (x == n or x == -n) and y == d or x == n]
    for x, y, s, t in gh.coprime:
        for a in (1, -1):
            for b in (1, -1):
                cands.append(s * n * a + t * d * b)
                cands.append(t * n * a + s * d * b)
    cands += [s * n + t * d for s, t in wit]
    for c in cands:
        if c == I(1) or p.pv.prove(st.pc, c.eq(1), 2000) == "proved":
            p.ensure(st, c.eq(1), "lowest terms (Bezout witness)")
            return
    p.e.require(st, FALSE, "%s/ensures:lowest terms" % p.fn)


def result(p, st, r):
    return p.e.read(st, r.obj, I(0), I64), p.e.read(st, r.obj, I(8), I64)


def binary(fn):
    op, kind = fn.replace("eq_", "_").split("_")

    def job(mod):
        p = Proof(mod, fn, budget=200)
        gh = Ghost(p)
        r = p.struct("r", [], 16)
        args, fr, wits = [r], [], []
        for nm, k in zip("ab", kind):
            if k == "r":
                v, n, d, w = rat(p, nm)
                fr.append((n, d))
                wits.append(w)
                args.append(v)
            else:
                v = p.int(nm)
                fr.append((v, I(1)))
                args.append(v)
        (n1, d1), (n2, d2) = fr
        if op == "div":
            p.requires(n2.ne(0))
        N, D = {"add": (n1 * d2 + n2 * d1, d1 * d2), "sub": (n1 * d2 - n2 * d1, d1 * d2), "mul": (n1 * n2, d1 * d2), "div": (n1 * d2, d1 * n2)}[op]

        def post(p, st, v):
            n, d = result(p, st, r)
            exact(p, st, gh, n, d, N, D, "exact value")
            lowest(p, st, gh, n, d)
        return p.run(args, post)
    return job


def compare(fn):
    op, kind = fn.split("_")

    def job(mod):
        p = Proof(mod, fn, budget=200)
        gh = Ghost(p)
        args, fr = [], []
        for nm, k in zip("ab", kind):
            if k == "r":
                v, n, d, w = rat(p, nm)
            else:
                v = n = p.int(nm)
                d = I(1)
            fr.append((n, d))
            args.append(v)
        (n1, d1), (n2, d2) = fr
        x, y = n1 * d2, n2 * d1
        spec = {"eq": x.eq(y), "ne": x.ne(y), "lt": x.lt(y), "gt": x.gt(y), "le": x.le(y), "ge": x.ge(y)}[op]

        def post(p, st, v):
            b = v if isinstance(v, B) else v.ne(0)
            # lemma: multiplying a comparison by a positive number keeps it
            for k, (L, fs) in gh.memo.items():
                if k[0] != "lcm":
                    continue
                qs = {}
                for a_, b_, q in gh.quot:
                    if a_ == L:
                        qs.setdefault(b_, q)
                pa, pb = qs[k[1]], qs[k[2]]
                for u, w in (((n1 * pa), (n2 * pb)), ((n1 * pb), (n2 * pa))):
                    c = d1 * d2
                    # c*u = (n1*d2)*L and c*w = (n2*d1)*L by the lcm contract
                    for uu, ww in ((u, w), (w, u)):
                        st.assume(Implies(And((c * uu).eq(x * L), (c * ww).eq(y * L)), And(Iff(uu.eq(ww), x.eq(y)), Iff(uu.lt(ww), x.lt(y)), Iff(ww.lt(uu), y.lt(x)))))
                st.assume((n1 * pa * d1 * d2).eq(n1 * d2 * L) if k[1] == d1 else TRUE)
                st.assume((n2 * pb * d1 * d2).eq(n2 * d1 * L) if k[2] == d2 else TRUE)
                st.assume((n1 * pb * d1 * d2).eq(n1 * d2 * L) if k[2] == d1 else TRUE)
                st.assume((n2 * pa * d1 * d2).eq(n2 * d1 * L) if k[1] == d2 else TRUE)
            p.ensure(st, Iff(b, spec), "comparison of the denoted fractions")
        return p.run(args, post)
    return job


def _del(m, a):
    m = list(m)
    m.remove(a)
    return m


def other(fn):
    def job(mod):
        p = Proof(mod, fn, budget=200)
        gh = Ghost(p)
        r = p.struct("r", [], 16)
        if fn == "ctor2":
            n, d = p.int("n"), p.int("d", 1)

            def post(p, st, v):
                x, y = result(p, st, r)
                exact(p, st, gh, x, y, n, d, "denotes n/d")
                lowest(p, st, gh, x, y)
            return p.run([r, n, d], post)
        if fn == "ctor1":
            n = p.int("n")

            def post(p, st, v):
                x, y = result(p, st, r)
                p.ensure(st, And(x.eq(n), y.eq(1)), "denotes n/1")
            return p.run([r, n], post)
        a, n, d, w = rat(p, "a")
        if fn in ("preinc", "predec", "postinc", "postdec"):
            s = 1 if fn.endswith("inc") else -1

            def post(p, st, v):
                x, y = result(p, st, r)
                x2, y2 = result(p, st, a)
                p.ensure(st, And(x2.eq(n + s * d), y2.eq(d)), "operand changes by one")
                p.ensure(st, And(x.eq(n + s * d if fn[:3] == "pre" else n), y.eq(d)), "value of the expression")
                p.ensure(st, (w[0] * x2 + (w[1] - s * w[0]) * y2).eq(1), "lowest terms (Bezout witness)")
            return p.run([r, a], post)
        if fn in ("ceil_q", "floor_q"):
            def post(p, st, v):
                if fn == "floor_q":
                    p.ensure(st, And((v * d).le(n), n.lt(v * d + d)), "floor")
                else:
                    p.ensure(st, And((v * d).ge(n), n.gt(v * d - d)), "ceil")
            return p.run([a], post)
        if fn == "frac_q":
            def post(p, st, v):
                x, y = result(p, st, r)
                lowest(p, st, gh, x, y, [w])
                for g in gh.pos:        # lemma: a positive factor keeps the sign
                    st.assume(Implies(g.ge(1), And(Iff((g * x).lt(0), x.lt(0)), Iff((g * x - g * y).lt(0), x.lt(y)))))
                p.ensure(st, And(x.ge(0), x.lt(y)), "frac lies in [0,1)")
                # the integer that was subtracted
                m = None
                for k in gh.memo:
                    rest = n - k[1]
                    (da,), = [list(d.t)[0]]
                    if all(da in mm for mm in rest.t):
                        m = Poly({tuple(_del(mm, da)): c for mm, c in rest.t.items()}, "I")
                if m is None:
                    p.e.require(st, FALSE, "%s/ensures:frac differs from the value by an integer" % p.fn)
                    return
                exact(p, st, gh, x, y, n - m * d, d, "frac differs from the value by an integer")
            return p.run([r, a], post)
        if fn == "todouble":
            return p.run([a], lambda p, st, v: p.ensure(st, v.eq(rdiv(to_real(n), to_real(d))), "quotient"))
        return p.run([a], lambda p, st, v: p.ensure(st, v.eq(n if fn == "num_q" else d), "component"))
    return job


def jobs(thorough):
    return [Job(f, "q", binary(f), 200) for f in BIN] + [Job(f, "q", compare(f), 200) for f in CMP] + [Job(f, "q", other(f), 200) for f in OTHER]
