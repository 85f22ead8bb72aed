"""C09: recursive filters."""
import time
from common import *
from engine import Obligation
import sigops

RUN = "filter filter_in_place filter_sig filter_new feed".split()
FORMS = RUN + "make default setorder reset order".split()
KINDS = ("df1", "df2", "cas")
UNITS = {k: dict(cpp="iir.cpp", exports=["%s_%s" % (k, f) for f in FORMS]) for k in KINDS}
UNITS.update({k + "2": dict(cpp="iir.cpp", exports=[k + "_two"], keep=["5dspbb6FilterI"]) for k in KINDS})
REPLAY = [("c09.cpp", ["-DPART%d" % k]) for k in (1, 2)]
LEVEL = "proof"
ASSUMPTIONS = ["the denominator is not empty; the numerator is not longer than the state (asserted by the code)",
               "the sequences x, y, w, signal are the unique solutions of their defining recurrences (their values before time zero are the state)",
               "numerators shorter than the denominator are aligned at the newest sample, as the code does"]
BOUNDED = "float and complex samples; agreement of the three forms with each other and with the transfer function, to rounding; streams cut in more than two blocks (the contract of one call composes)"


def seq(name):
    """a sequence over all (also negative) times"""
    return lambda t: app(name, (t,), "R")


def window(p, name, n, f):
    """an array of n numbers holding f(0), .., f(n-1)"""
    a = p.array(name, n, readonly=False)

    def base(off, ty):
        j = off.divides_exact(8)
        return p.e.fresh_val(ty) if j is None or ty != F64 else f(j)
    p.st.mem[a.obj] = Content(None, "base", base)
    return a


def vector(q, n, w=8):
    return [(0, PTR, q), (8, PTR, Ptr(q.obj, w * n)), (16, PTR, Ptr(q.obj, w * n))]


def shifted(fields, d):
    return [(o + d, t, v) for o, t, v in fields]


def stepwise(p, bounds):
    """loop candidates: memory after k samples.  bounds: object -> (size, f(k, j, old, now)); now is the sample
    the current iteration computes, where the sequences are unfolded to their definition"""
    def minv(li, ob, ent):
        key = ob if ob in bounds else "new" if ob.kind != "arg" else None
        if key not in bounds:
            return []
        size, f = bounds[key]

        def cf(ctx):
            k = ctx.k
            now = ctx.run.k if ctx.vals is not None and k == ctx.run.k + 1 else None

            def g(rst, offb, ty):
                j = offb.divides_exact(8)
                return p.e.fresh_val(ty) if j is None or ty != F64 else f(k, j, lambda i: p.e.read(rst, ob, 8 * i, F64, content=ent), now)
            return Content(ent, "fn", (I(0), 8 * size, g))
        return [cf]
    p.e.mem_inv = [minv]


def transfer(p):
    na, nb = p.size("na", 1), p.size("nb")
    a, b = p.array("a", na), p.array("b", nb)
    f = p.struct("sys", vector(b, nb) + shifted(vector(a, na), 24), 48)
    A, B = seq("a"), seq("b")
    return na, nb, A, B, f


def difference(p, X, name, na, nb, A, B):
    """defines the output sequence for times from zero on: a[last] y(t) = sum b x - sum a y"""
    Y = seq(name)

    def rhs(t):
        return (Sum(I(0), nb, lambda k: B(k) * X(t + k - nb + 1)) - Sum(I(0), na - 1, lambda k: A(k) * Y(t + k - na + 1))) * rinv(A(na - 1))

    return lambda t, now=None: Y(t) if now is None else ite(t.eq(now), rhs(now), Y(t))


def setup(p, fn, n, X):
    """input and output arguments for the call form; returns the arguments before the system and the output pointer"""
    if fn == "feed":
        return None, None, window(p, "in", 1, X)
    if fn == "filter_in_place":
        o = window(p, "io", n, X)
        return o, o, None
    o = p.array("o", n, readonly=False) if fn != "filter_new" else None
    return o, window(p, "in", n, X), None


def arguments(p, fn, n, o, a, f, s):
    V = lambda q, nm: p.struct(nm, vector(q, n), 24)
    if fn == "filter":
        return [o, n, a, f, s]
    if fn == "filter_in_place":
        return [o, n, f, s]
    if fn == "filter_sig":
        return [V(o, "so"), V(a, "sa"), f, s]
    if fn == "filter_new":
        return [p.struct("r", [], 24), V(a, "sa"), f, s]
    return [s, a, f]


def output(p, st, fn, n, o, args, r, value, what):
    """the output of every call form"""
    if fn == "feed":
        # without a loop cut the sample has to be unfolded here
        now = None if p.pv.prove(st.pc, r.eq(value(I(0)))) == "proved" else I(0)
        p.ensure(st, r.eq(value(I(0), now)), what)
        return now
    if fn == "filter_new":
        b, e_ = p.e.read(st, args[0].obj, I(0), PTR), p.e.read(st, args[0].obj, I(8), PTR)
        p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * n)), "size of the result")
        o = b
    if o.obj is not None:
        p.ensure_all(st, o, n, 8, lambda j, s_: value(j), what)


def df1(fn):
    def job(mod):
        p = Proof(mod, "df1_" + fn, budget=200)
        n = I(1) if fn == "feed" else p.size("n")
        na, nb, A, B, f = transfer(p)
        N = p.size("N")
        p.requires(And(N.ge(na - 1), N.ge(nb - 1)))
        X = seq("x")
        Y = difference(p, X, "Y", na, nb, A, B)
        rec, fwd = window(p, "rec", N, lambda j: Y(j - N)), window(p, "fwd", N + 1, lambda j: X(j - N - 1))
        s = p.struct("state", vector(rec, N) + shifted(vector(fwd, N + 1), 24), 48)
        o, a, x = setup(p, fn, n, X)
        b = {rec.obj: (N, lambda k, j, old, now: Y(k + j - N, now)), fwd.obj: (N + 1, lambda k, j, old, now: X(k + j - N - 1))}
        b[o.obj if o is not None else "new"] = (n, lambda k, j, old, now: ite(j.lt(k), Y(j, now), old(j)))
        stepwise(p, b)

        args = arguments(p, fn, n, o, a or x, f, s)

        def post(p, st, r):
            now = output(p, st, fn, n, o, args, r, Y, "every output sample satisfies the difference equation")
            p.ensure_all(st, rec, N, 8, lambda j, s_: Y(n + j - N, now), "the state holds the most recent outputs")
            p.ensure_all(st, fwd, N + 1, 8, lambda j, s_: X(n + j - N - 1), "the state holds the most recent inputs")
        return p.run(args, post)
    return job


def df2(fn):
    def job(mod):
        p = Proof(mod, "df2_" + fn, budget=200)
        n = I(1) if fn == "feed" else p.size("n")
        na, nb, A, B, f = transfer(p)
        N = p.size("N")
        p.requires(And(N.ge(na - 1), N.ge(nb - 1)))
        X, W = seq("x"), seq("W")
        # the auxiliary sequence: sum of a w = x; the output: sum of b w
        rhs = lambda t: (X(t) - Sum(I(0), na - 1, lambda k: A(k) * W(t + k - na + 1))) * rinv(A(na - 1))
        w = lambda t, now=None: W(t) if now is None else ite(t.eq(now), rhs(now), W(t))

        def Y(t, now=None):
            if now is None:
                return Sum(I(0), nb, lambda k: B(k) * W(t + k - nb + 1))
            return ite(t.eq(now), Sum(I(0), nb - 1, lambda k: B(k) * W(now + k - nb + 1)) + ite(nb.ge(1), B(nb - 1) * rhs(now), R(0)), Y(t))
        q = window(p, "w", N + 1, lambda j: W(j - N - 1))
        s = p.struct("state", vector(q, N + 1), 24)
        o, a, x = setup(p, fn, n, X)
        stepwise(p, {q.obj: (N + 1, lambda k, j, old, now: w(k + j - N - 1, now)),
                     o.obj if o is not None else "new": (n, lambda k, j, old, now: ite(j.lt(k), Y(j, now), old(j)))})
        args = arguments(p, fn, n, o, a or x, f, s)

        def post(p, st, r):
            now = output(p, st, fn, n, o, args, r, Y, "every output sample is the combination of the auxiliary sequence")
            p.ensure_all(st, q, N + 1, 8, lambda j, s_: w(n + j - N - 1, now), "the state holds the most recent auxiliary values")
        return p.run(args, post)
    return job


def cascade(fn):
    def job(mod):
        p = Proof(mod, "cas_" + fn, budget=200)
        n = I(1) if fn == "feed" else p.size("n")
        S, N = p.size("sections"), p.size("N", 1)
        p.requires(N.ge(S + 1))
        X = seq("x")
        # signal(i, t): the input of section i; signal(0, .) the input of the filter, signal(S, .) its output
        sig = lambda i, t: app("signal", (i, t), "R")
        co = lambda i, r: app("c", (6 * i + r,), "R")
        f = p.struct("sys", [(o, ty, v) for o, ty, v in vector(p.array("c", 6 * S), 6 * S)], 24)
        unfold = {}

        def facts(at):
            i, t = at.args[1], at.args[2]
            out = [Implies(i.eq(0), poly_of(at).eq(X(t)))]
            if (i, t) in unfold:
                h = i - 1
                out.append(Implies(And(h.ge(0), h.lt(S)), poly_of(at).eq(sum((co(h, q) * sig(h, t - 2 + q) for q in range(3)), R(0)) - co(h, 3) * sig(i, t - 2) - co(h, 4) * sig(i, t - 1))))
                # the sections of the state past the last section of the system only carry the output
                out.append(Implies(h.ge(S), poly_of(at).eq(sig(h, t))))
            return out
        p.pv.fact_gens["signal"] = facts
        cell = lambda j, k: sig(idiv(j, 3), k + imod(j, 3) - 3)
        q = window(p, "q", 3 * N, lambda j: cell(j, I(0)))
        q.obj.lanes = 3
        s = p.struct("state", vector(q, 3 * N), 24)
        o, a, x = setup(p, fn, n, X)
        times = []

        def time_of(ent, st):
            """the sample an inner loop works on, from the content of the first section"""
            v = p.e.read(st, q.obj, I(16), F64, content=ent)
            for at in v.atoms() if isinstance(v, Poly) else ():
                if at.op == "app" and at.args[0] == "signal":
                    return at.args[2] + 1

        stepwise(p, {q.obj: (3 * N, lambda k, j, old, now: cell(j, k)),
                     o.obj if o is not None else "new": (n, lambda k, j, old, now: ite(j.lt(k), sig(N, j), old(j)))})
        outer = p.e.mem_inv[0]

        def minv(li, ob, ent):
            out = outer(li, ob, ent)
            if ob is q.obj:
                t = time_of(ent, p.st)
                if t is not None:
                    def cf(ctx):
                        g = lambda rst, offb, ty: p.e.fresh_val(ty) if offb.divides_exact(8) is None else cell(offb.divides_exact(8), t + 1)
                        return Content(ent, "fn", (I(0), 24 * ctx.k, g))
                    out.insert(0, cf)
                    times[:] = [t]
            return out
        p.e.mem_inv = [minv]

        def cands(li):
            out = []
            for nm, i0, h in li.ints():
                for v in li.hdr.values():
                    if isinstance(v, Poly) and v.sort == "R":
                        for t in times or [I(0)]:
                            unfold[(h + 1, t)] = True
                            out.append(v.eq(sig(h, t)))
            return out
        p.e.joint_cands = [cands]
        args = arguments(p, fn, n, o, a or x, f, s)

        def post(p, st, r):
            output(p, st, fn, n, o, args, r, lambda t, now=None: sig(N, t), "every output sample is the output of the last section")
            p.ensure_all(st, q, N, 24, lambda j, s_: sig(j, n - 3), "the state holds the signals between the sections")
            p.ensure_all(st, Ptr(q.obj, 8), N, 24, lambda j, s_: sig(j, n - 2), "the state holds the signals between the sections")
            p.ensure_all(st, Ptr(q.obj, 16), N, 24, lambda j, s_: sig(j, n - 1), "the state holds the signals between the sections")
        return p.run(args, post)
    return job


def blank(kind, n):
    """what a state of the given order consists of: (offset of the vector in the state, length in numbers)"""
    if kind == "df1":
        return [(0, n), (24, n + 1)]
    if kind == "df2":
        return [(0, n + 1)]
    return [(0, 3 * (1 + idiv(n + 1, 2)))]


def rounded(kind, n):
    """the cascade has whole second-order sections"""
    return 2 * idiv(n + 1, 2) if kind == "cas" else n


def at_rest(p, st, s, kind, n):
    for off, ln in blank(kind, n):
        b, e_ = p.e.read(st, s.obj, I(off), PTR), p.e.read(st, s.obj, I(off + 8), PTR)
        p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * ln)), "size of the state")
        if b.obj is not None:
            w = 3 if kind == "cas" else 1
            for q in range(w):
                p.ensure_all(st, Ptr(b.obj, b.off + 8 * q), idiv(ln, w), 8 * w, lambda j, s_: R(0), "the state is at rest")


def zeroed(p):
    """loop candidate: k new sections are zero"""
    def minv(li, ob, ent):
        if ob.kind == "arg":
            return []
        out = []
        for nm, i0, h in li.ints():
            if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob:
                def cf(ctx, h=h, i0=i0):
                    return Content(ent, "fn", (i0, ctx.of(h), lambda rst, offb, ty: I(0) if ty[0] == "i" else R(0)))
                out.append(cf)
        return out
    p.e.mem_inv = [minv]


def states(kind, fn):
    """construction, change of order, reset, order"""
    def job(mod):
        p = Proof(mod, "%s_%s" % (kind, fn), budget=60)
        zeroed(p)
        n = p.size("n")
        size = 48 if kind == "df1" else 24
        if fn == "make":
            s = p.struct("state", [], size)
            return p.run([s, n], lambda p, st, r: at_rest(p, st, s, kind, n))
        null = [(o, PTR, Ptr(None, I(0))) for o in range(0, size, 8)]
        if fn == "default":
            s = p.struct("state", [], size)
            return p.run([s], lambda p, st, r: [p.ensure(st, T.bconst(p.e.read(st, s.obj, I(o), PTR).obj is None), "no state") for o in range(0, size, 8)])
        if fn == "setorder":
            s = p.struct("state", null, size)
            return p.run([s, n], lambda p, st, r: at_rest(p, st, s, kind, n))
        fs, arrs = [], []
        for off, ln in blank(kind, n):
            a = p.array("q%d" % off, ln, readonly=False)
            a.obj.lanes = 3 if kind == "cas" else 1
            fs += shifted(vector(a, ln), off)
        s = p.struct("state", fs, size)
        if fn == "reset":
            return p.run([s], lambda p, st, r: at_rest(p, st, s, kind, n))
        return p.run([s], lambda p, st, r: p.ensure(st, r.eq(rounded(kind, n)), "the order given at construction"))
    return job


def reorder(kind):
    """a state of order m set to order n: reset, then filtered from rest"""
    def job(mod):
        p = Proof(mod, kind + "_setorder", budget=60, label=kind + "_setorder[existing]")
        zeroed(p)
        n, m = p.size("n"), p.size("m")
        size = 48 if kind == "df1" else 24
        fs = []
        for off, ln in blank(kind, m):
            a = p.array("q%d" % off, ln, readonly=False)
            a.obj.lanes = 3 if kind == "cas" else 1
            fs += shifted(vector(a, ln), off)
        s = p.struct("state", fs, size)

        def post(p, st, r):
            for (off, ln), (_, lm) in zip(blank(kind, n), blank(kind, m)):
                b, e_ = p.e.read(st, s.obj, I(off), PTR), p.e.read(st, s.obj, I(off + 8), PTR)
                p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * ln)), "size of the state")
                w = 3 if kind == "cas" else 1
                for q in range(w):
                    p.ensure_all(st, Ptr(b.obj, b.off + 8 * q), idiv(ln, w), 8 * w, lambda j, s_: ite((w * j + q).lt(lm), app("q%d" % off, (w * j + q,), "R"), R(0)), "kept and fresh history")
        return p.run([s, n], post)
    return job


def two(kind):
    """filtering two blocks in turn continues the same sequences"""
    def job(mod):
        p = Proof(mod, kind + "_two", budget=120)
        n, m = p.size("n"), p.size("m")
        N = p.size("N")
        X = seq("x")
        sig = lambda i, t: app("signal", (i, t), "R")
        Y = (lambda t: sig(N, t)) if kind == "cas" else seq("Y")
        # state after the samples before t, as the contracts of the single call state it
        hist = {"df1": [(0, N, lambda j, t: seq("Y")(t + j - N)), (24, N + 1, lambda j, t: X(t + j - N - 1))],
                "df2": [(0, N + 1, lambda j, t: seq("W")(t + j - N - 1))],
                "cas": [(0, 3 * N, lambda j, t: sig(idiv(j, 3), t + imod(j, 3) - 3))]}[kind]
        fs, arrs = [], []
        for off, ln, h in hist:
            a = window(p, "q%d" % off, ln, lambda j, h=h: h(j, I(0)))
            fs += shifted(vector(a, ln), off)
            arrs.append(a)
        s = p.struct("state", fs, 48 if kind == "df1" else 24)
        f = p.struct("sys", [], 48)
        def contract(e, st, args, ins):
            """Filter(out, in, system, state): if the state holds the history of the sequences up to time t and the input
            continues x from t, the output continues y from t and the state holds the history up to t + n (proved above;
            the sequences are any that satisfy the defining equations, so they are the same in both calls)"""
            (po, no), (pa, n_) = sigops.span(e, st, args[0], 8), sigops.span(e, st, args[1], 8)
            t = I(0) if pa.obj is a.obj else n
            e.require(st, no.eq(n_), "%s:pre(Filter: sizes)" % e.cur)
            j = fresh("j")
            if pa.obj is not None:
                s1 = st.fork()
                s1.assume(And(j.ge(0), j.lt(n_)))
                e.require(s1, e.read(s1, pa.obj, pa.off + 8 * j, F64).eq(X(t + j)), "%s:pre(Filter: the input continues the stream)" % e.cur)
            for x, (off, ln, h) in zip(arrs, hist):
                s1 = st.fork()
                s1.assume(And(j.ge(0), j.lt(ln)))
                e.require(s1, e.read(s1, x.obj, 8 * j, F64).eq(h(j, t)), "%s:pre(Filter: the state holds the history)" % e.cur)
                sigops.overwrite(e, st, x, ln, 8, 1, lambda j, q, old, h=h: h(j, t + n_))
            if po.obj is not None:
                sigops.overwrite(e, st, po, no, 8, 1, lambda j, q, old: Y(t + j))
            return [(st, "ret", None)]
        for fn in mod.funcs:
            g = fn[1:].strip('"')
            if "5dspbb6FilterI" in g:
                p.e.contracts[g] = contract
        o, q = p.array("o", n, readonly=False), p.array("q", m, readonly=False)
        a, b = window(p, "a", n, X), window(p, "b", m, lambda j: X(n + j))

        def post(p, st, r):
            p.ensure_all(st, o, n, 8, lambda j, s_: Y(j), "first block")
            p.ensure_all(st, q, m, 8, lambda j, s_: Y(n + j), "the second block continues the output of one call")
            for x, (off, ln, h) in zip(arrs, hist):
                p.ensure_all(st, x, ln, 8, lambda j, s_: h(j, n + m), "the state is that of one call")
        return p.run([o, n, a, q, m, b, f, s], post)
    return job


def lemma(mod):
    """Direct form II satisfies the difference equation.  With sum_k a(k) w(t+k-na+1) = x(t) for every t (from rest: w and x are
    zero before time zero) and y(t) = sum_l b(l) w(t+l-nb+1), for every t
        sum_k a(k) y(t+k-na+1) = sum_l b(l) x(t+l-nb+1).
    Both sides are the double sum of a(k) b(l) w(t+k+l-c), taken in either order: induction over the two lengths"""
    import z3
    p = Proof(mod, "df2_order", label="direct form II satisfies the difference equation")
    Z, Rl = z3.IntSort(), z3.RealSort()
    a, b, w = [z3.Function(n, Z, Rl) for n in "abw"]
    U, V, P, Q = [z3.Function(n, Z, Z, Rl) for n in "UVPQ"]
    n, m, d = z3.Ints("n m d")
    # U(k,m) = sum_{l<m} b(l) w(k+l+d); V(l,n) = sum_{k<n} a(k) w(k+l+d); P(n,m) = sum_{k<n} a(k) U(k,m); Q(n,m) = sum_{l<m} b(l) V(l,n)
    u = lambda k, m: U(k, m + 1) == U(k, m) + b(m) * w(k + m + d)
    v = lambda l, n: V(l, n + 1) == V(l, n) + a(n) * w(n + l + d)
    pp = lambda n, m: P(n + 1, m) == P(n, m) + a(n) * U(n, m)
    q = lambda n, m: Q(n, m + 1) == Q(n, m) + b(m) * V(m, n)
    steps = [("no terms: Q(0,0) = 0", [Q(0, 0) == 0], Q(0, 0) == 0),
             ("no rows: Q(0,m) = 0 steps to m+1", [q(0, m), V(m, 0) == 0, Q(0, m) == 0], Q(0, m + 1) == 0),
             ("a row of no terms: Q(n+1,0) = Q(n,0) + a(n) U(n,0)", [Q(n + 1, 0) == 0, Q(n, 0) == 0, U(n, 0) == 0], Q(n + 1, 0) == Q(n, 0) + a(n) * U(n, 0)),
             ("adding a row: Q(n+1,m) = Q(n,m) + a(n) U(n,m) steps to m+1", [q(n + 1, m), q(n, m), v(m, n), u(n, m), Q(n + 1, m) == Q(n, m) + a(n) * U(n, m)], Q(n + 1, m + 1) == Q(n, m + 1) + a(n) * U(n, m + 1)),
             ("exchange: P(n,m) = Q(n,m) steps to n+1", [pp(n, m), Q(n + 1, m) == Q(n, m) + a(n) * U(n, m), P(n, m) == Q(n, m)], P(n + 1, m) == Q(n + 1, m))]
    for name, hyp, goal in steps:
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        p.e.obls.append(Obligation("lemma(df2)/" + name, "proved" if s.check() == z3.unsat else "failed", "", time.time() - t))
    p.secs = time.time() - p.t0
    return p


def jobs(thorough):
    J = [Job("%s_%s" % (k, f), k, fn(f)) for k, fn in (("df1", df1), ("df2", df2), ("cas", cascade)) for f in RUN]
    J += [Job("%s_%s" % (k, f), k, states(k, f)) for k in KINDS for f in ("make", "default", "setorder", "reset", "order")]
    J += [Job("%s_setorder[existing]" % k, k, reorder(k)) for k in KINDS]
    J.append(Job("lemma(df2)", "df2", lemma))
    return J + [Job(k + "_two", k + "2", two(k)) for k in KINDS]
