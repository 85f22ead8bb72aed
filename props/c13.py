"""C13: interpolation and rational resampling."""
from common import *
from c12 import layout
import re
import time
from engine import Obligation
import sigops

OPS = {"plI": "+", "miI": "-", "mlI": "*", "dvI": "/", "gtI": ">", "ltI": "<", "leI": "<=", "geI": ">=", "eqI": "==", "neI": "!="}
KEEP_Q = ["re:^_ZNK?5dspbb(plI|miI|mlI|dvI|gtI|ltI|leI|geI|eqI|neI|5floorI|4ceilI|4fracI|8RationalIlEC2E|8RationalIlEpLE)"]
UNITS = {"i": dict(cpp="resample.cpp", exports="interp_into interp_new ilen_full ilen_central isuspend icutoff".split(), keep=["5dspbb10DotProductI"]),
         "s": dict(cpp="resample.cpp", exports=["dot_sample"], keep=["5dspbb10DotProductI"]),
         "r": dict(cpp="resample.cpp", exports="resample_into resample_new rlen_full rlen_central rdelay rsuspend rcutoff".split(), keep=["4impl16DotProductSampleI"] + KEEP_Q)}
REPLAY = ["c13.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["a fraction in lowest terms is determined by its value (the fraction operators, proved in C10, are used by value, exact rational arithmetic)",
               "the filter has at least one tap; the requested range lies inside the filtered signal (asserted by the code)",
               "multiplication by a positive number is monotone (supplied to the solver for the positions that occur)"]
BOUNDED = "float and complex elements; seamless continuation of blocks end to end (the suspension points are proved); rounding of the blend"


# ---------------------------------------------------------------- fractions by value
def qn(x):
    return app("qn", (x,), "I")


def qd(x):
    return app("qd", (x,), "I")


class Fractions:
    """a fraction in lowest terms is determined by its value: numerator qn(x), denominator qd(x) (operators proved in C10)"""

    def __init__(self, p):
        self.p, self.e = p, p.e
        for fn in p.mod.funcs:
            nm = fn[1:].strip('"')
            if re.match(KEEP_Q[0][3:], nm):
                p.e.contracts[nm] = lambda e, st, args, ins, nm=nm: self.call(nm, e, st, args)
        g = p.pv.fact_gens
        g["qd"] = lambda a: [poly_of(a).ge(1)]
        sign = lambda n, x: [Implies(x.gt(0), n.ge(1)), Implies(x.lt(0), n.le(-1)), Implies(x.eq(0), n.eq(0)), Implies(x.lt(1), n.lt(qd(x)))]
        g["qn"] = lambda a: sign(poly_of(a), a.args[1]) + [to_real(poly_of(a)).eq(a.args[1] * to_real(qd(a.args[1]))), qd(a.args[1]).ge(1)]
        g["floorq"] = lambda a: [to_real(poly_of(a)).le(a.args[1]), a.args[1].lt(to_real(poly_of(a)) + 1)]

    def value(self, n, d):
        a = atom_of(n)
        b = atom_of(d)
        if a is not None and b is not None and a.args[0] == "qn" and b.args[0] == "qd" and a.args[1] == b.args[1]:
            return a.args[1]
        if a is not None and b is not None and a.args[0] == "qd" and b.args[0] == "qn" and a.args[1] == b.args[1]:
            return rinv(a.args[1])
        if d == I(1):
            return to_real(n)
        return to_real(n) * rinv(to_real(d))

    def get(self, st, a):
        if isinstance(a, Ptr):
            return self.value(self.e.read(st, a.obj, a.off, I64), self.e.read(st, a.obj, a.off + 8, I64))
        return to_real(a)

    def put(self, st, p, x):
        self.e.write(st, p.obj, p.off, I64, qn(x))
        self.e.write(st, p.obj, p.off + 8, I64, qd(x))

    def struct(self, nm, x):
        return self.p.struct(nm, [(0, I64, qn(x)), (8, I64, qd(x))], 16)

    def call(self, n, e, st, args):
        m = re.match(r"_ZNK?5dspbb(?:(\w\wI)|(5floorI|4ceilI|4fracI)|8RationalIlE(C2E|pLE))", n)
        op, fl, mem = m.groups()
        if mem == "C2E":
            x = to_real(args[1])
            if len(args) > 2:
                e.require(st, args[2].ge(1), "%s:pre(fraction: the denominator is positive)" % e.cur)
                x = self.value(args[1], args[2])
            self.put(st, args[0], x)
            return [(st, "ret", None)]
        if mem == "pLE":
            self.put(st, args[0], self.get(st, args[0]) + self.get(st, args[1]))
            return [(st, "ret", args[0])]
        if fl:
            x = self.get(st, args[0]) if isinstance(args[0], Ptr) else self.value(args[0], args[1])
            f = app("floorq", (x,), "I")
            if fl == "5floorI":
                return [(st, "ret", f)]
            y = x - to_real(f)
            return [(st, "ret", [qn(y), qd(y)])]
        o = OPS[op]
        x, y = [self.get(st, a) for a in args]
        if o in "+-*/":
            if o == "/":
                e.require(st, y.ne(0), "%s:pre(fraction: division by zero)" % e.cur)
            z = x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x * rinv(y)
            return [(st, "ret", [qn(z), qd(z)])]
        return [(st, "ret", {">": x.gt(y), "<": x.lt(y), "<=": x.le(y), ">=": x.ge(y), "==": x.eq(y), "!=": x.ne(y)}[o])]


def atom_of(p):
    """the application a polynomial consists of"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c != 1 or len(m) != 1 or m[0].op != "app":
        return None
    return m[0]


# ---------------------------------------------------------------- the anti-imaging filter
def dot_contract(e, st, args, ins):
    """DotProduct(a, b) of equally long real views: the sum of the products (proved for C05)"""
    (x, nx), (y, ny) = [sigops.span(e, st, a, 8) for a in args]
    e.require(st, nx.eq(ny), "%s:pre(DotProduct: equal lengths)" % e.cur)
    if x.obj is None or y.obj is None:
        return [(st, "ret", R(0))]

    def body(k):
        s = st.fork()
        s.assume(And(k.ge(0), k.lt(nx)))
        return e.read(s, x.obj, x.off + 8 * k, F64) * e.read(s, y.obj, y.off + 8 * k, F64)
    return [(st, "ret", Sum(I(0), nx, body))]


class Filter:
    """polyphase filter of nf taps and n phases in the layout of C12"""

    def __init__(self, p):
        self.p = p
        self.na, self.nf, self.n = p.size("na"), p.size("nf"), p.size("n", 1)
        p.requires((self.na * self.n).le(1 << 36))
        self.off, self.len = layout(p, self.nf, self.n)
        r = imod(self.nf, self.n)
        self.off = lambda i: idiv(self.nf, self.n) * i + ite(r.lt(i), r, i)
        self.a, self.f = p.array("a", self.na), p.array("f", self.nf)

    def tap(self, ph, m):
        """where the tap ph + n m of the filter is stored"""
        return self.off(ph) + self.len(ph) - 1 - m

    def dot(self, q, ph):
        """sum over the inputs i of a[i] times the tap ph + n (q - i)"""
        lo = ite((q + 1 - self.len(ph)).ge(0), q + 1 - self.len(ph), I(0))
        hi = ite((q + 1).le(self.na), q + 1, self.na)
        return ite(lo.lt(hi), Sum(lo, hi, lambda i: app("a", (i,), "R") * app("f", (self.tap(ph, q - i),), "R")), R(0))

    def at(self, h):
        """sample h of the zero-stuffed signal convolved with the filter (times the number of phases, which the taps carry)"""
        return self.dot(idiv(h, self.n), imod(h, self.n))


def interpolate(fn, new):
    def job(mod):
        p = Proof(mod, fn, budget=200, label="Interpolate[%s]" % fn)
        keep_contract(p, "5dspbb10DotProductI", dot_contract)
        F = Filter(p)
        no, first = p.size("no"), p.size("first")
        p.requires(And(F.nf.ge(1), (first + no).le(full(F.na, F.nf, F.n))))
        spec = lambda j, s: F.at(first + j)

        def minv(li, ob, ent):
            if ob.kind != "heap" if new else ob is not o.obj:
                return []

            def cf(ctx):
                def f(rst, offb, ty):
                    j = offb.divides_exact(8)
                    return p.e.fresh_val(ty) if j is None or ty != F64 else spec(j, rst)
                return Content(ent, "fn", (I(0), 8 * ctx.k, f))
            return [cf]
        p.e.mem_inv = [minv]
        if new:
            from c12 import result_array
            r = p.struct("r", [], 24)
            return p.run([r, F.a, F.na, F.f, F.nf, F.n, first, no], lambda p, st, v: result_array(p, st, r, no, spec))
        r, o = p.struct("r", [], 16), p.array("o", no, readonly=False)

        def post(p, st, v):
            p.ensure_all(st, o, no, 8, spec, "sample of the zero-stuffed signal convolved with the filter")
            suspend(p, st, r, first + no, F.nf, F.n)
        return p.run([r, o, no, F.a, F.na, F.f, F.nf, F.n, first], post)
    return job


def suspend(p, st, r, nxt, nf, n):
    """continuing from the suspension point gives the next sample, from the first input that still matters"""
    i, s = p.e.read(st, r.obj, I(0), I64), p.e.read(st, r.obj, I(8), I64)
    p.ensure(st, (n * i + s).eq(nxt), "the next output keeps its position")
    p.ensure(st, And(i.ge(0), s.ge(0), Or(i.eq(0), s.ge(nf - 1))), "every input the next outputs need is kept")
    p.ensure(st, Or(i.eq(0), (s - n).lt(nf - 1)), "no more inputs than needed are kept")


def scalar(fn, want):
    def job(mod):
        p = Proof(mod, fn, budget=60)
        na, nf, n = p.size("na"), p.size("nf"), p.size("n", 1)
        p.requires((na * n).le(1 << 36))
        return p.run([na, nf, n] if fn != "icutoff" else [n], lambda p, st, v: p.ensure(st, want(v, na, nf, n), "value"))
    return job


def isuspend(mod):
    p = Proof(mod, "isuspend", budget=60)
    nxt, nf, n = p.size("next"), p.size("nf", 1), p.size("n", 1)
    r = p.struct("r", [], 16)
    return p.run([r, nxt, nf, n], lambda p, st, v: suspend(p, st, r, nxt, nf, n))


def rscalar(fn, args, want):
    """functions of the rate: want(value, rate, na, nf, n)"""
    def job(mod):
        p = Proof(mod, fn, budget=60)
        F = Filter(p)
        S = Rates(p, F, I(0))
        r = p.struct("r", [], 24)
        if fn == "rsuspend":
            return p.run([r, S.s, F.nf, F.n, S.r], lambda p, st, v: S.suspend(st, r, S.start))
        if fn == "rcutoff":
            c = to_real(qd(S.rate)) * rinv(to_real(qn(S.rate)))         # = 1 / rate
            p.requires(And(Iff(S.rate.le(1), c.ge(1)), (c * S.rate * rinv(to_real(F.n))).eq(rinv(to_real(F.n)))))
        a = dict(r=r, na=F.na, nf=F.nf, n=F.n, q=S.r)
        return p.run([a[x] for x in args.split()], lambda p, st, v: p.ensure(st, want(S.Q.get(st, r) if "r" in args.split() else v, S.rate, F.na, F.nf, F.n), "value"))
    return job


def length_of(v, rate, n, L):
    return v.eq(to_real(L) * rinv(rate) * rinv(to_real(n)))


def full(na, nf, n):
    """length of the full convolution of the zero-stuffed signal; nothing when there is no signal or no filter"""
    return ite(Or(na.eq(0), nf.eq(0)), I(0), na * n + nf - 1)


def central(na, nf, n):
    m = na * n
    return ite(Or(na.eq(0), nf.eq(0)), I(0), ite(m.ge(nf), m - nf + 1, nf - m + 1))


class Rates:
    """a resampling rate, a start point and the asserted relation between the output size and the input size"""

    def __init__(self, p, F, no):
        self.p, self.F, self.Q = p, F, Fractions(p)
        self.rate, self.start = p.real("rate"), p.real("start")
        self.r, self.s = self.Q.struct("rates", self.rate), self.Q.struct("startPoint", self.start)
        p.requires(And(self.rate.gt(0), self.start.ge(0), F.nf.ge(1)))
        L, n = to_real(F.na * F.n + F.nf - 1), to_real(F.n)
        # the last output lies inside the filtered signal (stated with and without division)
        p.requires(Implies(F.na.ge(1), And(((self.start + to_real(no)) * self.rate * n).le(L), (self.start + to_real(no)).le(L * rinv(self.rate) * rinv(n)))))
        p.requires(Implies(F.na.eq(0), And(self.start.eq(0), no.eq(0))))
        self.no, self.n = no, n
        base = p.pv.fact_gens["floorq"]
        p.pv.fact_gens["floorq"] = lambda a: base(a) + self.position(a)

    def split(self, j):
        """input sample, phase, and distance to the next phase, of output j"""
        x = (self.start + to_real(j)) * self.rate
        i = app("floorq", (x,), "I")
        y = (x - to_real(i)) * self.n
        ph = app("floorq", (y,), "I")
        return x, i, ph, y - to_real(ph)

    def suspend(self, st, r, nxt):
        """continuing from the suspension point gives the next sample, from the first input that still matters"""
        p, F = self.p, self.F
        i = p.e.read(st, r.obj, I(0), I64)
        s = self.Q.get(st, Ptr(r.obj, I(8)))
        reach = to_real(F.nf - 1) * rinv(self.n)
        st.assume(And(reach.ge(0), (nxt * self.rate).ge(0)))
        p.ensure(st, (to_real(i) + s * self.rate).eq(nxt * self.rate), "the next output keeps its position")
        p.ensure(st, And(i.ge(0), (s * self.rate).ge(0), Or(i.eq(0), (s * self.rate).ge(reach))), "every input the next outputs need is kept")
        p.ensure(st, Or(i.eq(0), (s * self.rate).lt(reach + 1)), "no more inputs than needed are kept")

    def position(self, a):
        """monotonicity of multiplication, for the positions that occur"""
        x, f = a.args[1], poly_of(a)
        ra, = self.rate.t
        out = []
        j = quotient(x - self.start * self.rate, ra[0])
        if j is not None and real_to_int_exact(j) is not None:
            F, n = self.F, self.n
            j = real_to_int_exact(j)
            out += [Implies(j.le(self.no - 1), (x * n + self.rate * n).le((self.start + to_real(self.no)) * self.rate * n)), (self.rate * n).gt(0),
                    Implies(j.ge(0), x.ge(0)), (to_real(f) * n).le(x * n), (x * n).lt(to_real(f) * n + n)]
            q = idiv(F.nf, F.n)
            for d in (f - F.na - q, f + 1 - F.na - q):
                out += [Implies(d.ge(1), to_real(d * F.n).ge(n)), Implies(d.ge(0), to_real(d * F.n).ge(0))]
            out.append(to_real(F.nf).eq(to_real(q * F.n) + to_real(imod(F.nf, F.n))))
        na, = self.n.t
        y = quotient(x, na[0])
        if y is not None and any(b.op == "app" and b.args[0] == "floorq" for b in y.atoms()):
            out += [Implies(And(y.ge(0), y.lt(1)), And(x.ge(0), x.lt(self.n)))]
        return out


def quotient(p, a):
    """p / a when every monomial contains the atom a"""
    out = {}
    for m, c in p.t.items():
        m = list(m)
        if a not in m:
            return None
        m.remove(a)
        out[tuple(m)] = c
    return T.Poly(out, p.sort)


def sample_contract(F):
    """DotProductSample(input, phase, q): see dot_sample; the result is the function dot of q and the place of the phase"""
    def h(e, st, args, ins):
        (x, nx), (y, ny) = [sigops.span(e, st, a, 8) for a in args[:2]]
        q = args[2]
        e.require(st, And(q.ge(0), (q + 1 - ny).le(nx)), "%s:pre(DotProductSample: the phase reaches the input)" % e.cur)
        e.require(st, And(nx.eq(F.na), T.bconst(x.obj in (None, F.a.obj) and y.obj in (None, F.f.obj))), "%s:pre(DotProductSample: the input and the filter)" % e.cur)
        if x.obj is not None:
            e.require(st, x.off.eq(0), "%s:pre(DotProductSample: the whole input)" % e.cur)
        return [(st, "ret", R(0) if y.obj is None else ite(ny.ge(1), app("dot", (q, idiv(y.off, 8), ny), "R"), R(0)))]
    return h


def dot_sample(mod):
    p = Proof(mod, "dot_sample", budget=100, label="DotProductSample")
    keep_contract(p, "5dspbb10DotProductI", dot_contract)
    na, nf, q = p.size("na"), p.size("nf"), p.size("q")
    p.requires((q + 1 - nf).le(na))
    a, f = p.array("a", na), p.array("f", nf)
    lo = ite((q + 1 - nf).ge(0), q + 1 - nf, I(0))
    hi = ite((q + 1).le(na), q + 1, na)
    want = ite(lo.lt(hi), Sum(lo, hi, lambda i: app("a", (i,), "R") * app("f", (nf - 1 - q + i,), "R")), R(0))
    return p.run([a, na, f, nf, q], lambda p, st, v: p.ensure(st, v.eq(want), "sum over the inputs i of a[i] f[last - (q - i)]"))


def resample(fn, new):
    def job(mod):
        p = Proof(mod, fn, budget=200, label="Resample[%s]" % fn)
        F, no = Filter(p), p.size("no")
        keep_contract(p, "4impl16DotProductSampleI", sample_contract(F))
        dot = lambda i, ph: ite(F.len(ph).ge(1), app("dot", (i, F.off(ph), F.len(ph)), "R"), R(0))
        S = Rates(p, F, no)

        def spec(j, s=None):
            x, i, ph, t = S.split(j)
            nx = imod(ph + 1, F.n)
            w = to_real(qn(t)) * rinv(to_real(qd(t)))       # = t
            return dot(i, ph) * (1 - w) + dot(i + ite(nx.eq(0), I(1), I(0)), nx) * w

        def minv(li, ob, ent):
            if ob.kind == "heap" if new else ob is o.obj:
                def cf(ctx):
                    def f(rst, offb, ty):
                        j = offb.divides_exact(8)
                        return p.e.fresh_val(ty) if j is None or ty != F64 else spec(j, rst)
                    return Content(ent, "fn", (I(0), 8 * ctx.k, f))
                return [cf]
            if ob.kind == "alloca" and ob.size == I(16):
                v = p.e.read(p.st, ob, I(0), I64, content=ent)
                if not isinstance(v, Poly) or atom_of(v) is None or atom_of(v).args[0] != "qn":
                    return []

                def cf(ctx):
                    def f(rst, offb, ty):
                        x = S.start + to_real(ctx.k)
                        if ty != I64:
                            return p.e.fresh_val(ty)
                        return qn(x) if offb == I(0) else qd(x) if offb == I(8) else ite(offb.eq(0), qn(x), qd(x))
                    return Content(ent, "fn", (I(0), I(16), f))
                return [cf]
            return []
        p.e.mem_inv = [minv]
        if new:
            from c12 import result_array
            r = p.struct("r", [], 24)
            return p.run([r, F.a, F.na, F.f, F.nf, F.n, S.r, S.s, no], lambda p, st, v: result_array(p, st, r, no, spec))
        r, o = p.struct("r", [], 24), p.array("o", no, readonly=False)

        def post(p, st, v):
            p.ensure_all(st, o, no, 8, spec, "linear blend of the two nearest interpolated samples at the exact position")
            S.suspend(st, r, S.start + to_real(no))
        return p.run([r, o, no, F.a, F.na, F.f, F.nf, F.n, S.r, S.s], post)
    return job


def lemma(mod):
    """the tap k = h - n i of the filter lies in phase h mod n at place (h div n) - i, and exists exactly when that place does:
    the sum of Filter.dot is the sample h of the zero-stuffed signal convolved with the filter"""
    import z3
    p = Proof(mod, "interp_into", label="zero-stuffed convolution, phase by phase")
    n, ph, q, i, Q, r = z3.Ints("n ph q i Q r")     # h = q n + ph, nf = Q n + r
    m, h, nf = q - i, q * n + ph, Q * n + r
    k = h - n * i
    base = [n >= 1, ph >= 0, ph < n, r >= 0, r < n, Q >= 0]
    mono = [z3.Implies(x >= 1, x * n >= n) for x in (m, m - Q)] + [z3.Implies(x <= -1, x * n <= -n) for x in (m, m - Q)]
    length = Q + z3.If(ph < r, 1, 0)
    for name, hyp, goal in [("monotonicity", base, z3.And(*mono)),
                            ("the tap exists exactly when its place in the phase does", base + mono, z3.And(k >= 0, k < nf) == z3.And(m >= 0, m < length)),
                            ("the place holds that tap", base + mono, ph + n * m == k)]:
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        p.e.obls.append(Obligation("lemma(interpolation)/" + name, "proved" if s.check() == z3.unsat else "failed", "", time.time() - t))
    p.secs = time.time() - p.t0
    return p


def jobs(thorough):
    return [Job("interp_into", "i", interpolate("interp_into", False)), Job("interp_new", "i", interpolate("interp_new", True)),
            Job("ilen_full", "i", scalar("ilen_full", lambda v, na, nf, n: v.eq(full(na, nf, n)))),
            Job("ilen_central", "i", scalar("ilen_central", lambda v, na, nf, n: v.eq(central(na, nf, n)))),
            Job("icutoff", "i", scalar("icutoff", lambda v, na, nf, n: v.eq(rinv(to_real(n))))), Job("isuspend", "i", isuspend), Job("lemma", "i", lemma),
            Job("dot_sample", "s", dot_sample), Job("resample_into", "r", resample("resample_into", False)), Job("resample_new", "r", resample("resample_new", True)),
            Job("rsuspend", "r", rscalar("rsuspend", "", None)),
            Job("rlen_full", "r", rscalar("rlen_full", "r na nf n q", lambda v, r, na, nf, n: length_of(v, r, n, full(na, nf, n)))),
            Job("rlen_central", "r", rscalar("rlen_central", "r na nf n q", lambda v, r, na, nf, n: length_of(v, r, n, central(na, nf, n)))),
            Job("rdelay", "r", rscalar("rdelay", "r nf n q", lambda v, r, na, nf, n: v.eq(to_real(nf - 1) * rinv(2 * to_real(n)) * rinv(r)))),
            Job("rcutoff", "r", rscalar("rcutoff", "q n", lambda v, r, na, nf, n: And(Implies(r.le(1), v.eq(rinv(to_real(n)))), Implies(r.gt(1), (v * r).eq(rinv(to_real(n)))))))]
