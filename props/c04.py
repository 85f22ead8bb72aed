"""C04: moments, deviations, covariance, correlation."""
from fractions import Fraction
from common import *
import c02

KEEP = ["N5xsimd3powI", "5dspbb4MeanI"]
KEEP2 = KEEP + ["5dspbb13CentralMomentI", "5dspbb10CovarianceI"]
KERNEL = "CentralMoment_mean CentralMoment Covariance_mean Covariance".split()
ONES = "Variance StandardDeviation Skewness Kurtosis CorrectedVariance CorrectedStandardDeviation CorrectedSkewness CorrectedKurtosis CentralMoment StandardizedMoment".split()
MEANS = "Variance StandardDeviation Skewness Kurtosis CentralMoment StandardizedMoment Covariance".split()
TWOS = "Covariance CorrectedCovariance Correlation".split()


def _exp(s):
    return ["%s_%s" % (x, s) for x in ONES + TWOS] + ["%s_mean_%s" % (x, s) for x in MEANS]


UNITS = {}
for _s, _d in (("d", "-DA_D"), ("f", "-DA_F")):
    UNITS["k" + _s] = dict(cpp="stats.cpp", exports=["%s_%s" % (x, _s) for x in KERNEL], defines=[_d], keep=KEEP)
    UNITS[_s] = dict(cpp="stats.cpp", exports=[x for x in _exp(_s) if x[:-2] not in KERNEL], defines=[_d], keep=KEEP2)
REPLAY = ["c04.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["xsimd::pow equals std::pow in every lane; pow(|d|,k-1) is the (k-1)th power (moments of order five and above)"]
BOUNDED = "float, mixed orders, containers; powers of order >= 5 compared with repeated multiplication"

A, B = el("a"), el("b")
m_pow = lambda x, y: app("m_pow", (x, y), "R")
m_sqrt = lambda x: app("m_sqrt", (x,), "R")


def mean(f, n):
    """the mean of the whole array: the postcondition of Mean, proved in job Mean_* (and C03)"""
    return app("mean_of_" + ("a" if f is A else "b"), (n,), "R")


def whole(e, st, v, w, what):
    lo, hi = e.read(st, v.obj, v.off, PTR), e.read(st, v.obj, v.off + 8, PTR)
    if not (isinstance(lo, Ptr) and isinstance(hi, Ptr) and lo.obj is hi.obj and lo.obj is not None):
        raise Unsupported("%s of an unknown range" % what)
    e.require(st, And(lo.off.eq(0), hi.off.eq(w * ivar("n"))), "%s:pre(%s: the range is the whole array %s)" % (e.cur, what, lo.obj.name))
    return lo.obj.name


def mean_contract(w):
    return lambda e, st, args, ins: [(st, "ret", app("mean_of_" + whole(e, st, args[0], w, "Mean"), (ivar("n"),), "R"))]


def cm(f, k, mu):
    """central moment: the postcondition of CentralMoment, proved in jobs CentralMoment*"""
    return app("moment_of_" + ("a" if f is A else "b"), (I(k), mu), "R")


def moment_contract(w):
    def h(e, st, args, ins):
        nm = whole(e, st, args[0], w, "CentralMoment")
        f = {"a": A, "b": B}[nm]
        mu = args[2] if len(args) > 2 else mean(f, ivar("n"))
        e.require(st, args[1].ge(2), "%s:pre(CentralMoment: order at least two)" % e.cur)
        return [(st, "ret", cm(f, args[1], mu))]
    return h


def covar(x, y, mx, my):
    return app("covariance_of_%s_%s" % (x, y), (mx, my), "R")


def covariance_contract(w):
    def h(e, st, args, ins):
        x, y = [whole(e, st, args[i], w, "Covariance") for i in (0, 1)]
        mx, my = args[2:4] if len(args) > 2 else [app("mean_of_" + q, (ivar("n"),), "R") for q in (x, y)]
        if x > y:       # symmetric
            x, y, mx, my = y, x, my, mx
        return [(st, "ret", covar(x, y, mx, my))]
    return h


def term(f, mu, k):
    def g(i):
        d = f(i) - mu
        if isinstance(k, int):
            r = R(1)
            for _ in range(k):
                r = r * d
            return r
        ad = ite(d.ge(0), d, -d)
        pw = m_pow(ad, to_real(k) - 1)
        return ite(imod(k, 2).eq(0), ad * pw, d * pw)
    return g


def moment(f, mu, n, k):
    return rdiv(Sum(I(0), n, term(f, mu, k)), to_real(n))


def stdmoment(f, mu, k):
    return rdiv(cm(f, k, mu), m_pow(cm(f, 2, mu), half(R(k) if isinstance(k, int) else to_real(k))))


def half(x):
    return rdiv(x, R(2))


def job(fn, build, lo=1, two=False, hints=()):
    def run(mod):
        S = fn[-1]
        p = Proof(mod, fn, budget=300, label=fn)
        c02.xsimd_contracts(p, mod)
        w = 8 if S == "d" else 4
        keep_contract(p, "5dspbb4MeanI", mean_contract(w))
        if fn[:-2] not in KERNEL:
            keep_contract(p, "5dspbb13CentralMomentI", moment_contract(w))
            keep_contract(p, "5dspbb10CovarianceI", covariance_contract(w))
        w = 8 if S == "d" else 4
        n = p.size("n", lo)
        arrs = [p.array("a", n, w)] + ([p.array("b", n, w)] if two else [])
        p.e.hints = [A] + ([B] if two else [])
        extra, spec, hh = build(p, n)
        p.e.hints += hh
        return p.run(arrs + [n] + extra, lambda p, st, v: p.ensure(st, v.eq(spec), fn.rsplit("_", 1)[0] + " = definition"))
    return run


def jobs(thorough):
    J = []

    def add(fn, build, **kw):
        nm = fn + kw.pop("tag", "")
        J.append(Job(nm, ("k" if fn[:-2] in KERNEL else "") + fn[-1], job(fn, build, **kw), 300))

    def build(spec, hints, withmean, k=False):
        """spec(mu, n, k)"""
        def b(p, n):
            mu = p.real("mean") if withmean else mean(A, n)
            kk, ex = None, []
            if k is None:
                kk = p.int("k", 5, 1 << 20)
            elif k:
                kk = k
            if kk is not None:
                ex.append(I(kk))
            return ex + ([mu] if withmean else []), spec(mu, n, kk), [h(mu, kk) for h in hints]
        return b
    tm = lambda mu, k: term(A, mu, k)
    for S in (("d", "f") if thorough else ("d",)):
        for wm in (False, True):
            sfx = ("_mean_" if wm else "_") + S
            for k in (2, 3, 4, None):
                add("CentralMoment" + sfx, build(lambda mu, n, k: moment(A, mu, n, k), [tm], wm, k), tag="_k%s" % (k or "5+"))
            add("Variance" + sfx, build(lambda mu, n, k: cm(A, 2, mu), [], wm))
            add("StandardDeviation" + sfx, build(lambda mu, n, k: m_sqrt(cm(A, 2, mu)), [], wm))
            add("Skewness" + sfx, build(lambda mu, n, k: stdmoment(A, mu, 3), [], wm))
            add("Kurtosis" + sfx, build(lambda mu, n, k: stdmoment(A, mu, 4), [], wm))
            for k in (2, 3, 4, None):
                add("StandardizedMoment" + sfx, build(lambda mu, n, k: stdmoment(A, mu, k), [], wm, k), tag="_k%s" % (k or "5+"))

        def corr(k, f):
            return build(lambda mu, n, _: f(to_real(n), cm(A, 2, mu), cm(A, k, mu)), [], False)
        add("CorrectedVariance_" + S, corr(2, lambda n, m2, mk: rdiv(m2 * n, n - 1)), lo=2)
        add("CorrectedStandardDeviation_" + S, corr(2, lambda n, m2, mk: m_sqrt(rdiv(m2 * n, n - 1))), lo=2)
        add("CorrectedSkewness_" + S, corr(3, lambda n, m2, m3: rdiv(rdiv(n * n, (n - 2) * (n - 1)) * m3, m_pow(rdiv(n, n - 1) * m2, R(Fraction(3, 2))))), lo=3)

        def ckurt(n, m2, m4):
            kx = rdiv(n - 1, n * n * n) * ((n * n - 3 * n + 3) * m4 + (6 * n - 9) * m2 * m2)
            s2 = rdiv(n - 1, n) * m2
            k_ = rdiv(n * n, (n - 1) * (n - 1) * (n - 1) * (n * n - 3 * n + 3)) * ((n * (n - 1) * (n - 1) + (6 * n - 9)) * kx - n * (6 * n - 9) * s2 * s2)
            return rdiv(k_, m_pow(rdiv(n, n - 1) * m2, R(2)))
        add("CorrectedKurtosis_" + S, corr(4, ckurt), lo=4)

        def cov(wm):
            def b(p, n):
                ma, mb = (p.real("amean"), p.real("bmean")) if wm else (mean(A, n), mean(B, n))
                g = lambda i: (A(i) - ma) * (B(i) - mb)
                return ([ma, mb] if wm else []), rdiv(Sum(I(0), n, g), to_real(n)), [g]
            return b
        add("Covariance_" + S, cov(False), two=True)
        add("Covariance_mean_" + S, cov(True), two=True)
        c = lambda n: covar("a", "b", mean(A, n), mean(B, n))
        add("CorrectedCovariance_" + S, lambda p, n: ([], rdiv(to_real(n), to_real(n) - 1) * c(n), []), two=True, lo=2)
        add("Correlation_" + S, lambda p, n: ([], rdiv(c(n), m_sqrt(cm(A, 2, mean(A, n))) * m_sqrt(cm(B, 2, mean(B, n)))), []), two=True)
    return J
