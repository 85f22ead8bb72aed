"""C25: measurement of filters."""
from common import *
import math
from c07 import fill_new, new_array
from fractions import Fraction
from terms import idiv, rdiv
from c15 import records, slot

REPLAY = ["c25.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["std::vector's push_back appends (its growth is proved for Signal in C21, not again for vectors of bands)",
               "std::max_element and std::min_element return a position of their range (std::find_if is proved here)",
               "Bisect returns a point of its interval (C24)",
               "LinSpace fills the grid as proved in C22's and C18's units; Abs and Arg are elementwise (C02); the transform is by contract (C20; pocketfft trusted)",
               "the systems evaluate as proved in C14 and C15 and are deterministic",
               "ParametrizeFilterBands gets bands in rising order that start at sample 0 (proved of ExtractFilterBands)"]
BOUNDED = "float; rounding; borders and edges of designed and random spectra; the value of the fitted transition edge beyond lying in its band"

I8 = ("i", 8)
EXTREMUM = "extremum_max extremum_min extremum_rmax extremum_rmin".split()
RESPONSE = "response_z response_t response_c".split()
MEASURE = "lowpass highpass bandpass bandstop any".split()
UNITS = {"e": dict(cpp="measure.cpp", exports=EXTREMUM),
         "g": dict(cpp="measure.cpp", exports=["edges_ripple"], keep=["re:FindFirstExtremumI"]),
         "h": dict(cpp="measure.cpp", exports=["edges_fit"], keep=["re:FitBandI"]),
         "i": dict(cpp="measure.cpp", exports=["fit_band"], keep=["re:6BisectI", "re:11(max|min)_element"]),
         "r": dict(cpp="measure.cpp", exports=["ripple"], keep=["re:^_ZN5dspbb4impl17FindFirstExtremumI"]),
         "b": dict(cpp="measure.cpp", exports=["bands"], keep=["re:^_ZSt9__find_ifI", "re:^_ZNSt6vectorIN5dspbb4impl4BandESaIS2_EE.*(emplace_back|push_back)"]),
         "p": dict(cpp="measure.cpp", exports=["parametrize"], keep=["re:FindBandEdgesFit", "re:FindBandEdgesRipple", "re:MeasureBandRipple", "re:(emplace_back|push_back)"]),
         "x": dict(cpp="measure.cpp", exports=["extract"]),
         "j": dict(cpp="measure.cpp", exports=["response_i"], keep=["re:^_ZN5dspbb3FftI", "re:^_ZN5dspbb3AbsI", "re:^_ZN5dspbb3ArgI"]),
         "m": dict(cpp="measure.cpp", exports=MEASURE, keep=["re:ExtractFilterBands", "re:ParametrizeFilterBands"]),
         "f": dict(cpp="measure.cpp", exports=RESPONSE, keep=["re:^_ZN5dspbb8LinSpace", "re:^_ZNK5dspbb.*cl", "re:^_ZNK5dspbb.*5orderEv"])}


mx = lambda a, b: ite(a.ge(b), a, b)
mn = lambda a, b: ite(a.le(b), a, b)
X = lambda i: app("x", (i,), "R")
at8 = lambda o: o.divides_exact(8)
HALF, WIDTH = 2, 5


def tracked_at(p, xs):
    """the sample read at an offset is the sample of an index tracked by a loop"""
    p.pv.fact_gens["xb"] = lambda a: [Implies(a.args[1].eq(8 * c), poly_of(a).eq(X(c))) for c in xs]


def index_of(p, st, off, xs):
    """the index of an offset"""
    i = at8(off)
    if i is None:
        i = next((c for c in xs if p.pv.prove(st.pc, off.eq(8 * c), 3000) == "proved"), idiv(off, I(8)))
    return i


def spread(p, up, X=X):
    """ghost: w(b, k) is the extreme value of the k samples from b on; extremum(b): the middle one of five is extreme"""
    nm = "w_max" if up else "w_min"
    w = lambda b, k: app(nm, (b, k), "R")
    ext = mx if up else mn

    def facts(a):
        b, k = a.args[1], a.args[2]
        c = k.const()
        if k.is_const():
            v = X(b)
            for q in range(int(c)):
                v = ext(v, X(b + q))
            return [poly_of(a).eq(v)]
        if c:
            v = w(b, k - c)
            for q in range(int(c)):
                v = ext(v, X(b + k - c + q))
            return [Implies((k - c).ge(0), poly_of(a).eq(v))]
        return [Implies(k.eq(0), poly_of(a).eq(X(b)))]
    p.pv.fact_gens[nm] = facts
    return w, lambda b: w(b, I(WIDTH)).eq(X(b + HALF))


def extremum(fn):
    """the middle of the first five samples whose middle one is the largest (smallest), the end when there is none"""
    up = fn.endswith("max")
    rev = "_r" in fn

    def job(mod):
        p = Proof(mod, fn, budget=100)
        p.e.split_ite = True
        n = p.size("n")
        g = p.int("g")
        x = p.array("x", n)
        pos = (lambda b: 8 * (n - b)) if rev else (lambda b: 8 * b)
        to = (lambda c: n - c) if rev else (lambda c: c)
        X = (lambda i: app("x", (n - 1 - i,), "R")) if rev else globals()["X"]
        w, is_ext = spread(p, up, X)
        none = lambda last: Implies(And(g.ge(0), g.lt(last), (g + WIDTH).le(n)), Not(is_ext(g)))

        seen = []

        def cands(li):
            out = []
            ints = li.ints()
            starts = {to(at8(v)) for _, *vs in ints for v in vs if at8(v) is not None}
            k = li.k
            seen.extend(b for b in starts if b not in seen)
            for b in starts:
                for v in li.hdr.values():
                    if isinstance(v, Poly) and v.sort == "R":
                        out += [v.eq(w(b, k)), Implies(k.ge(HALF + 1), v.eq(X(b + HALF)))]
                for _, i0, h in ints:
                    out += [h.eq(ite(k.ge(HALF + 1), I(1), I(0))), h.eq(ite(k.ge(HALF + 1), pos(b + HALF), pos(n)))]
                out.append((b + k).le(n))
            out += [k.le(WIDTH), none(k)]
            return out
        p.e.loop_cands = [cands]

        def post(p, st, v):
            o = v.off
            p.ensure(st, T.bconst(v.obj is x.obj), "a position in the range")
            if p.pv.prove(st.pc, o.eq(pos(n)), 3000) == "proved":
                p.ensure(st, none(n), "no extremum in the range")
            else:
                c = to(at8(o)) if at8(o) is not None else next((b + HALF for b in seen if p.pv.prove(st.pc, o.eq(pos(b + HALF)), 3000) == "proved"), to(idiv(o, I(8))))
                p.ensure(st, o.eq(pos(c)), "a sample")
                b = c - HALF
                p.ensure(st, And(b.ge(0), (b + WIDTH).le(n)), "all five samples in the range")
                p.ensure(st, is_ext(b), "the extreme value is that of the middle sample")
                for q in range(WIDTH):
                    p.ensure(st, X(b + q).le(X(c)) if up else X(b + q).ge(X(c)), "extreme among its neighbours")
                p.ensure(st, none(b), "no extremum before it")
        return p.run([x, Ptr(x.obj, 8 * n)], post)
    return job


FE = {True: "fe_max", False: "fe_min"}
fe = lambda up, i: app(FE[up], (i,), "I")


def ripple(mod):
    """the largest deviation from one (pass) or zero (stop) among the samples that are the extreme ones of five neighbours:
    none when there is no such sample, or they do not deviate"""
    p = Proof(mod, "ripple", budget=150)
    n, g = p.size("n"), p.int("g")
    x = p.array("x", n)
    ps = p.int("pass", 0, 1)
    target = ite(ps.eq(1), R(1), R(0))
    D = lambda i: mx(target - X(i), X(i) - target)
    isx = {up: spread(p, up)[1] for up in (True, False)}
    T_ = {up: (lambda i, up=up: app("tail_max" if up else "tail_min", (i,), "R")) for up in (True, False)}
    seen = []
    cs = []
    tracked_at(p, cs)
    for up in (True, False):
        def fe_facts(a, up=up):
            i, r = a.args[1], poly_of(a)
            return [Implies(And(i.ge(0), i.le(n)), Or(r.eq(n), And((i + HALF).le(r), (r + HALF + 1).le(n), isx[up](r - HALF)))),
                    Implies(And(i.ge(0), i.le(g), (g + WIDTH).le(n), isx[up](g)), And((r - HALF).le(g), Not(r.eq(n))))]
        p.pv.fact_gens[FE[up]] = fe_facts

        def tail_facts(a, up=up):
            i, r = a.args[1], poly_of(a)
            c = fe(up, i)
            return [r.ge(R(-1)), Implies(i.eq(n), r.eq(R(-1)))] + ([] if "fe_" in str(i) else [Implies(And(i.ge(0), i.lt(n), c.eq(n)), r.eq(R(-1))), Implies(And(i.ge(0), i.lt(n), Not(c.eq(n))), r.eq(mx(D(c), T_[up](c))))])
        p.pv.fact_gens["tail_max" if up else "tail_min"] = tail_facts

    def handler(up):
        def h(e, st, args, ins):
            lo, hi, k = args[:3]
            if lo.obj is not x.obj and lo.obj is hi.obj and p.pv.prove(st.pc, And(n.eq(0), lo.off.eq(hi.off)), 3000) == "proved":
                return [(st, "ret", hi)]  # an empty range
            e.require(st, T.bconst(lo.obj is x.obj and hi.obj is x.obj), "%s:pre(samples of the band)" % e.cur)
            i = index_of(p, st, lo.off, seen)
            e.require(st, And(i.ge(0), i.le(n), lo.off.eq(8 * i), hi.off.eq(8 * n), k.eq(WIDTH)), "%s:pre(from a sample to the end, five neighbours)" % e.cur)
            return [(st, "ret", Ptr(x.obj, 8 * fe(up, i)))]
        return h
    keep_contract(p, "FindFirstExtremumIPKdSt4less", handler(True))
    keep_contract(p, "FindFirstExtremumIPKdSt7greater", handler(False))

    def cands(li):
        out = []
        for _, i0, h in li.ints():
            c = idiv(h, I(8))
            seen.append(c)
            cs.append(c)
            out += [h.eq(8 * c), And(c.ge(0), c.le(n))]
            for nm, v in li.hdr.items():
                if isinstance(v, Poly) and v.sort == "R":
                    out.append(v.ge(R(-1)))
                    for up in (True, False):
                        tot = T_[up](I(0)) if up else mx(T_[True](I(0)), T_[False](I(0)))
                        out.append(mx(v, T_[up](c)).eq(tot))
                        out.append(mx(v, ite(c.eq(n), R(-1), mx(D(c), T_[up](c)))).eq(tot))
                        out.append(Implies(And(g.ge(0), (g + HALF).lt(c), (g + WIDTH).le(n), isx[up](g)), D(g + HALF).le(v)))
                        out.append(Or(c.eq(n), And(c.ge(HALF), (c + HALF + 1).le(n), isx[up](c - HALF))))
                        out.append(Implies(And(g.ge(0), (g + HALF).le(c), (g + WIDTH).le(n), isx[up](g)), D(g + HALF).le(v)))
                        out.append(Implies(And(g.ge(0), (g + WIDTH).le(n), isx[up](g)), D(g + HALF).le(v)))
                        out.append(Or(c.eq(0), c.eq(n), And(c.ge(HALF), (c + HALF + 1).le(n), isx[up](c - HALF), D(c).le(v))))
        return out
    p.e.loop_cands = [cands]
    r = p.struct("r", [], 16)
    total = mx(T_[True](I(0)), T_[False](I(0)))

    def post(p, st, v):
        some = p.e.read(st, r.obj, I(8), I8)
        val = p.e.read(st, r.obj, I(0), F64)
        p.ensure(st, Or(some.eq(0), some.eq(1)), "a result or none")
        p.ensure(st, Iff(some.eq(1), total.gt(0)), "a result when an extremum deviates")
        p.ensure(st, Implies(some.eq(1), val.eq(total)), "the deviation of one of the extrema")
        for up in (True, False):
            p.ensure(st, Implies(And(g.ge(0), (g + WIDTH).le(n), isx[up](g)), D(g + HALF).le(ite(some.eq(1), val, R(0)))), "no extremum deviates more")
    return p.run([r, x, Ptr(x.obj, 8 * n), ps.eq(1)], post)


def edges_ripple(mod):
    """left edge: the first extremum (maximum in pass bands, minimum in stop bands) from the left, right edge: the end of the
    first one from the right; each only when asked for and when there is one"""
    p = Proof(mod, "edges_ripple", budget=60)
    n = p.size("n")
    x = p.array("x", n)
    left, right, ps = [p.int(q, 0, 1) for q in ("left", "right", "pass")]
    E = lambda up, rev: app(FE[up] + ("_rev" if rev else ""), (I(0),), "I")
    for q in FE.values():
        for w in (q, q + "_rev"):
            p.pv.fact_gens[w] = lambda a: [Or(poly_of(a).eq(n), And(poly_of(a).ge(HALF), (poly_of(a) + HALF + 1).le(n)))]

    def check(e, st, lo, hi, k, a, b):
        if lo.obj is None:
            e.require(st, And(n.eq(0), T.bconst(hi.obj is None)), "%s:pre(the band)" % e.cur)
        else:
            e.require(st, And(T.bconst(lo.obj is x.obj and hi.obj is x.obj), lo.off.eq(a), hi.off.eq(b)), "%s:pre(the band)" % e.cur)
        e.require(st, k.eq(WIDTH), "%s:pre(five neighbours)" % e.cur)

    def forward(up):
        def h(e, st, args, ins):
            check(e, st, *args[:3], I(0), 8 * n)
            return [(st, "ret", Ptr(args[0].obj, 8 * E(up, False) if args[0].obj else args[0].off))]
        return h

    def backward(up):
        def h(e, st, args, ins):
            lo, hi = [e.load(st, a, PTR) for a in args[1:3]]
            check(e, st, lo, hi, args[3], 8 * n, I(0))
            e.store(st, args[0], PTR, Ptr(lo.obj, 8 * (n - E(up, True)) if lo.obj else lo.off))
            return [(st, "ret", None)]
        return h
    for up, c in ((True, "St4less"), (False, "St7greater")):
        keep_contract(p, "FindFirstExtremumIPKd" + c, forward(up))
        keep_contract(p, "FindFirstExtremumISt16reverse_iteratorIPKdE" + c, backward(up))
    r = p.struct("r", [], 32)

    def post(p, st, v):
        for asked, rev, at in ((left, False, 0), (right, True, 16)):
            e = ite(ps.eq(1), E(True, rev), E(False, rev))
            some = p.e.read(st, r.obj, I(at + 8), I8)
            p.ensure(st, some.eq(ite(And(asked.eq(1), n.gt(0), Not(e.eq(n))), I(1), I(0))), "an edge when asked for and there is an extremum")
            p.ensure(st, Implies(some.eq(1), T.to_real(n - e if rev else e).eq(p.e.read(st, r.obj, I(at), F64))), "position of the first extremum from the border")
    return p.run([r, x, Ptr(x.obj, 8 * n), left.eq(1), right.eq(1), ps.eq(1)], post)


def whole(p, e, st, x, n, a, b, what):
    if a.obj is None:
        e.require(st, And(n.eq(0), T.bconst(b.obj is None)), "%s:pre(%s)" % (e.cur, what))
    else:
        e.require(st, And(T.bconst(a.obj is x.obj and b.obj is x.obj), a.off.eq(0), b.off.eq(8 * n)), "%s:pre(%s)" % (e.cur, what))


def edges_fit(mod):
    """one and a half times the fitted width from the border, not beyond the other one; exactly the edges asked for"""
    p = Proof(mod, "edges_fit", budget=60)
    n = p.size("n")
    x = p.array("x", n)
    left, right, ps = [p.int(q, 0, 1) for q in ("left", "right", "pass")]
    thr = p.real("threshold")
    F = lambda side: app("fit", (I(side),), "R")
    p.pv.fact_gens["fit"] = lambda a: [poly_of(a).ge(0)]

    def fit(e, st, args, ins):
        v, pb, lf, t = args[:4]
        whole(p, e, st, x, n, *[e.load(st, Ptr(v.obj, v.off + 8 * k), PTR) for k in range(2)], "the band")
        as_b = lambda b: b if not isinstance(b, Poly) else b.eq(1)
        e.require(st, And(Iff(as_b(pb), ps.eq(1)), t.eq(thr)), "%s:pre(its kind and the threshold)" % e.cur)
        return [(st, "ret", ite(as_b(lf), F(0), F(1)))]
    keep_contract(p, "FitBandI", fit)
    r = p.struct("r", [], 32)

    def post(p, st, v):
        N = T.to_real(n)
        for asked, at, want in ((left, 0, mn(F(0) * Fraction(3, 2), N)), (right, 16, mx(R(0), N - F(1) * Fraction(3, 2)))):
            p.ensure(st, p.e.read(st, r.obj, I(at + 8), I8).eq(asked), "an edge when asked for")
            val = p.e.read(st, r.obj, I(at), F64)
            p.ensure(st, Implies(asked.eq(1), val.eq(want)), "the fitted edge")
            p.ensure(st, Implies(asked.eq(1), And(val.ge(0), val.le(N))), "inside the band")
    return p.run([r, x, Ptr(x.obj, 8 * n), left.eq(1), right.eq(1), ps.eq(1), thr], post)


def fit_band(mod):
    """the fitted width is not negative: bisection between one half and two thirds of the distance of the extreme sample"""
    p = Proof(mod, "fit_band", budget=60)
    n = p.size("n")
    x = p.array("x", n)
    left, ps = [p.int(q, 0, 1) for q in ("left", "pass")]
    thr = p.real("threshold")
    at = {q: p.int("at_" + q) for q in ("max", "min")}

    def element(q):
        def h(e, st, args, ins):
            whole(p, e, st, x, n, args[0], args[1], "the band")
            if args[0].obj is None:
                return [(st, "ret", args[0])]
            st.assume(And(at[q].ge(0), at[q].le(n), Implies(n.gt(0), at[q].lt(n))))
            return [(st, "ret", Ptr(x.obj, 8 * at[q]))]
        return h
    keep_contract(p, "11max_element", element("max"))
    keep_contract(p, "11min_element", element("min"))

    def bisect(e, st, args, ins):
        a, b = args[1:3]
        v = T.fresh("root", "R") if hasattr(T, "fresh") else rvar("root")
        e.require(st, And(a.ge(0), b.ge(0)), "%s:pre(an interval without negative widths)" % e.cur)
        st.assume(And(v.ge(mn(a, b)), v.le(mx(a, b))))
        return [(st, "ret", v)]
    keep_contract(p, "6BisectI", bisect)
    return p.run([x, Ptr(x.obj, 8 * n), ps.eq(1), left.eq(1), thr], lambda p, st, v: p.ensure(st, v.ge(0), "not negative"))


BAND = (16, [(0, I64), (8, I8)])
EPS = Fraction(0.0005)


def bands_list(mod):
    """from the first sample on: a band is at the side of the threshold where its first sample is, and lasts until the first
    sample beyond the other threshold of the hysteresis (conclude); the reported border is the middle between that sample and
    the first beyond the near threshold (trigger)"""
    p = Proof(mod, "bands", budget=100)
    n = p.size("n")
    x = p.array("x", n)
    thr = p.real("threshold")
    passes = lambda i: X(i).gt(thr)
    near = lambda i: ite(passes(i), thr + EPS, thr - EPS)
    far = lambda i: ite(passes(i), thr - EPS, thr + EPS)
    other = lambda i, g, t: Not(Or(And(X(g).gt(t), passes(i)), And(X(g).le(t), X(i).le(thr))))
    trig, conc = [lambda i, nm=nm: app(nm, (i,), "I") for nm in ("trigger", "conclude")]
    C, index = [lambda k, nm=nm: app(nm, (k,), "I") for nm in ("C", "index")]

    def first(f, g_, t):
        """the first sample from i on that is on the other side of t (n: none)"""
        def facts(a):
            i = a.args[1]
            r = poly_of(a)
            return [Implies(And(i.ge(0), i.lt(n)), And(r.ge(i), r.le(n), Or(r.eq(n), other(i, r, t(i))), *[Implies(And(i.le(q), q.lt(r)), Not(other(i, q, t(i)))) for q in g_(i)]))]
        return facts
    p.pv.fact_gens["trigger"] = first(trig, lambda i: [i, conc(i)], near)
    p.pv.fact_gens["conclude"] = first(conc, lambda i: [i], far)

    def seq(nm, z, step):
        def facts(a):
            k = a.args[1]
            c = k.const()
            if c == 1:
                return [Implies((k - 1).ge(0), poly_of(a).eq(step(k - 1)))]
            return [Implies(k.eq(0), poly_of(a).eq(z))]
        p.pv.fact_gens[nm] = facts
    seq("C", I(0), lambda k: conc(C(k)))
    seq("index", I(0), lambda k: idiv(conc(C(k)) + trig(C(k)), I(2)))
    spec = lambda k, at: index(k) if at == 0 else ite(passes(C(k)), I(1), I(0))
    r = p.struct("r", [], 24)
    ln = p.struct("len", [(0, I64, I(0))], 8)
    out = p.struct("list", [], 16 << 40)
    out.obj.record = BAND
    ln.obj.hint = None

    def push_back(e, st, args, ins):
        v, b = args
        e.require(st, T.bconst(v.obj is r.obj), "%s:pre(the returned list)" % e.cur)
        i = e.read(st, ln.obj, I(0), I64)
        e.require(st, And(i.ge(0), i.lt(1 << 38)), "%s:pre(length of the list)" % e.cur)
        for at, ty in BAND[1]:
            e.write(st, out.obj, 16 * i + at, ty, e.read(st, b.obj, b.off + at, ty))
        e.write(st, ln.obj, I(0), I64, i + 1)
        return [(st, "ret", None)]
    keep_contract(p, "9push_backEOS2_", push_back)

    def find_if(e, st, args, ins):
        lo, hi, ps, t = args[:4]
        e.require(st, T.bconst(lo.obj is x.obj and hi.obj is x.obj), "%s:pre(samples of the response)" % e.cur)
        i = at8(lo.off)
        if i is None:
            i = next((c for c in starts if p.pv.prove(st.pc, lo.off.eq(8 * c), 3000) == "proved"), idiv(lo.off, I(8)))
        e.require(st, And(i.ge(0), i.lt(n), hi.off.eq(8 * n), lo.off.eq(8 * i)), "%s:pre(from a sample of the response to its end)" % e.cur)
        e.require(st, ps.eq(ite(passes(i), I(1), I(0))), "%s:pre(looks for the end of the band)" % e.cur)
        f = trig if p.pv.prove(st.pc, t.eq(near(i)), 5000) == "proved" else conc
        if f is conc:
            e.require(st, t.eq(far(i)), "%s:pre(one of the two thresholds)" % e.cur)
        return [(st, "ret", Ptr(x.obj, 8 * f(i)))]
    keep_contract(p, "_ZSt9__find_ifI", find_if)
    starts = []
    p.pv.fact_gens["xb"] = lambda a: [Implies(a.args[1].eq(8 * c), poly_of(a).eq(X(c))) for c in starts]

    def cands(li):
        res = []
        k = li.k
        starts.append(C(k))
        for _, i0, h in li.ints():
            res += [h.eq(8 * C(k)), h.eq(index(k))]
        res += [C(k).ge(k), And(C(k).ge(0), C(k).le(n)), And(index(k).ge(0), index(k).le(C(k)))]
        return res
    p.e.loop_cands = [cands]

    def minv(li, ob, ent):
        n0 = p.e.read(li.st, ln.obj, I(0), I64)
        if ob is ln.obj:
            return [lambda ctx: Content(ent, "fn", (I(0), I(8), lambda rst, off, ty: n0 + ctx.k if ty == I64 else p.e.fresh_val(ty)))]
        if ob is out.obj:
            return [lambda ctx: Content(ent, "fn", (16 * n0, 16 * (n0 + ctx.k), records(p, BAND, spec)))]
        return []
    p.e.mem_inv = [minv]

    def post(p, st, v):
        m = p.e.read(st, ln.obj, I(0), I64)
        p.ensure(st, m.ge(0), "a list")
        p.ensure(st, Implies(n.eq(0), m.eq(0)), "no bands without samples")
        p.ensure(st, C(m).eq(n), "the bands cover the response")
        t, j = st.fork(), fresh("j")
        t.assume(And(j.ge(0), C(j).ge(0), C(j).lt(n), index(j).ge(0), index(j).le(C(j))))
        p.ensure(t, And(C(j).le(index(j + 1)), index(j + 1).le(C(j + 1)), C(j + 1).le(n)), "the borders are in order and inside the response")
        for at, ty in BAND[1]:
            p.ensure_all(st, Ptr(out.obj, I(at)), m, 16, lambda j, s_: spec(j, at), "bands, slot %d" % at, ty)
    return p.run([r, x, Ptr(x.obj, 8 * n), thr], post)


def find_if(which):
    """std::find_if with the predicate of the band extraction: (x > threshold) != pass"""
    def job(mod):
        nm = [f[1:].strip('"') for f in mod.funcs if "_ZSt9__find_ifI" in f and which in f and "St26random" in f][0]
        p = Proof(mod, nm, budget=100, label="find_if[%s]" % which)
        n, g = p.size("n"), p.int("g")
        i = p.int("i")
        p.requires(And(i.ge(0), i.le(n)))
        x = p.array("x", n)
        thr = p.real("threshold")
        ps = p.int("pass")
        p.requires(And(ps.ge(0), ps.le(1)))
        stop = lambda q: Not(ps.eq(ite(X(q).gt(thr), I(1), I(0))))

        def cands(li):
            out = [Implies(And(g.ge(i), g.lt(i + 4 * li.k)), Not(stop(g))), (i + 4 * li.k).le(n)]
            for _, i0, h in li.ints():
                out += [h.eq(8 * (i + 4 * li.k)), h.eq(idiv(n - i, I(4)) - li.k)]
            return out
        p.e.loop_cands = [cands]

        def post(p, st, v):
            p.ensure(st, T.bconst(v.obj is x.obj), "a position in the range")
            c = at8(v.off)
            c = idiv(v.off, I(8)) if c is None else c
            p.ensure(st, And(v.off.eq(8 * c), c.ge(i), c.le(n)), "a position in the range")
            p.ensure(st, Implies(c.lt(n), stop(c)), "stops at a sample on the other side")
            p.ensure(st, Implies(And(g.ge(i), g.lt(c)), Not(stop(g))), "no earlier one")
        return p.run([Ptr(x.obj, 8 * i), Ptr(x.obj, 8 * n), ps, thr], post)
    return job


PARAM = (24, [(8 * q, F64) for q in range(3)])
KINDS = {1: (1, 0), 2: (0, 1), 3: (0, 1, 0), 4: (1, 0, 1)}
CALLS = dict(lowpass=1, highpass=2, bandpass=3, bandstop=4)
pass_of = lambda j: app("pass", (j,), "I")
low_edge, up_edge, dev = [lambda j, nm=nm: app(nm, (j,), "R") for nm in ("lower", "upper", "dev")]
band_val = lambda j, at: app("first", (j,), "I") if at == 0 else pass_of(j)
param_val = lambda j, at: {0: low_edge, 8: up_edge, 16: dev}[at](j)


def record_object(p, st, name, rec, n, val, kind="arg"):
    o = p.e.new_obj(st, name, rec[0] * n, kind)
    o.record = rec
    st.mem[o] = Content(st.mem[o], "fn", (I(0), rec[0] * n, records(p, rec, val)))
    return o


def vector_of(e, st, ret, o, size):
    for k, x in enumerate((I(0), size, size)):
        e.store(st, Ptr(ret.obj, ret.off + 8 * k), PTR, Ptr(o, x))


def pattern(kind, m):
    return And(m.eq(len(KINDS[kind])), *[pass_of(I(j)).eq(b) for j, b in enumerate(KINDS[kind])])


def fields(kind):
    k = len(KINDS[kind])
    out = []
    for j in range(k):
        out += ([low_edge(I(j))] if j else []) + ([up_edge(I(j))] if j < k - 1 else [])
    return out + [dev(I(j)) for j in range(k)]


def known_passes(p):
    """loop candidates: the bands compared so far have the desired kind"""
    p.pv.fact_gens["pass"] = lambda a: [poly_of(a).ge(0), poly_of(a).le(1)]

    def cands(li):
        return [li.k.le(2), li.k.le(3)] + [Implies(li.k.gt(j), pass_of(I(j)).eq(b)) for j in range(3) for b in (0, 1)]
    p.e.loop_cands = [cands]


def classified(p, st, r, m):
    """a variant: the first kind whose pattern the bands have, with the parameters of the bands; none otherwise"""
    ix = p.e.read(st, r.obj, I(56), I8)
    for k in KINDS:
        p.ensure(st, Iff(pattern(k, m), ix.eq(k)), "kind %d exactly for its pattern of bands" % k)
        for q, v in enumerate(fields(k)):
            p.ensure(st, Implies(pattern(k, m), p.e.read(st, r.obj, I(8 * q), F64).eq(v)), "field %d of kind %d" % (q, k))
    p.ensure(st, Implies(And(*[Not(pattern(k, m)) for k in KINDS]), ix.eq(0)), "no kind otherwise")


def parametrize(mod):
    """for every band: from its start, its edges are the outer one of the fitted edge and the first extremum (the start or end
    of the response for the first and last band), divided by the number of samples; its ripple, zero without one"""
    p = Proof(mod, "parametrize", budget=150)
    n, m = p.size("n"), p.size("m")
    x = p.array("x", n)
    thr = p.real("threshold")
    B = lambda j: app("first", (j,), "I")
    end = lambda j: ite((j + 1).lt(m), B(j + 1), n)
    # what the band extraction guarantees
    def ordered(a):
        j, v = a.args[1], poly_of(a)
        return [Implies(And(j.ge(0), j.lt(m)), And(v.ge(0), v.le(n)))] + ([Implies(And(j.ge(1), j.lt(m)), B(j - 1).le(v))] if j.const() == 1 and not j.is_const() else [])
    p.pv.fact_gens["first"] = ordered
    p.pv.fact_gens["pass"] = lambda a: [poly_of(a).ge(0), poly_of(a).le(1)]
    val = {q: (lambda j, q=q: app(q, (j,), "R")) for q in ("fit_left", "fit_right", "rip_left", "rip_right", "ripple")}
    some = {q: (lambda j, q=q: app("has_" + q, (j,), "I")) for q in ("rip_left", "rip_right", "ripple")}
    for q in some:
        p.pv.fact_gens["has_" + q] = lambda a: [poly_of(a).ge(0), poly_of(a).le(1)]
    for q in ("fit_left", "fit_right", "rip_left", "rip_right"):
        p.pv.fact_gens[q] = lambda a: [poly_of(a).ge(0), poly_of(a).le(T.to_real(end(a.args[1]) - B(a.args[1])))]
    b = record_object(p, p.st, "bands", BAND, m, band_val)
    vb = p.struct("b", [(8 * k, PTR, Ptr(b, v)) for k, v in enumerate((I(0), 16 * m, 16 * m))], 24)

    def lower(j):
        f, r = val["fit_left"](j), val["rip_left"](j)
        return ite(j.eq(0), R(0), ite(some["rip_left"](j).eq(1), mn(f, r), f))

    def upper(j):
        f, r = val["fit_right"](j), val["rip_right"](j)
        return ite((j + 1).eq(m), T.to_real(end(j) - B(j)), ite(some["rip_right"](j).eq(1), mx(f, r), f))

    def spec(j, at):
        if at == 16:
            return ite(some["ripple"](j).eq(1), val["ripple"](j), R(0))
        return rdiv(T.to_real(B(j)) + (lower(j) if at == 0 else upper(j)), T.to_real(n))
    ln = p.struct("len", [(0, I64, I(0))], 8)
    out = p.struct("list", [], 24 << 40)
    out.obj.record = PARAM
    ln.obj.hint = None
    r = p.struct("r", [], 24)

    def push_back(e, st, args, ins):
        v, q = args
        e.require(st, T.bconst(v.obj is r.obj), "%s:pre(the returned list)" % e.cur)
        i = e.read(st, ln.obj, I(0), I64)
        e.require(st, And(i.ge(0), i.lt(1 << 38)), "%s:pre(length of the list)" % e.cur)
        for at, ty in PARAM[1]:
            e.write(st, out.obj, 24 * i + at, ty, e.read(st, q.obj, q.off + at, ty))
        e.write(st, ln.obj, I(0), I64, i + 1)
        return [(st, "ret", None)]
    keep_contract(p, "9push_backEOS", push_back)

    def band(e, st, v, ps, lr=()):
        """the band a callee is asked about: its samples, kind and which edges"""
        k = e.read(st, ln.obj, I(0), I64)
        lo, hi = [e.load(st, Ptr(v.obj, v.off + 8 * q), PTR) for q in range(2)]
        if lo.obj is None:
            e.require(st, B(k).eq(end(k)), "%s:pre(the samples of the band)" % e.cur)
        else:
            e.require(st, And(T.bconst(lo.obj is x.obj and hi.obj is x.obj), lo.off.eq(8 * B(k)), hi.off.eq(8 * end(k))), "%s:pre(the samples of the band)" % e.cur)
        e.require(st, Iff(ps, pass_of(k).eq(1)), "%s:pre(the kind of the band)" % e.cur)
        if lr:
            e.require(st, And(Iff(lr[0], k.gt(0)), Iff(lr[1], (k + 1).lt(m))), "%s:pre(the edges between bands)" % e.cur)
        return k

    def edges(which):
        def h(e, st, args, ins):
            k = band(e, st, args[1], args[4], args[2:4])
            if which == "fit":
                e.require(st, args[5].eq(thr), "%s:pre(threshold)" % e.cur)
            for side, at, asked in (("left", 0, k.gt(0)), ("right", 16, (k + 1).lt(m))):
                has = some["rip_" + side](k) if which == "rip" else I(1)
                e.write(st, args[0].obj, args[0].off + at, F64, val["%s_%s" % (which, side)](k))
                e.write(st, args[0].obj, args[0].off + at + 8, I8, ite(asked, has, I(0)))
            return [(st, "ret", None)]
        return h
    keep_contract(p, "FindBandEdgesFit", edges("fit"))
    keep_contract(p, "FindBandEdgesRipple", edges("rip"))

    def measured(e, st, args, ins):
        k = band(e, st, args[0], args[1])
        return [(st, "ret", [val["ripple"](k), some["ripple"](k)])]
    keep_contract(p, "MeasureBandRipple", measured)

    def cands(li):
        return [h.eq(16 * li.k) for _, i0, h in li.ints()] + [li.k.le(m)]
    p.e.loop_cands = [cands]

    def minv(li, ob, ent):
        n0 = p.e.read(li.st, ln.obj, I(0), I64)
        if ob is ln.obj:
            return [lambda ctx: Content(ent, "fn", (I(0), I(8), lambda rst, off, ty: n0 + ctx.k if ty == I64 else p.e.fresh_val(ty)))]
        if ob is out.obj:
            return [lambda ctx: Content(ent, "fn", (24 * n0, 24 * (n0 + ctx.k), records(p, PARAM, spec)))]
        return []
    p.e.mem_inv = [minv]

    def post(p, st, v):
        p.ensure(st, p.e.read(st, ln.obj, I(0), I64).eq(m), "parameters for every band")
        for at, ty in PARAM[1]:
            p.ensure_all(st, Ptr(out.obj, I(at)), m, 24, lambda j, s_: spec(j, at), "parameters, slot %d" % at, ty)
        j = fresh("j")
        st.assume(And(j.ge(0), j.lt(m)))
        N = T.to_real
        p.ensure(st, And(lower(j).ge(0), lower(j).le(N(end(j) - B(j)))), "the lower edge lies in the band")
        p.ensure(st, And(upper(j).ge(0), upper(j).le(N(end(j) - B(j)))), "the upper edge lies in the band")
    return p.run([r, x, Ptr(x.obj, 8 * n), vb, thr], post)


def extract(mod):
    p = Proof(mod, "extract", budget=100)
    m = p.size("m")
    known_passes(p)
    st = p.st
    b, q = record_object(p, st, "bands", BAND, m, band_val), record_object(p, st, "params", PARAM, m, param_val)
    vb = p.struct("b", [(8 * k, PTR, Ptr(b, v)) for k, v in enumerate((I(0), 16 * m, 16 * m))], 24)
    vq = p.struct("p", [(8 * k, PTR, Ptr(q, v)) for k, v in enumerate((I(0), 24 * m, 24 * m))], 24)
    r = p.struct("r", [], 64)
    return p.run([r, vb, vq], lambda p, st, v: classified(p, st, r, m))


def measure(fn):
    """the bands of the response, their parameters, and the extraction of the kind; a filter of another kind is refused"""
    def job(mod):
        p = Proof(mod, fn, budget=100)
        n, m = p.size("n"), p.size("m")
        known_passes(p)
        x = p.array("x", n)
        made = []

        def view(e, st, v, what):
            a, b = [e.load(st, Ptr(v.obj, v.off + 8 * k), PTR) for k in range(2)]
            if a.obj is None:
                e.require(st, And(n.eq(0), T.bconst(b.obj is None)), "%s:pre(%s)" % (e.cur, what))
            else:
                e.require(st, And(T.bconst(a.obj is x.obj and b.obj is x.obj), a.off.eq(0), b.off.eq(8 * n)), "%s:pre(%s)" % (e.cur, what))

        def find(e, st, args, ins):
            view(e, st, args[1], "the response")
            e.require(st, args[2].eq(R(Fraction(1, 2))), "%s:pre(threshold one half)" % e.cur)
            o = record_object(p, st, "bands", BAND, m, band_val, "heap")
            made.append(o)
            vector_of(e, st, args[0], o, 16 * m)
            return [(st, "ret", None)]
        keep_contract(p, "ExtractFilterBands", find)

        def parametrize(e, st, args, ins):
            view(e, st, args[1], "the response")
            a, b = [e.load(st, Ptr(args[2].obj, args[2].off + 8 * k), PTR) for k in range(2)]
            e.require(st, And(T.bconst(a.obj in made and b.obj is a.obj), a.off.eq(0), b.off.eq(16 * m)), "%s:pre(its bands)" % e.cur)
            e.require(st, args[3].eq(R(Fraction(1, 2))), "%s:pre(threshold one half)" % e.cur)
            vector_of(e, st, args[0], record_object(p, st, "params", PARAM, m, param_val, "heap"), 24 * m)
            return [(st, "ret", None)]
        keep_contract(p, "ParametrizeFilterBands", parametrize)
        r = p.struct("r", [], 64)

        def post(p, st, v):
            if fn == "any":
                return classified(p, st, r, m)
            k = CALLS[fn]
            p.ensure(st, pattern(k, m), "returns only for its pattern of bands")
            for q, v in enumerate(fields(k)):
                p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(v), "field %d" % q)
        p.throws_ok = lambda p, st, v: p.ensure(st, Not(pattern(CALLS[fn], m)) if fn != "any" else T.bconst(False), "refuses only other kinds of filters")
        return p.run([r, x, Ptr(x.obj, 8 * n)], post)
    return job


def response(fn):
    """|H(e^(i w))| and arg H(e^(i w)) on the uniform grid from 0 to pi, of the size asked for or 20 (order + 1)"""
    def job(mod):
        p = Proof(mod, fn, budget=100)
        hint, order = p.size("hint"), p.int("order")
        p.requires(And(order.ge(0), order.lt(1 << 30)))
        s = p.struct("s", [], 128)
        N = ite(hint.gt(0), hint, 20 * (order + 1))
        W = lambda j: app("grid", (j,), "R")
        H = lambda j: [app("H%d" % q, (j,), "R") for q in range(2)]

        def ordered(e, st, args, ins):
            e.require(st, T.bconst(args[0].obj is s.obj and args[0].off.is_const() and args[0].off.const() == 0), "%s:pre(the order of the system)" % e.cur)
            return [(st, "ret", order)]
        keep_contract(p, "5orderEv", ordered)

        def linspace(e, st, args, ins):
            v, a, b, inc = args[:4]
            lo, hi = [e.load(st, Ptr(v.obj, v.off + 8 * q), PTR) for q in range(2)]
            e.require(st, And(a.eq(R(0)), b.eq(R(Fraction(math.pi))), inc if not isinstance(inc, Poly) else inc.eq(1)), "%s:pre(from 0 to pi, both included)" % e.cur)
            e.require(st, And(T.bconst(lo.obj is hi.obj), lo.off.eq(0), hi.off.eq(8 * N)), "%s:pre(the whole grid)" % e.cur)
            if lo.obj is not None:
                fill_new(e, st, lo.obj, N, 1, lambda j, q: W(j))
            return [(st, "ret", None)]
        keep_contract(p, "8LinSpaceI", linspace)

        def evaluate(e, st, args, ins):
            o, z = args[:2]
            e.require(st, T.bconst(o.obj is s.obj), "%s:pre(of the system)" % e.cur)
            re, im = [e.read(st, z.obj, z.off + 8 * q, F64) for q in range(2)]
            # the grid point is the one whose cosine was taken
            k = [g.args[1] for c in re.atoms() if c.args[0] == "m_cos" for g in c.args[1].atoms() if g.args[0] == "grid"]
            k = k[0] if k else None
            if k is not None:
                e.require(st, And(re.eq(app("m_cos", (W(k),), "R")), im.eq(app("m_sin", (W(k),), "R"))), "%s:pre(on the unit circle at the frequency of the grid)" % e.cur)
            elif e.emit:
                e.require(st, T.bconst(False), "%s:pre(on the unit circle at a frequency of the grid)" % e.cur)
            return [(st, "ret", [e.fresh_val(F64), e.fresh_val(F64)] if k is None else H(k))]
        keep_contract(p, "EclERKSt7complexI", evaluate)

        value = lambda f, j: app(f, tuple(H(j) if f == "cm_abs" else H(j)[::-1]), "R")

        def minv(li, ob, ent):
            return [lambda ctx, f=f: Content(ent, "fn", (I(0), 8 * ctx.k, lambda rst, off, ty: value(f, at8(off)) if ty == F64 and at8(off) is not None else p.e.fresh_val(ty))) for f in ("cm_abs", "m_atan2")]
        p.e.mem_inv = [minv]
        r = p.struct("r", [], 48)

        def post(p, st, v):
            for what, b, f in (("amplitude", 0, "cm_abs"), ("phase", 24, "m_atan2")):
                lo, hi = [p.e.load(st, Ptr(r.obj, I(b + 8 * q)), PTR) for q in range(2)]
                p.ensure(st, And(T.bconst(lo.obj is not None and lo.obj is hi.obj), lo.off.eq(0), hi.off.eq(8 * N)), "size of the %s" % what)
                p.ensure_all(st, lo, N, 8, lambda j, s_: value(f, j), what)
        return p.run([r, s, hint], post)
    return job


def response_impulse(mod):
    """the transform of the impulse padded with zeros to at least 2 hint - 1 samples (hint: ten times the impulse by default),
    half of the spectrum: its absolute values and angles, angle 0 where it is zero"""
    p = Proof(mod, "response_i", budget=100)
    n, hint = p.size("n"), p.size("hint")
    p.requires(Or(n.gt(0), hint.gt(0)))
    x = p.array("x", n)
    g = ite(hint.gt(0), hint, 10 * n)
    N = mx(n, 2 * g - 1)
    bins = idiv(N, I(2)) + 1
    F = lambda j, q: app("F%d" % q, (j,), "R")
    zero = lambda j: And(F(j, 0).eq(0), F(j, 1).eq(0))
    patched = lambda j, q: ite(zero(j), R(1 - q), F(j, q))
    made = {}

    def buffer(e, st, v, size, what):
        lo, hi = [e.load(st, Ptr(v.obj, v.off + 8 * q), PTR) for q in range(2)]
        e.require(st, And(T.bconst(lo.obj is not None and lo.obj is hi.obj), lo.off.eq(0), hi.off.eq(size)), "%s:pre(size of %s)" % (e.cur, what))
        return lo.obj

    def every(e, st, o, num, w, want, what, parts=1):
        t, j = st.fork(), fresh("j")
        t.assume(And(j.ge(0), j.lt(num)))
        for q in range(parts):
            e.require(t, e.read(t, o, w * j + 8 * q, F64).eq(want(j, q)), "%s:pre(%s)" % (e.cur, what))

    def fft(e, st, args, ins):
        o = buffer(e, st, args[1], 8 * N, "the padded impulse")
        every(e, st, o, N, 8, lambda j, q: ite(j.lt(n), X(j), R(0)), "the impulse padded with zeros")
        f = new_array(e, st, args[0], bins, 16)
        f.lanes = 2
        made["spectrum"] = f
        fill_new(e, st, f, bins, 2, F)
        return [(st, "ret", None)]
    keep_contract(p, "_ZN5dspbb3FftI", fft)

    def lanewise(nm, content):
        def h(e, st, args, ins):
            o = buffer(e, st, args[1], 16 * bins, "the spectrum")
            every(e, st, o, bins, 16, content, "the spectrum", 2)
            f = new_array(e, st, args[0], bins, 8)
            fill_new(e, st, f, bins, 1, lambda j, q: app(nm, (j,), "R"))
            return [(st, "ret", None)]
        return h
    keep_contract(p, "_ZN5dspbb3AbsI", lanewise("abs_of_F", F))
    keep_contract(p, "_ZN5dspbb3ArgI", lanewise("arg_of_patched_F", patched))

    def minv(li, ob, ent):
        if ob is not made.get("spectrum"):
            return []

        def val(rst, off, ty):
            for q in range(2):
                j = (off - 8 * q).divides_exact(16)
                if j is not None and ty == F64:
                    return patched(j, q)
            return p.e.fresh_val(ty)
        return [lambda ctx: Content(ent, "fn", (I(0), 16 * ctx.k, val))]
    p.e.mem_inv = [minv]
    r = p.struct("r", [], 48)

    def post(p, st, v):
        for what, b, f in (("amplitude", 0, "abs_of_F"), ("phase", 24, "arg_of_patched_F")):
            o = buffer(p.e, st, Ptr(r.obj, I(b)), 8 * bins, what)
            p.ensure_all(st, Ptr(o, I(0)), bins, 8, lambda j, s_: app(f, (j,), "R"), what)
        p.ensure(st, Implies(And(hint.gt(0), n.le(2 * hint - 1)), bins.eq(hint)), "the grid asked for when the impulse is not longer")
    return p.run([r, x, Ptr(x.obj, 8 * n), hint], post)


def jobs(thorough):
    out = [Job(fn, "e", extremum(fn)) for fn in EXTREMUM]
    out += [Job("bands", "b", bands_list)] + [Job("find_if[%s]" % w, "b", find_if(w)) for w in ("EUlRS0_E_E", "EUlRS0_E0_E")]
    out += [Job("extract", "x", extract)] + [Job(fn, "m", measure(fn)) for fn in MEASURE]
    out += [Job("ripple", "r", ripple)]
    out += [Job("edges_ripple", "g", edges_ripple)]
    out += [Job("edges_fit", "h", edges_fit), Job("fit_band", "i", fit_band)]
    out += [Job("parametrize", "p", parametrize)]
    out += [Job(fn, "f", response(fn)) for fn in RESPONSE]
    out += [Job("response_i", "j", response_impulse)]
    return out
