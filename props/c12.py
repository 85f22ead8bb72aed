"""C12: decimation, expansion, polyphase decomposition."""
from common import *

UNITS = {"n": dict(cpp="resample_basic.cpp", exports=["normalize"], keep=["5dspbb3SumI"]),
         "d": dict(cpp="resample_basic.cpp", exports="decimate_into decimate_new decimate_into_c expand_into expand_new decompose_into decompose_new phase cphase per_phase original phases".split())}
REPLAY = ["c12.cpp"]
LEVEL = "proof"
ASSUMPTIONS = []
BOUNDED = "float and complex elements"


def result_array(p, st, r, length, spec, nm="result", elt=8):
    begin, end = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
    p.ensure(st, T.bconst(begin.obj is end.obj), nm + " is one array")
    p.ensure(st, (end.off - begin.off).eq(elt * length), "size of the " + nm)
    if begin.obj is not None:
        p.ensure_all(st, begin, length, elt, spec, nm + " elements", ty=ft(elt))


def ceil_div(p, a, b, nm):
    """ghost q = ceil(a/b)"""
    q = p.int(nm, 0)
    p.requires(And((q * b).ge(a), (q * b).lt(a + b)))
    return q


def decimate(fn, new, cplx=False):
    def job(mod):
        p = Proof(mod, fn, budget=100, label="Decimate[%s]" % fn)
        na, rate = p.size("na"), p.size("rate", 1)
        no = ceil_div(p, na, rate, "no")
        w = 2 if cplx else 1
        a = p.array("a", w * na)
        spec = lambda j, s: app("a", (rate * j,), "R")
        if cplx:
            spec = lambda j, s: ite(imod(j, 2).eq(0), app("a", (2 * rate * idiv(j, 2),), "R"), app("a", (2 * rate * idiv(j, 2) + 1,), "R"))
        if new:
            r = p.struct("r", [], 24)
            return p.run([r, a, na, rate], lambda p, st, v: result_array(p, st, r, no, spec))
        o = p.array("o", w * no, readonly=False)
        return p.run([o, no, a, na, rate], lambda p, st, v: p.ensure_all(st, o, w * no, 8, spec, "o[j]=a[rate*j]"))
    return job


def expand(fn, new):
    def job(mod):
        p = Proof(mod, fn, budget=100, label="Expand[%s]" % fn)
        na, rate = p.size("na"), p.size("rate", 1)
        no = na * rate
        p.requires(no.le(1 << 36))
        a = p.array("a", na)
        spec = lambda j, s=None: ite(imod(j, rate).eq(0), app("a", (idiv(j, rate),), "R"), R(0))

        def minv(li, ob, ent):
            out = []
            for nm, i0, h in li.ints():
                if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob and i0 == I(0):
                    def cf(ctx, h=h, i0=i0):
                        def f(rst, offb, ty):
                            j = offb.divides_exact(8)
                            return p.e.fresh_val(ty) if j is None else spec(j)
                        return Content(ent, "fn", (i0, ctx.of(h), f))
                    out.append(cf)
            return out
        p.e.mem_inv = [minv]
        if new:
            r = p.struct("r", [], 24)
            return p.run([r, a, na, rate], lambda p, st, v: result_array(p, st, r, no, spec))
        o = p.array("o", no, readonly=False)
        return p.run([o, no, a, na, rate], lambda p, st, v: p.ensure_all(st, o, no, 8, spec, "o[j] = a[j/rate] at multiples of rate, else 0"))
    return job


def layout(p, size, n):
    """number of taps of the phases and where each phase starts"""
    q, r = idiv(size, n), imod(size, n)
    mn = lambda i: ite(r.le(i), r, i)
    return (lambda i: q * i + mn(i)), (lambda i: q + ite(i.lt(r), I(1), I(0)))


def phase_of(p, size, n, ks):
    """ghost: the phase that owns position j of the decomposed buffer; defined by  P(j) >= k <=> j >= offset(k)"""
    off, _ = layout(p, size, n)

    def facts(a):
        j = a.args[1]
        P = poly_of(a)
        out = [Implies(And(j.ge(0), j.lt(size)), And(P.ge(0), P.lt(n), off(P).le(j), j.lt(off(P + 1))))]
        for k in ks:
            out.append(Implies(And(j.ge(0), j.lt(size), k.ge(0), k.le(n)), T.Iff(P.ge(k), j.ge(off(k)))))
        return out
    p.pv.fact_gens["P"] = facts
    return lambda j: app("P", (j,), "I")


def decompose(fn, new):
    def job(mod):
        p = Proof(mod, fn, budget=200, label="PolyphaseDecompose[%s]" % fn)
        no, n = p.size("no", 1), p.size("n", 1)
        ks = []
        P = phase_of(p, no, n, ks)
        off, ln = layout(p, no, n)
        a = p.array("a", no)

        def spec(j, s=None):
            ph = P(j)
            return to_real(n) * app("a", (ph + n * (off(ph + 1) - 1 - j),), "R")

        def minv(li, ob, ent):
            out = []
            for nm, i0, h in li.ints():
                if isinstance(li.hdr[nm], Ptr) or i0 != I(0):
                    continue

                def cf(ctx, h=h):
                    m = ctx.of(h)
                    for x in (m, m + 1):
                        if x not in ks:
                            ks.append(x)

                    def f(rst, offb, ty):
                        j = offb.divides_exact(8)
                        return p.e.fresh_val(ty) if j is None else spec(j)
                    return Content(ent, "fn", (I(0), 8 * off(m), f))
                out.append(cf)
            return out
        p.e.mem_inv = [minv]
        if new:
            r = p.struct("r", [], 48)
            return p.run([r, a, no, n], lambda p, st, v: result_array(p, st, r, no, spec))
        o = p.array("o", no, readonly=False)
        return p.run([o, no, a, no, n], lambda p, st, v: p.ensure_all(st, o, no, 8, spec, "tap k scaled by the number of phases goes to phase k mod n, reversed"))
    return job


def sum_contract(e, st, args, ins):
    """Sum(view): the sum of the elements of the view (proved for C03)"""
    v = args[0]
    b, x = e.read(st, v.obj, v.off, PTR), e.read(st, v.obj, v.off + 8, PTR)
    if b.obj is None:
        return [(st, "ret", R(0))]
    e.require(st, And(b.off.ge(0), x.off.le(b.obj.size), T.bconst(b.obj is x.obj)), "%s:pre(Sum: the view lies inside its array)" % e.cur)
    n = idiv(x.off - b.off, 8)

    def body(k):
        s = st.fork()
        s.assume(And(k.ge(0), k.lt(n)))
        return e.read(s, b.obj, b.off + 8 * k, F64)
    return [(st, "ret", Sum(I(0), n, body))]


def normalize(mod):
    p = Proof(mod, "normalize", budget=200, label="PolyphaseNormalize")
    keep_contract(p, "5dspbb3SumI", sum_contract)
    no, n = p.size("no"), p.size("n", 1)
    ks = []
    P = phase_of(p, no, n, ks)
    off, ln = layout(p, no, n)
    o = p.array("o", no, readonly=False)

    def spec(j, s=None):
        ph = P(j)
        return app("o", (j,), "R") * rinv(Sum(I(0), off(ph + 1) - off(ph), lambda i: app("o", (off(ph) + i,), "R")))

    def minv(li, ob, ent):
        out = []
        for nm, i0, h in li.ints():
            if isinstance(li.hdr[nm], Ptr) or i0 != I(0):
                continue

            def cf(ctx, h=h):
                m = ctx.of(h)
                for x in (m, m + 1):
                    if x not in ks:
                        ks.append(x)

                def f(rst, offb, ty):
                    j = offb.divides_exact(8)
                    return p.e.fresh_val(ty) if j is None else spec(j)
                return Content(ent, "fn", (I(0), 8 * off(m), f))
            out.append(cf)
        return out
    p.e.mem_inv = [minv]
    return p.run([o, no, n], lambda p, st, v: p.ensure_all(st, o, no, 8, spec, "every tap is divided by the sum of its phase"))


def view(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="PolyphaseView::operator[] (%s)" % fn)
        no, n = p.size("no"), p.size("n", 1)
        i = p.size("i")
        p.requires(i.lt(n))
        off, ln = layout(p, no, n)
        o, r = p.array("o", no, readonly=fn == "cphase"), p.struct("r", [], 16)

        def post(p, st, v):
            b, e = p.e.read(st, r.obj, I(0), PTR), p.e.read(st, r.obj, I(8), PTR)
            if b.obj is None:
                p.ensure(st, And(ln(i).eq(0), T.bconst(e.obj is None)), "the phase is part of the buffer")
                return
            p.ensure(st, T.bconst(b.obj is o.obj and e.obj is o.obj), "the phase is part of the buffer")
            p.ensure(st, b.off.eq(8 * off(i)), "the phase starts after the previous ones")
            p.ensure(st, e.off.eq(8 * off(i + 1)), "the phase ends where the next one starts")
            p.ensure(st, (e.off - b.off).eq(8 * ln(i)), "phase length")
        return p.run([r, o, no, n, i], post)
    return job


def scalar(fn, want):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="PolyphaseView::" + fn)
        no, n = p.size("no"), p.size("n", 1)
        o = p.array("o", no)
        return p.run([o, no, n], lambda p, st, v: [p.ensure(st, c, nm) for c, nm in want(v, no, n)])
    return job


def jobs(thorough):
    return [Job("decimate_into", "d", decimate("decimate_into", False)), Job("decimate_new", "d", decimate("decimate_new", True)),
            Job("decimate_into_c", "d", decimate("decimate_into_c", False, True)),
            Job("expand_into", "d", expand("expand_into", False)), Job("expand_new", "d", expand("expand_new", True)),
            Job("decompose_into", "d", decompose("decompose_into", False)), Job("decompose_new", "d", decompose("decompose_new", True)),
            Job("normalize", "n", normalize), Job("phase", "d", view("phase")), Job("cphase", "d", view("cphase")),
            Job("per_phase", "d", scalar("per_phase", lambda v, no, n: [(And((v * n).ge(no), ((v - 1) * n).lt(no)), "the length of the longest phase")])),
            Job("original", "d", scalar("original", lambda v, no, n: [(v.eq(no), "all taps")])),
            Job("phases", "d", scalar("phases", lambda v, no, n: [(v.eq(n), "number of phases")]))]
