"""C07: overlap-add convolution."""
import re
import time
from common import *
import sigops
import c19
from fractions import Fraction as Q
from engine import Obligation
POCKET = ["6detail3r2cI", "6detail3c2cI", "6detail3c2rI"]
OLA = r"re:5dspbb10OverlapAddI.*mmb$"

KEEP = ["OptimalPracticalSize", "5dspbb3FftI", "5dspbb4IfftI", "re:5dspbbmlIN?R?K?S?_?.*BasicSignal", "re:5dspbbpLIR?K?NS_.*BasicSignal"]
TYPES = {"rr": [], "cr": ["-DA_C"], "rc": ["-DB_C"], "cc": ["-DA_C", "-DB_C"]}
NEW = "o_range_new o_full_new o_central_new".split()
UNITS = {k: dict(cpp="ola.cpp", exports=["o_range"], keep=KEEP, drop=POCKET, defines=d) for k, d in TYPES.items()}
UNITS.update({"a" + k: dict(cpp="ola.cpp", exports=["o_full", "o_central"] + NEW, keep=[OLA], drop=POCKET, defines=["-DAPI"] + d) for k, d in TYPES.items()})
UNITS["size"] = dict(cpp="ola.cpp", exports=["next_pow2", "practical", "theoretical"], keep=["OptimalTheoreticalSize", "NextPowerOfTwo"], defines=["-DSIZES"])
REPLAY = [("c07.cpp", ["-DPART%d" % k]) for k in (1, 2, 3)]
LEVEL = "proof"
ASSUMPTIONS = ["Fft and Ifft compute the discrete transform and its inverse (dspbb's wrapper is under contract in C20; pocketfft itself is assumed)",
               "the convolution theorem (mathematics)",
               "products and sums of spectra and signals are elementwise (under contract in C01)",
               "the output does not overlap the operands",
               "facts of the real logarithm: tangent bound, log 2 > 0.69, log(2^43) < 30"]
BOUNDED = "float elements; rounding (samples within 1e-9 of the direct sum, relative to the operands); quick: complex-by-complex and real-by-complex bodies, and half of the complex-by-real cases (thorough proves them)"


def comps_of(t):
    return 2 if "complex" in t else 1


def first_type(fn):
    return comps_of(re.search(r"BasicSignal(?:View)?IK?(d|St7complexIdE)", fn).group(1))


def new_array(e, st, ret, n, w):
    """result signal: a fresh array of n elements of w bytes"""
    o = e.new_obj(st, "result%d" % len(st.mem), w * n, "heap")
    o.elt = 8
    for k, x in enumerate((I(0), w * n, w * n)):
        e.store(st, Ptr(ret.obj, ret.off + 8 * k), PTR, Ptr(o, x))
    return o


def fill_new(e, st, o, n, comps, val):
    sigops.overwrite(e, st, Ptr(o, I(0)), n, 8 * comps, comps, lambda j, q, old: val(j, q))


class Transform:
    """ghost: the spectrum object holds the transform of this sequence"""
    count = 0

    def __init__(self, n, comps, elem):
        Transform.count += 1
        self.n, self.comps, self.elem, self.name = n, comps, elem, "F%d" % Transform.count

    def bin(self, k):
        return app(self.name + "re", (k,), "R"), app(self.name + "im", (k,), "R")


def reader(e, st, b, comps):
    s0 = st.fork()

    def elem(j, q, cond=TRUE):
        s = st.fork()
        s.mem = dict(s0.mem)
        s.assume(cond)
        return e.read(s, b.obj, b.off + 8 * (comps * j + q), F64)
    return elem


def fft(fn):
    ci = first_type(fn)
    half = "FFT_HALF" in fn

    def h(e, st, args, ins):
        ret, a = args[:2]
        b, n = sigops.span(e, st, a, 8 * ci)
        e.require(st, n.ge(1), "%s:pre(Fft: not empty)" % e.cur)
        if b.obj is None:
            return []
        t = Transform(n, ci, reader(e, st, b, ci))
        m = idiv(n, 2) + 1 if half else n
        o = new_array(e, st, ret, m, 16)
        fill_new(e, st, o, m, 2, lambda j, q: t.bin(j)[q])
        o.ghost = t
        return [(st, "ret", None)]
    return h


def ifft(fn):
    """inverse transform of the bin-by-bin product of two transforms: the circular convolution"""
    half = "FFT_HALF" in fn

    def h(e, st, args, ins):
        ret, a = args[:2]
        e.assumed.add("circular convolution theorem: the inverse transform of a product of transforms is the circular convolution (mathematics, not verified)")
        b, m = sigops.span(e, st, a, 16)
        if b.obj is None:
            e.require(st, FALSE, "%s:pre(Ifft: not empty)" % e.cur)
            return []
        k = T.fresh("bin")
        s = st.fork()
        s.assume(And(k.ge(0), k.lt(m)))
        x = [e.read(s, b.obj, b.off + 16 * k + 8 * q, F64) for q in (0, 1)]
        gs = [o.ghost for o in st.mem if hasattr(o, "ghost")]
        for A, B in [(A, B) for i, A in enumerate(gs) for B in gs[i + 1:]]:
            (ar, ai), (br, bi) = A.bin(k), B.bin(k)
            goal = And(x[0].eq(ar * br - ai * bi), x[1].eq(ar * bi + ai * br))
            if goal is TRUE or e.pv.prove(s.pc, goal) == "proved":
                break
        else:
            e.require(st, FALSE, "%s:pre(Ifft: the spectrum is the product of two transforms)" % e.cur)
            return []
        n = A.n
        e.require(st, B.n.eq(n), "%s:pre(Ifft: both transforms have the same length)" % e.cur)
        if half:
            ev = args[2] if not isinstance(args[2], Poly) else args[2].ne(0)
            e.require(st, And(m.eq(idiv(n, 2) + 1), ite(ev, I(0), I(1)).eq(imod(n, 2)), T.bconst(A.comps == 1 and B.comps == 1)), "%s:pre(Ifft: half spectrum of a real sequence)" % e.cur)
        else:
            e.require(st, m.eq(n), "%s:pre(Ifft: all bins)" % e.cur)
        comps = 1 if half else 2
        o = new_array(e, st, ret, n, 8 * comps)
        fill_new(e, st, o, n, comps, lambda j, q: circular(A, B, n, j, q))
        return [(st, "ret", None)]
    return h


def cmul(A, B, i, j, q, ca, cb):
    """component q of A[i] B[j]"""
    x = [A.elem(i, k, ca) for k in range(A.comps)] + [R(0)]
    y = [B.elem(j, k, cb) for k in range(B.comps)] + [R(0)]
    return x[0] * y[1] + x[1] * y[0] if q else x[0] * y[0] - x[1] * y[1]


def circular(A, B, n, j, q):
    """sum over i of A[i] B[(j-i) mod n]"""
    lo = Sum(I(0), j + 1, lambda i: cmul(A, B, i, j - i, q, And(i.ge(0), i.le(j)), And(i.ge(0), i.le(j))))
    hi = Sum(j + 1, n, lambda i: cmul(A, B, i, j - i + n, q, And(i.gt(j), i.lt(n)), And(i.gt(j), i.lt(n))))
    return lo + hi


def product(e, st, args, ins):
    ret, a, b2 = args[:3]
    (x, n), (y, ny) = sigops.span(e, st, a, 16), sigops.span(e, st, b2, 16)
    e.require(st, n.eq(ny), "%s:pre(product: equal lengths)" % e.cur)
    o = new_array(e, st, ret, n, 16)
    rx, ry = reader(e, st, x, 2), reader(e, st, y, 2)

    def val(j, q):
        c = And(j.ge(0), j.lt(n))
        a, b, c_, d = rx(j, 0, c), rx(j, 1, c), ry(j, 0, c), ry(j, 1, c)
        return a * d + b * c_ if q else a * c_ - b * d
    fill_new(e, st, o, n, 2, val)
    return [(st, "ret", None)]


def accumulate(comps):
    def h(e, st, args, ins):
        (b, n), (x, nx) = sigops.span(e, st, args[0], 8 * comps), sigops.span(e, st, args[1], 8 * comps)
        e.require(st, n.eq(nx), "%s:pre(operator+=: equal lengths)" % e.cur)
        if b.obj is not None and x.obj is not None:
            sigops.overwrite(e, st, b, n, 8 * comps, comps, lambda j, q, old: old(b, j, q) + old(x, j, q))
        return [(st, "ret", args[0])]
    return h


def practical(e, st, args, ins):
    """OptimalPracticalSize(long, short): enough for one filtered block (proved below)"""
    n, m = args[:2]
    e.require(st, And(n.ge(m), m.ge(1)), "%s:pre(OptimalPracticalSize: longer operand first)" % e.cur)
    r = T.fresh("chunk")
    st.assume(And(r.ge(2 * m - 1), r.ge(1), r.le(2 * (m + n))))
    return [(st, "ret", r)]


def operands(fn):
    """components of the result and of the two operands of an OverlapAdd instantiation"""
    body = fn[fn.index("OverlapAddI"):]
    ts = re.findall(r"BasicSignal(?:View)?IK?(d|St7complexIdE|S\d?_)", body)
    return ts


def ola_contract(cu, cv):
    """OverlapAdd(out, u, v, offset, chunk, clear) for component counts of u and v"""
    co = max(cu, cv)

    def h(e, st, args, ins):
        o, u, v, off, chunk, clear = args
        (po, no), (pu, nu), (pv, nv) = [sigops.span(e, st, x, 8 * c) for x, c in ((o, co), (u, cu), (v, cv))]
        short = ite(nu.le(nv), nu, nv)
        full = ite(short.eq(0), I(0), nu + nv - 1)
        e.require(st, (off + no).le(full), "%s:pre(OverlapAdd: output inside the full convolution)" % e.cur)
        e.require(st, Or(no.eq(0), chunk.eq(0), chunk.ge(2 * short - 1)), "%s:pre(OverlapAdd: chunk holds a filtered block)" % e.cur)
        if po.obj is None:
            return [(st, "ret", None)]
        e.require(st, T.bconst(po.obj is not pu.obj and po.obj is not pv.obj), "%s:pre(OverlapAdd: output does not overlap the operands)" % e.cur)
        cl = clear if not isinstance(clear, Poly) else clear.ne(0)
        if not e.pv.feasible(st.pc, (no.ge(1),)):
            return [(st, "ret", None)]
        s0 = st.fork()

        def val(j, q, old):
            N = off + j

            def body(k):
                s2 = s0.fork()
                s2.assume(And(k.ge(0), k.le(N)))
                x = [celem(e, s2, pu, nu, k, cu, i) for i in range(cu)] + [R(0)]
                y = [celem(e, s2, pv, nv, N - k, cv, i) for i in range(cv)] + [R(0)]
                return x[0] * y[1] + x[1] * y[0] if q else x[0] * y[0] - x[1] * y[1]
            return Sum(I(0), N + 1, body) + ite(cl, R(0), old(po, j, q))
        sigops.overwrite(e, st, po, no, 8 * co, co, val)
        return [(st, "ret", None)]
    return h


def celem(e, st, p, n, i, comps, q):
    """component q of element i of the array at p, zero outside [0,n)"""
    s = st.fork()
    c = And(i.ge(0), i.lt(n))
    if p.obj is None:
        return R(0)
    s.assume(c)
    if not e.pv.feasible(s.pc):
        return R(0)
    return ite(c, e.read(s, p.obj, p.off + 8 * (comps * i + q), F64), R(0))


def attach(p, mod):
    for fn in mod.funcs:
        f = fn[1:].strip('"')
        if "5dspbb3FftI" in f:
            p.e.contracts[f] = fft(f)
        elif "5dspbb4IfftI" in f:
            p.e.contracts[f] = ifft(f)
        elif re.match(r"_ZN5dspbbmlI.*BasicSignal", f):
            p.e.contracts[f] = product
        elif re.match(r"_ZN5dspbbpLI.*BasicSignal", f):
            p.e.contracts[f] = accumulate(first_type(f))


def zext(name, comps, n):
    """element i of an array of real or complex numbers, as [real, imaginary], zero outside [0,n)"""
    def f(i):
        return [ite(And(i.ge(0), i.lt(n)), app(name, (comps * i + q,), "R"), R(0)) for q in range(comps)] + [R(0)] * (2 - comps)
    return f


def times(x, y, q):
    return x[0] * y[1] + x[1] * y[0] if q else x[0] * y[0] - x[1] * y[1]


def by_component(spec, co):
    """spec(j, q) of element j, component q, as a function of the index into the array of numbers"""
    if co == 1:
        return lambda m: spec(m, 0)
    return lambda m: ite(imod(m, 2).eq(0), spec(idiv(m, 2), 0), spec(idiv(m, 2), 1))


def ola(case, unit):
    cu, cv = [2 if c == "c" else 1 for c in unit]
    co = max(cu, cv)

    def job(mod):
        p = Proof(mod, "o_range", budget=250, label="OverlapAdd<%s>[%s]" % (unit, ",".join(case)))
        attach(p, mod)
        keep_contract(p, "5dspbb10OverlapAddI", ola_contract(cu, cv))
        keep_contract(p, "OptimalPracticalSize", practical)
        no = p.size("no")
        # lengths: the shorter operand empty, of one element, or longer
        sh = I(0) if "none" in case else I(1) if "one" in case else p.size("nshort", 2 if "many" in case else 0)
        ln = p.size("nlong")
        nu, nv = (sh, ln) if "swap" in case else (ln, sh)
        u, v, o = p.array("u", cu * nu), p.array("v", cv * nv), p.array("o", co * no, readonly=False)
        o.obj.lanes = co
        off, chunk = p.size("off"), p.size("chunk")
        clear = p.int("clear", 0, 1)
        short = ite(nu.le(nv), nu, nv)
        p.requires((off + no).le(ite(short.eq(0), I(0), nu + nv - 1)))
        p.requires(And(*[dict(swap=nu.lt(nv), noswap=nu.ge(nv), clear=clear.eq(1), keep=clear.eq(0), none=TRUE, one=TRUE, many=TRUE,
                              auto=chunk.eq(0), chunk=And(chunk.ge(1), chunk.ge(2 * short - 1)))[c] for c in case]))
        U, V = zext("u", cu, nu), zext("v", cv, nv)

        def part(N, m, q):
            """terms of the convolution sum with index into the longer operand below m"""
            if "swap" in case:
                return Sum(I(0), m, lambda k: times(U(N - k), V(k), q))
            return Sum(I(0), m, lambda k: times(U(k), V(N - k), q))

        def minv(li, ob, ent):
            out = []
            if ob is not o.obj:
                return out
            for nm, i0, h in li.ints():
                if isinstance(li.hdr[nm], Ptr):
                    continue

                def cf(ctx, h=h):
                    m = ctx.of(h)

                    def f(rst, offb, ty):
                        s = rst.fork()
                        s.mem = dict(s.mem)
                        s.mem[ob] = ent
                        for q in range(co):
                            j = (offb - 8 * q).divides_exact(8 * co)
                            if j is not None:
                                return p.e.read(s, ob, offb, ty) + part(off + j, m, q)
                        j = offb.divides_exact(8)
                        if j is None:
                            return p.e.fresh_val(ty)
                        return p.e.read(s, ob, offb, ty) + by_component(lambda i, q: part(off + i, m, q), co)(j)
                    return Content(ent, "fn", (I(0), 8 * co * no, f))
                out.append(cf)
            return out
        p.e.mem_inv = [minv]

        def post(p, st, r):
            if "none" in case:
                return p.ensure(st, no.eq(0), "nothing to write")
            for q in range(co):
                p.ensure_all(st, Ptr(o.obj, 8 * q), no, 8 * co, lambda j, s, q=q: part(off + j, nv if "swap" in case else nu, q) + ite(clear.eq(1), R(0), app("o", (co * j + q,), "R")), "every sample is the convolution sum")
        return p.run([o, no, u, nu, v, nv, off, chunk, clear.eq(1)], post)
    return job


def cases(t):
    both = [(c, k) for c in ("clear", "keep") for k in ("chunk", "auto")]
    split = [(m, *x) for m in ("many", "one") for x in both] + [("none",)]
    # in the mixed case the call with swapped operands is another instantiation, inlined here
    return [("swap", *x) for x in ([("chunk",), ("auto",)] if t[0] == t[1] else split)] + [("noswap", *x) for x in split]


def api(fn, unit):
    cu, cv = [2 if c == "c" else 1 for c in unit]
    co = max(cu, cv)

    def job(mod):
        p = Proof(mod, fn, budget=100, label="%s<%s>" % (fn, unit))
        keep_contract(p, "5dspbb10OverlapAddI", ola_contract(cu, cv))
        nu, nv, chunk = p.size("nu"), p.size("nv"), p.size("chunk")
        u, v = p.array("u", cu * nu), p.array("v", cv * nv)
        short, long = ite(nu.le(nv), nu, nv), ite(nu.le(nv), nv, nu)
        full = ite(short.eq(0), I(0), nu + nv - 1)
        p.requires(Or(chunk.eq(0), chunk.ge(2 * short - 1)))
        U, V = zext("u", cu, nu), zext("v", cv, nv)
        clear, off, extra = None, I(0), []
        if "full" in fn:
            no = full
        elif "central" in fn:
            no, off = ite(short.eq(0), I(0), long - short + 1), ite(short.eq(0), I(0), short - 1)
        else:
            no, off = p.size("len"), p.size("off")
            p.requires((off + no).le(full))
            extra = [off, no]

        def part(j, q):
            N = off + j
            return Sum(I(0), N + 1, lambda k: times(U(k), V(N - k), q))

        def chk(p, st, ptr, old):
            for q in range(co):
                p.ensure_all(st, Ptr(ptr.obj, ptr.off + 8 * q), no, 8 * co, lambda j, s, q=q: part(j, q) + old(j, q), "every sample is the convolution sum")
        if fn.endswith("new"):
            r = p.struct("r", [], 24)

            def post(p, st, x):
                b, e_ = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
                p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * co * no)), "length of the result")
                if b.obj is not None:
                    chk(p, st, b, lambda j, q: R(0))
            return p.run([r, u, nu, v, nv] + extra + [chunk], post)
        o = p.array("o", co * no, readonly=False)
        clear = p.int("clear", 0, 1)
        return p.run([o, no, u, nu, v, nv] + extra + [chunk, clear.eq(1)], lambda p, st, x: chk(p, st, o, lambda j, q: ite(clear.eq(1), R(0), app("o", (co * j + q,), "R"))))
    return job


def theoretical_contract(e, st, args, ins):
    m = args[0]
    e.require(st, m.ge(1), "%s:pre(OptimalTheoreticalSize: not empty)" % e.cur)
    r = T.fresh("theory", "R")
    st.assume(And(r.ge(2 * m), r.le(64 * m + 64)))
    return [(st, "ret", r)]


def pow2_contract(e, st, args, ins):
    n = args[0]
    e.require(st, n.lt(1 << 63), "%s:pre(NextPowerOfTwo)" % e.cur)
    r = T.fresh("pow2")
    st.assume(And(r.ge(n), Or(r.lt(2 * n), r.eq(0))))
    return [(st, "ret", r)]


def next_pow2(mod):
    p = Proof(mod, "next_pow2", budget=30)
    n = p.size("n")
    p.e.loop_cands = [lambda li: [c for _, _, h in li.ints() for c in (h.ge(1), h.lt(2 * n))]]
    return p.run([n], lambda p, st, v: p.ensure(st, And(v.ge(n), Or(v.lt(2 * n), n.eq(0))), "at least the argument, less than twice the argument"))


def practical_size(mod):
    p = Proof(mod, "practical", budget=30)
    keep_contract(p, "OptimalTheoreticalSize", theoretical_contract)
    keep_contract(p, "NextPowerOfTwo", pow2_contract)
    p.pv.fact_gens["floor"] = c19.floor_facts
    n, m = p.size("n"), p.size("m", 1)
    p.requires(n.ge(m))
    return p.run([n, m], lambda p, st, v: p.ensure(st, And(v.ge(2 * m - 1), v.ge(1), v.le(2 * (m + n))), "the chunk holds a filtered block"))


def newton_lemma():
    """one Newton step of the cost derivative from within [2m, 64m] stays there.  l = log x and k = log 2m are only
    bounded by facts of the logarithm: k >= log 2 > 0.69; k <= l + (2m - x)/x (the tangent at x); l <= 30 (x <= 2^43)"""
    import z3
    m, x, l, k, i, w = z3.Reals("m x l k i w")
    h = [m >= 1, x >= 2 * m, x <= 64 * m, i * x == 1, w * (m * i - 1) == 1, k >= z3.Q(69, 100), k <= l + (2 * m - x) * i, l <= 30]
    g = m * (z3.Q(4, 3) + l) - x
    for goal in (x - w * g >= 2 * m, x - w * g <= 64 * m):
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 30000)
        s.add(h)
        s.add(z3.Not(goal))
        if s.check() != z3.unsat:
            return False
    return True


def theoretical_size(mod):
    """Newton's iteration on a concave function stays right of twice the filter size"""
    p = Proof(mod, "theoretical", budget=60)
    m = p.real("m")
    p.requires(And(m.ge(1), m.le(1 << 36)))
    name = "m_log"
    t = time.time()
    ok = newton_lemma()
    p.e.obls.append(Obligation("theoretical/lemma: a Newton step stays within [2m, 64m]", "proved" if ok else "failed", "QF_NRA", time.time() - t))
    p.e.assumed.add("facts of the real logarithm: tangent bound, log 2 > 0.69, log(2^43) < 30")

    def facts(at):
        x, l = at.args[1], poly_of(at)
        nxt = x - (m * 16 + R(12) * (m * l - x)) * rinv(R(12) * (m * rinv(x) - 1))
        return [Implies(And(x.ge(2 * m), x.le(64 * m)), And(nxt.ge(2 * m), nxt.le(64 * m)))]
    p.pv.fact_gens[name] = facts if ok else lambda at: []
    p.e.loop_cands = [lambda li: [c for h in li.hdr.values() if isinstance(h, Poly) and h.sort == "R" for c in (h.ge(2 * m), h.le(64 * m))]]
    return p.run([m], lambda p, st, v: p.ensure(st, And(v.ge(2 * m), v.le(64 * m + 64)), "at least twice the filter length"))


def jobs(thorough):
    quick = lambda t, c: t == "rr" or t == "cr" and (c[0] == "noswap" and c[1:] in (("many", "clear", "auto"), ("many", "keep", "chunk"), ("none",)))
    J = [Job("OverlapAdd<%s>[%s]" % (t, ",".join(c)), t, ola(c, t)) for t in TYPES for c in cases(t) if thorough or quick(t, c)]
    J += [Job("%s<%s>" % (f, t), "a" + t, api(f, t)) for t in TYPES for f in ["o_full", "o_central"] + NEW]
    return J + [Job("next_pow2", "size", next_pow2), Job("practical", "size", practical_size), Job("theoretical", "size", theoretical_size)]
