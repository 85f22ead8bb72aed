"""C17: FIR design formulas."""
from common import *
import re
import math
from fractions import Fraction
import sigops

PI = R(Fraction(math.pi))
TRANS = "mirror mirror_self complement complement_self shift shift_self".split()
UNITS = {"t": dict(cpp="firdesign.cpp", exports=TRANS, keep=sigops.KEEP_ARITH),
         "h": dict(cpp="firdesign.cpp", exports=["hilbert_odd", "hilbert_self", "hilbert_even"], keep=["5dspbb8MultiplyI", "5dspbb8DecimateI"]),
         "l": dict(cpp="firdesign.cpp", exports=["lowpass_view", "lowpass_func"], keep=sigops.KEEP_ARITH + ["5dspbb3SumI"]),
         "d": dict(cpp="firdesign.cpp", exports="design_lowpass design_highpass design_bandpass design_bandstop".split(), keep=["3fir21KernelWindowedLowpassI", "3fir21ComplementaryResponseI", "3fir13ShiftResponseI", "20ThrowIfNotNormalizedI", "16ThrowIfNotSortedI"])}
REPLAY = [("c17.cpp", ["-DPART1"]), "c17.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["Sine is odd and cosine even, cos 0 = 1; otherwise both are uninterpreted functions of their real argument.",
               "Products of signals, Sum and Decimate are used through their contracts (proved for C01, C03, C12).",
               "A window functor overwrites every element of the signal it is given and does nothing else (C18)."]
BOUNDED = "KernelWindowedArbitrary (needs the inverse transform), the windowed Hilbert designs, float designs and the library's own window functors are compared with the formulas for tap counts up to 65 (and up to 255)."


def signals(p):
    """products of signals with signals and numbers (proved in C01), Sum (C03), Decimate (C12)"""
    for fn in p.mod.funcs:
        nm = fn[1:].strip('"')
        if re.match(r"_ZN5dspbb(mLI|8MultiplyI)", nm):
            assign = "mLI" in nm[:12]
            number = re.search(r"EEE(S\d_)?dEE", nm) is not None
            p.e.contracts[nm] = lambda e, st, args, ins, assign=assign, number=number: product(e, st, args, assign, number)
        if re.match(r"_ZN5dspbb3SumI", nm):
            import c12
            p.e.contracts[nm] = c12.sum_contract
        if re.match(r"_ZN5dspbb8DecimateI", nm):
            p.e.contracts[nm] = decimate


def product(e, st, args, assign, number):
    b, n = sigops.span(e, st, args[0], 8)
    a, na = (b, n) if assign else sigops.span(e, st, args[1], 8)
    last = args[1] if assign else args[2]
    e.require(st, n.eq(na), "%s:pre(product: equal lengths)" % e.cur)
    if number:
        c = e.read(st, last.obj, last.off, F64)
        sigops.overwrite(e, st, b, n, 8, 1, lambda j, q, old: old(a, j) * c)
    else:
        x, nx = sigops.span(e, st, last, 8)
        e.require(st, n.eq(nx), "%s:pre(product: equal lengths)" % e.cur)
        sigops.overwrite(e, st, b, n, 8, 1, lambda j, q, old: old(a, j) * old(x, j))
    return [(st, "ret", args[0] if assign else None)]


def decimate(e, st, args, ins):
    (b, n), (a, na), rate = sigops.span(e, st, args[0], 8), sigops.span(e, st, args[1], 8), args[2]
    e.require(st, And(rate.ge(1), (n * rate).ge(na), (n * rate).lt(na + rate)), "%s:pre(Decimate: size of the output)" % e.cur)
    sigops.overwrite(e, st, b, n, 8, 1, lambda j, q, old: old(a, rate * j))
    return [(st, "ret", None)]


def operand(p, self_, n=None):
    """output and input arrays, the same one or two"""
    n = p.size("n") if n is None else n
    o = p.array("a", n, readonly=False) if self_ else p.array("o", n, readonly=False)
    a = o if self_ else p.array("a", n)
    return n, o, a, [o, n] if self_ else [o, n, a, n]


def mirror(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="MirrorResponse[%s]" % fn)
        n, o, a, args = operand(p, fn.endswith("self"))
        sign = lambda j: app("sign", (j,), "R")
        p.pv.fact_gens["sign"] = lambda a: [Implies(imod(a.args[1], 2).eq(0), poly_of(a).eq(1)), Implies(imod(a.args[1], 2).eq(1), poly_of(a).eq(-1)),
                                          Implies(imod(a.args[1], 2).eq(0), val(a.args[1]).eq(app("a", (a.args[1],), "R"))), Implies(imod(a.args[1], 2).eq(1), val(a.args[1]).eq(-app("a", (a.args[1],), "R")))]
        val = lambda j: sign(j) * app("a", (j,), "R")

        def cands(li):
            return [v.eq(sign(h)) for v in li.hdr.values() if isinstance(v, Poly) and v.sort == "R" for nm, i0, h in li.ints()]
        p.e.loop_cands = [cands]
        progress(p, o, lambda k, j: j.lt(k), val)
        return p.run(args, lambda p, st, v: p.ensure_all(st, o, n, 8, lambda j, s: val(j), "odd taps change sign"))
    return job


def progress(p, o, *dones_val):
    """loop candidates: the elements that are done (in either order) hold their value"""
    dones, val = dones_val[:-1], dones_val[-1]

    def minv(li, ob, ent):
        if ob is not o.obj:
            return []

        def content(done):
            def cf(ctx):
                def f(rst, offb, ty):
                    j = offb.divides_exact(8)
                    if j is None or ty != F64:
                        return p.e.fresh_val(ty)
                    return ite(done(ctx.k, j), val(j), p.e.read(rst, ob, offb, ty, content=ent))
                return Content(ent, "fn", (I(0), ob.size, f))
            return cf
        return [content(d) for d in dones]
    p.e.mem_inv = [minv]


def complement(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="ComplementaryResponse[%s]" % fn)
        signals(p)
        n, o, a, args = operand(p, fn.endswith("self"))
        p.requires(imod(n, 2).eq(1))
        val = lambda j, s: ite((2 * j + 1).eq(n), 1 - app("a", (j,), "R"), -app("a", (j,), "R"))
        return p.run(args, lambda p, st, v: p.ensure_all(st, o, n, 8, val, "every tap is negated, one is added to the middle tap"))
    return job


def shift(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="ShiftResponse[%s]" % fn)
        signals(p)
        h = p.size("h")
        n, o, a, args = operand(p, fn.endswith("self"), 2 * h + 1)
        f = p.real("f")
        c = lambda j: app("m_cos", ((to_real(j) - to_real(h)) * (PI * f),), "R")
        progress(p, o, lambda k, j: Or(j.lt(k), (n - 1 - j).lt(k)), lambda j: ite((2 * j).lt(n), c(j), c(n - 1 - j)) * app("a", (j,), "R"))
        return p.run(args + [f], lambda p, st, v: p.ensure_all(st, o, n, 8, lambda j, s: 2 * c(j) * app("a", (j,), "R"), "every tap is multiplied by twice the cosine"))
    return job


def sinc(h, c):
    """impulse response of the ideal low-pass filter, one at the middle tap h"""
    def f(j):
        x = (to_real(j) - to_real(h)) * (PI * c)
        return ite(j.eq(h), R(1), app("m_sin", (x,), "R") * T.rinv(x))
    return f


def lowpass(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="KernelWindowedLowpass[%s]" % fn)
        signals(p)
        h = p.size("h")
        n = 2 * h + 1
        o = p.array("o", n, readonly=False)
        c = p.real("c")
        win = lambda j: app("w", (j,), "R")
        S = sinc(h, c)
        # from the ends inwards, or from the middle outwards
        orders = [lambda k, j: Or(j.lt(k), (n - 1 - j).lt(k)), lambda k, j: And((j - h).le(k), (h - j).le(k), Not(j.eq(h)))]
        if fn.endswith("view"):
            w = p.array("w", n)
            args = [o, n, c, w, n]
            progress(p, o, *orders, S)
        else:
            args = [o, n, c]
            p.e.contracts["ext_window"] = window
            progress(p, o, *orders, lambda j: win(j) * S(j))
        gain = T.rinv(Sum(I(0), n, lambda k: win(k) * S(k)))

        def post(p, st, v):
            p.ensure_all(st, o, n, 8, lambda j, s: win(j) * S(j) * gain, "windowed sinc over its sum")
            s = st.fork()
            j = fresh("j")
            s.assume(And(j.ge(0), j.lt(n)))
            p.ensure(s, S(n - 1 - j).eq(S(j)), "the factor of the window is symmetric")
            total = Sum(I(0), n, lambda k: win(k) * S(k))
            s.assume(Not(total.eq(0)))
            p.ensure(s, Sum(I(0), n, lambda k: win(k) * S(k) * gain).eq(1), "the taps add up to one")
        return p.run(args, post)
    return job


def window(e, st, args, ins):
    """a window functor: overwrites its signal with the window"""
    b, n = args
    if b.obj is None:
        return [(st, "ret", None)]
    sigops.overwrite(e, st, b, n, 8, 1, lambda j, q, old: app("w", (j,), "R"))
    return [(st, "ret", None)]


def design(fn):
    """the designs over the contracts of the kernels and the tap transforms"""
    def job(mod):
        p = Proof(mod, fn, budget=60, label="DesignFilter[%s]" % fn)
        h = p.size("h")
        n = 2 * h + 1
        o, w = p.array("o", n, readonly=False), p.array("w", n)
        lp = lambda c, j: app("lp", (c, j), "R")
        cosine = lambda f, j: app("m_cos", ((to_real(j) - to_real(h)) * (PI * f),), "R")

        def odd(e, st, args, k):
            ps = [sigops.span(e, st, args[x], 8) for x in range(k)]
            for b, m in ps:
                e.require(st, m.eq(n), "%s:pre(equal sizes, odd number of taps)" % e.cur)
            return ps

        def kernel(e, st, args, ins):
            c = args[1]
            (b, m), (x, mx) = sigops.span(e, st, args[0], 8), sigops.span(e, st, args[2], 8)
            e.require(st, And(m.eq(n), mx.eq(n), T.bconst(x.obj is w.obj), x.off.eq(0)), "%s:pre(KernelWindowedLowpass: the given window, odd number of taps)" % e.cur)
            sigops.overwrite(e, st, b, m, 8, 1, lambda j, q, old: lp(c, j))
            return [(st, "ret", None)]

        def compl(e, st, args, ins):
            (b, m), (x, mx) = odd(e, st, args, 2)
            sigops.overwrite(e, st, b, m, 8, 1, lambda j, q, old: ite(j.eq(h), 1 - old(x, j), -old(x, j)))
            return [(st, "ret", None)]

        def shifted(e, st, args, ins):
            (b, m), (x, mx) = odd(e, st, args, 2)
            f = args[2]
            sigops.overwrite(e, st, b, m, 8, 1, lambda j, q, old: 2 * cosine(f, j) * old(x, j))
            return [(st, "ret", None)]

        def normalized(e, st, args, ins):
            e.require(st, And(args[0].ge(0), args[0].le(1)), "%s:pre(ThrowIfNotNormalized does not throw)" % e.cur)
            return [(st, "ret", None)]

        def is_sorted(e, st, args, ins):
            e.require(st, args[0].le(args[1]), "%s:pre(ThrowIfNotSorted does not throw)" % e.cur)
            return [(st, "ret", None)]
        keep_contract(p, "21KernelWindowedLowpassI", kernel)
        keep_contract(p, "21ComplementaryResponseI", compl)
        keep_contract(p, "13ShiftResponseI", shifted)
        keep_contract(p, "20ThrowIfNotNormalizedI", normalized)
        keep_contract(p, "16ThrowIfNotSortedI", is_sorted)
        if "band" in fn:
            lo, up = p.real("lower"), p.real("upper")
            p.requires(lo.ge(0))
            p.requires(lo.le(up))
            p.requires(up.le(1))
            args = [lo, up]
            half = T.R(Fraction(1, 2))
            base = lambda j: 2 * cosine((lo + up) * half, j) * lp((up - lo) * half, j)
        else:
            c = p.real("cutoff")
            p.requires(c.ge(0))
            p.requires(c.le(1))
            args = [c]
            base = lambda j: lp(c, j)
        if fn.endswith(("highpass", "bandstop")):
            val = lambda j, s: ite(j.eq(h), 1 - base(j), -base(j))
        else:
            val = lambda j, s: base(j)
        return p.run([o, n] + args + [w, n], lambda p, st, v: p.ensure_all(st, o, n, 8, val, "taps of the design"))
    return job


def hilbert(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="HalfbandToHilbert[%s]" % fn)
        signals(p)
        h = 2 * p.size("g") + 1 if fn.endswith("even") else p.size("h")
        n, o, a, args = operand(p, fn.endswith("self"), 2 * h + 1)
        if fn.endswith("even"):
            o = p.array("out", h + 1, readonly=False)
            args = [o, h + 1, a, n]
        K = lambda d: ite(imod(d, 4).eq(1), R(2), ite(imod(d, 4).eq(3), R(-2), R(0)))
        val = lambda j: K(j - h) * app("a", (j,), "R")
        m, step = (h + 1, 2) if fn.endswith("even") else (n, 1)
        head = imod(h + 17, 32)
        progress(p, o, lambda k, j: (step * j).lt(head + 32 * k), lambda j: val(step * j))
        return p.run(args, lambda p, st, v: p.ensure_all(st, o, m, 8, lambda j, s: val(step * j), "taps of the Hilbert filter"))
    return job


def jobs(thorough):
    js = [Job(f, "t", g(f)) for f, g in zip(TRANS, (mirror, mirror, complement, complement, shift, shift))]
    js += [Job(f, "l", lowpass(f)) for f in ("lowpass_view", "lowpass_func")]
    js += [Job(f, "d", design(f)) for f in UNITS["d"]["exports"]]
    js += [Job(f, "h", hilbert(f)) for f in UNITS["h"]["exports"]]
    return js
