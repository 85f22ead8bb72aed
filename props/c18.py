"""C18: ranges and windows."""
import math
from fractions import Fraction as Q
from common import *
import c02
import sigops

W0 = "Hamming FlatTop Rectangular Triangular Blackman BlackmanHarris Lanczos".split()
W1 = "Gaussian Kaiser".split()
SP = "lin_into lin_into_c lin_new lin_new_c log_into log_new".split()
OPS = sigops.KEEP_ARITH + sigops.keep_unary(["Cos", "Exp", "Abs"])
UNITS = {"s": dict(cpp="generators.cpp", exports=SP, defines=["-DSPACES"], keep=OPS),
         "w": dict(cpp="generators.cpp", exports=["%s_%s" % (k, f) for f in W0 + W1 for k in ("into", "cinto", "new", "fn")], defines=["-DWINDOWS"],
                   keep=OPS + ["cyl_bessel_i", "5dspbb8LinSpaceIR"])}
REPLAY = [("c18.cpp", ["-DPART1"]), ("c18.cpp", ["-DPART2"]), ("c18.cpp", ["-DPART3"])]
LEVEL = "proof"
ASSUMPTIONS = ["each xsimd batch function equals the standard scalar function in every lane (third-party code, used through a contract)",
               "standard library scalar functions (cos, sin, exp, log, cyl_bessel_i) are uninterpreted functions of their argument"]
BOUNDED = "float elements; Dolph-Chebyshev window (needs the FFT library); symmetry of the windows"


def m(f, x):
    return app("m_" + f, (x,), "R")


def r(x):
    return R(Q(x))


PI2 = r(2 * math.pi)


def line(n, a, b, inc):
    """LinSpace: element j of n points from a to b"""
    d = ite((n - inc).ge(1), to_real(n - inc), R(1))
    inv = rinv(d)
    return lambda j: to_real(j) * ((b - a) * inv) + a


def linspace_contract(m):
    w, comps = sigops.width(m.group(2))

    def h(e, st, args, ins):
        o, a, b, inc = args
        ptr, n = sigops.span(e, st, o, w)
        inc = inc if isinstance(inc, Poly) else ite(inc, I(1), I(0))
        x = line(n, a, b, inc)
        sigops.overwrite(e, st, ptr, n, w, comps, lambda j, q, old: R(0) if q else x(j))
        return [(st, "ret", None)]
    return h


def setup(p, mod, inline_linspace=False):
    sigops.contracts(p, mod, extra=[] if inline_linspace else [(r'@"?_ZN5dspbb8LinSpaceI' + sigops.SIG + "Tn", linspace_contract)])
    bessel_contract(p, mod)


def bessel_contract(p, mod):
    for fn in mod.funcs:
        if "cyl_bessel_i" in fn:
            def h(e, st, args, ins):
                e.assumed.add("std::cyl_bessel_i is an uninterpreted function")
                return [(st, "ret", app("bessel_i", tuple(args), "R"))]
            p.e.contracts[fn[1:].strip('"')] = h


def check(p, st, o, res, n, spec, cplx, what):
    ptr = o
    if res is not None:
        ptr, end = p.e.read(st, res.obj, I(0), PTR), p.e.read(st, res.obj, I(8), PTR)
        p.ensure(st, (end.off - ptr.off).eq((16 if cplx else 8) * n), "size of the result")
        if ptr.obj is None:
            return
    if cplx:
        p.ensure_all(st, ptr, n, 16, lambda j, s: spec(j), what + " (real part)")
        p.ensure_all(st, Ptr(ptr.obj, ptr.off + 8), n, 16, lambda j, s: R(0), what + " (imaginary part zero)")
    else:
        p.ensure_all(st, ptr, n, 8, lambda j, s: spec(j), what)


def space(fn):
    def job(mod):
        p = Proof(mod, fn, budget=120)
        setup(p, mod, True)
        cplx = fn.endswith("_c")
        n = p.size("n")
        a, b = p.real("a"), p.real("b")
        inc = p.int("inc", 0, 1)
        o = res = None
        if "new" in fn:
            res = p.struct("r", [], 24)
        else:
            o = p.array("o", n * (2 if cplx else 1), readonly=False)
        ln = line(n, a, b, inc)
        if fn.startswith("log"):
            base = p.real("base")
            spec = lambda j: m("exp", ln(j) * m("log", base))
            args = [res or o, n, a, b, base, inc.ne(0)]
        else:
            spec = ln
            args = [res or o, n, a, b, inc.ne(0)]
        return p.run(args, lambda p, st, v: check(p, st, o, res, n, spec, cplx, "sample j"))
    return job


def cosum(cs, n):
    x = line(n, R(0), PI2, 1)
    return lambda j: sum((r(c) * m("cos", k * x(j)) if k else r(c) for k, c in enumerate(cs)), R(0))


def window(f, n, par):
    """the defining formula of sample j"""
    if f == "Hamming":
        return cosum([0.54, -0.46], n)
    if f == "Blackman":
        return cosum([0.42, -0.5, 0.08], n)
    if f == "BlackmanHarris":
        return cosum([0.35875, -0.48829, 0.14128, -0.01168], n)
    if f == "FlatTop":
        inv = rinv(to_real(n - 1))
        return lambda j: r(0.21557895) + sum((r(c) * m("cos", r(2 * k * math.pi) * inv * to_real(j)) for k, c in ((1, -0.41663158), (2, 0.277263158), (3, -0.083578947), (4, 0.006947368))), R(0))
    if f == "Rectangular":
        return lambda j: R(1)
    if f == "Triangular":
        x = line(n, R(0), R(2), 1)
        return lambda j: R(1) - ite((x(j) - 1).ge(0), x(j) - 1, R(1) - x(j))
    if f == "Lanczos":
        x = line(n, r(-math.pi), r(math.pi), 1)
        return lambda j: ite(x(j).eq(0), R(1), m("sin", x(j)) * rinv(x(j)))
    if f == "Gaussian":
        M = to_real(n - 1) * R(Q(1, 2))
        x = line(n, -M, M, 1)
        return lambda j: m("exp", R(Q(-1, 2)) * (x(j) * rinv(par * M)) * (x(j) * rinv(par * M)))
    if f == "Kaiser":
        x = line(n, R(-1), R(1), 1)

        def k(j):
            y = R(1) - x(j) * x(j)
            s = m("sqrt", ite(y.ge(0), y, R(0)))
            pa = r(math.pi) * par
            return app("bessel_i", (R(0), pa * s), "R") * rinv(app("bessel_i", (R(0), pa), "R"))
        return k


def win(kind, f):
    fn = "%s_%s" % (kind, f)

    def job(mod):
        p = Proof(mod, fn, budget=120)
        setup(p, mod)
        n = p.size("n", 2)
        o = res = None
        cplx = kind == "cinto"
        if kind == "new":
            res = p.struct("r", [], 24)
        else:
            o = p.array("o", n * (2 if cplx else 1), readonly=False)
        args = [res or o, n]
        par = None
        if f in W1:
            par = p.real("par")
            p.requires(par.gt(0))
            args.append(par)
        spec = window(f, n, par)
        return p.run(args, lambda p, st, v: check(p, st, o, res, n, spec, cplx, f + " window sample j"))
    return job


def jobs(thorough):
    return [Job(f, "s", space(f)) for f in SP] + [Job("%s_%s" % (k, f), "w", win(k, f)) for f in W0 + W1 for k in ("into", "cinto", "new", "fn")]
