"""C19: waveform generators."""
import math
from fractions import Fraction as Q
from common import *
import c02
import sigops
from c18 import check, m, r

W = "Sine Square Sawtooth Pwm".split()
EX = ["%s_%s%s" % (k, f, c) for f in W for k in ("into", "cinto", "new") for c in ("", "C")]
UNITS = {"w": dict(cpp="generators.cpp", exports=[x for x in EX if x.replace("_", "")] + ["saw", "pwm"], defines=["-DWAVES"], keep=sigops.KEEP_ARITH)}
REPLAY = ["c19.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["std::sin is an uninterpreted function; std::floor is the integer part (floor(x) <= x < floor(x) + 1)"]
BOUNDED = "float elements; periodicity; range of the sine"

PI2 = r(2 * math.pi)
DEN = r(Q(1, 2 ** 1074))


def wave(kind, phase, par):
    """the defining value at a phase (2 pi to a period)"""
    if kind == "Sine":
        return m("sin", phase)
    per = phase * rinv(PI2)
    u = per - to_real(app("floor", (per,), "I"))
    if kind == "Sawtooth":
        ln = ite(u.gt(par), R(1) - par, par + DEN)
        return R(1) - 2 * ite(u.ge(par), u - par, par - u) * rinv(ln)
    fill = R(Q(1, 2)) if kind == "Square" else par
    on = Or(u.lt(fill), fill.ge(1))
    return ite(on, R(1), R(-1)) if kind == "Square" else ite(on, R(1), R(0))


def floor_facts(a):
    x, f = a.args[1], to_real(poly_of(a))
    return [f.le(x), x.lt(f + 1)]


def gen(pre, kind, chirp):
    fn = "%s_%s%s" % (pre, kind, "C" if chirp else "")

    def job(mod):
        p = Proof(mod, fn, budget=120)
        sigops.contracts(p, mod)
        cplx = pre == "cinto"
        n, rate = p.size("n"), p.size("rate", 1)
        f, ph = p.real("f"), p.real("ph")
        o = res = None
        if pre == "new":
            res = p.struct("r", [], 24)
        else:
            o = p.array("o", n * (2 if cplx else 1), readonly=False)
        args = [res or o, n, rate, f]
        if chirp:
            g = p.real("g")
            args.append(g)
        args.append(ph)
        par = None
        if kind in ("Sawtooth", "Pwm"):
            par = p.real("par")
            args.append(par)
        ir = rinv(to_real(rate))

        def spec(j):
            t = to_real(j) * ir
            x = t * f
            if chirp:
                x = x + t * t * (g - f) * rinv(R(2) * to_real(n) * ir)
            return wave(kind, PI2 * x + ph, par)
        return p.run(args, lambda p, st, v: check(p, st, o, res, n, spec, cplx, "sample j is the wave at time j/rate"))
    return job


def one(fn, kind):
    def job(mod):
        p = Proof(mod, fn, budget=60)
        p.pv.fact_gens["floor"] = floor_facts
        ph, par = p.real("phase"), p.real("par")
        p.requires(And(par.ge(0), par.le(1)))

        def post(p, st, v):
            p.ensure(st, v.eq(wave(kind, ph, par)), "defining value")
            p.ensure(st, And(v.ge(-1 if kind == "Sawtooth" else 0), v.le(1)), "range")
        return p.run([ph, par], post)
    return job


def jobs(thorough):
    return [Job("%s_%s%s" % (k, f, "C" if c else ""), "w", gen(k, f, c)) for f in W for k in ("into", "cinto", "new") for c in (False, True)] + [Job("saw", "w", one("saw", "Sawtooth")), Job("pwm", "w", one("pwm", "Pwm"))]
