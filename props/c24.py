"""C24: bisection."""
from common import *

FNS = ["bisect_d", "bisect0_d", "bisect_f"]
UNITS = {"s": dict(cpp="solvers.cpp", exports=FNS + ["F", "Ff"])}
REPLAY = ["c24.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["the function is deterministic and has no side effects", "partial correctness: that the loop ends in floating point is checked by execution only"]
BOUNDED = "termination and localisation to the precision of float and double, values that underflow"

F = lambda x: app("F", (x,), "R")


def brk(x, y):
    """f changes sign (or vanishes) between x and y"""
    return Or(And(F(x).le(0), F(y).ge(0)), And(F(x).ge(0), F(y).le(0)))


def job(fn):
    def run(mod):
        p = Proof(mod, fn, budget=200)
        a, b = p.real("a"), p.real("b")
        big = R(10 ** 30)
        for x in (a, b):
            p.requires(And((-big).le(x), x.le(big)))
        p.requires(brk(a, b))
        tol = p.real("tol") if fn != "bisect0_d" else R(0)
        if fn != "bisect0_d":
            p.requires(tol.ge(0))
        p.e.contract_match.append((lambda n: n in ("F", "Ff"), lambda e, st, args, ins: [(st, "ret", F(args[0]))]))
        lo, hi = ite(a.le(b), a, b), ite(a.le(b), b, a)
        seen = []

        def cands(li):
            xs = [v for v in li.hdr.values() if isinstance(v, Poly) and v.sort == "R"]
            seen.append(xs)
            out = []
            for x in xs:
                out += [lo.le(x), x.le(hi), x.ge(0)]
                for y in xs:
                    if x is y:
                        continue
                    out += [brk(x, y), x.eq(F(y))]
                    for z in xs:
                        if z is not x and z is not y:
                            out.append((2 * z).eq(x + y))
                            out.append(Or(z.eq(x - y), z.eq(y - x), z.ge(big * 100)))
            return out
        p.e.loop_cands = [cands]

        def post(p, st, v):
            p.ensure(st, And(lo.le(v), v.le(hi)), "the result lies inside the interval")
            # witnesses: the last bracket
            good = None
            for xs in seen:
                for x in xs:
                    for y in xs:
                        if x is y:
                            continue
                        w = 2 * v - x
                        for y2 in (y, w):
                            c = And(brk(x, y2), (2 * v).eq(x + y2), (y2 - x).le(tol), (x - y2).le(tol))
                            if p.pv.prove(st.pc, c, 3000) == "proved":
                                good = c
                                break
                        if good:
                            break
                    if good:
                        break
            p.e.require(st, good if good else FALSE, "%s/ensures:the result is the middle of a sign change no wider than the tolerance" % fn)
        return p.run([a, b] + ([tol] if fn != "bisect0_d" else []), post)
    return run


def jobs(thorough):
    return [Job(f, "s", job(f), 200) for f in FNS]
