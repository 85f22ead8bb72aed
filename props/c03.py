"""C03: sums, means, norms, extrema (also the shared set-up of C04 and C05)."""
from common import *

NAMES = "Sum SumSquare Mean MeanSquare RootMeanSquare Norm Min Max".split()
UNITS = {
    "d": dict(cpp="stats.cpp", exports=["%s_d" % x for x in NAMES] + ["Sum_c", "Mean_c"], defines=["-DA_D"]),
    "f": dict(cpp="stats.cpp", exports=["%s_f" % x for x in NAMES], defines=["-DA_F"]),
}
REPLAY = ["c03.cpp"]
LEVEL = "proof"
ASSUMPTIONS = []
BOUNDED = "float and complex<float>, containers"

A = el("a")


def total(f, n, lo=I(0)):
    return Sum(lo, n, f)


def setup(mod, fn, elt=8, label=None, lo=0, budget=200, two=False):
    p = Proof(mod, fn, budget=budget, label=label or fn)
    n = p.size("n", lo)
    a = p.array("a", n, elt)
    p.e.hints = [A, lambda i: A(i) * A(i)]
    if two:
        b = p.array("b", n, elt)
        return p, n, a, b
    return p, n, a


def one(name, S, spec, hints=None):
    """spec(n) -> value over the reals"""
    fn = "%s_%s" % (name, S)
    elt = 8 if S == "d" else 4

    def job(mod):
        p, n, a = setup(mod, fn, elt, label="%s<%s>" % (name, {"d": "double", "f": "float"}[S]))

        def post(p, st, v):
            p.ensure(st, v.eq(spec(n)), "%s = definition" % name)
        return p.run([a, n], post)
    return job


def mean(n):
    return ite(n.eq(0), R(0), rdiv(total(A, n), to_real(n)))


def meansq(n):
    return ite(n.eq(0), R(0), rdiv(total(lambda i: A(i) * A(i), n), to_real(n)))


SPECS = {
    "Sum": lambda n: total(A, n),
    "SumSquare": lambda n: total(lambda i: A(i) * A(i), n),
    "Mean": mean, "MeanSquare": meansq,
    "RootMeanSquare": lambda n: ite(n.eq(0), R(0), app("m_sqrt", (meansq(n),), "R")),
    "Norm": lambda n: ite(n.eq(0), R(0), app("m_sqrt", (total(lambda i: A(i) * A(i), n),), "R")),
}


def cplx(name):
    def job(mod):
        p = Proof(mod, name + "_c", budget=200, label="%s<complex<double>>" % name)
        n = p.size("n")
        a = p.array("a", 2 * n, 8)
        r = p.array("r", I(2), 8, readonly=False)
        part = [lambda i: app("a", (2 * i,), "R"), lambda i: app("a", (2 * i + 1,), "R")]
        p.e.hints = part

        def post(p, st, v):
            for q in (0, 1):
                s = total(part[q], n)
                if name == "Mean":
                    s = ite(n.eq(0), R(0), rdiv(s, to_real(n)))
                p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(s), "%s = definition (%s)" % (name, ("re", "im")[q]))
        return p.run([r, a, n], post)
    return job


def extremum(name, S, kind):
    """bound: the result does not exceed any element; tight: any bound of all elements bounds the result"""
    fn = "%s_%s" % (name, S)
    elt = 8 if S == "d" else 4
    le = (lambda x, y: x.le(y)) if name == "Min" else (lambda x, y: y.le(x))

    def job(mod):
        p = Proof(mod, fn, budget=200, label="%s<%s> (%s)" % (name, {"d": "double", "f": "float"}[S], kind))
        n = p.size("n", 1)
        y = p.real("y")
        q = p.int("q")
        p.requires(And(q.ge(0), q.lt(n)))
        a = p.array("a", n, elt)
        if kind == "tight":
            # precondition: y bounds every element
            p.pv.fact_gens["a"] = lambda at: [Implies(And(at.args[1].ge(0), at.args[1].lt(n)), le(y, poly_of(at)))]

        def cands(li):
            out = []
            accs = [[x for x in flatv(v) if isinstance(x, Poly) and x.sort == "R"] for v in li.hdr.values()]
            accs = [x for x in accs if x]
            for xs in accs:
                if kind == "tight":
                    out += [le(y, x) for x in xs]
                else:
                    some = Or(*[le(x, A(q)) for x in xs])
                    for v in li.hdr.values():
                        if isinstance(v, Ptr):
                            out.append(Or((q * elt).ge(v.off), some))
                    for nm, i0, h in li.ints():
                        out.append(Or((q * elt).ge(h), some))
            return out
        p.e.loop_cands = [cands]

        def post(p, st, v):
            if kind == "tight":
                p.ensure(st, le(y, v), "%s is attained (every bound of the elements bounds it)" % name)
            else:
                p.ensure(st, le(v, A(q)), "%s bounds every element" % name)
        return p.run([a, n], post)
    return job


def flatv(v):
    return list(v) if isinstance(v, tuple) else [v]


def jobs(thorough):
    J = []
    for S in (("d", "f") if thorough else ("d",)):
        for nm, sp in SPECS.items():
            J.append(Job("%s_%s" % (nm, S), S, one(nm, S, sp), 200))
        for nm in ("Min", "Max"):
            for k in ("bound", "tight"):
                J.append(Job("%s_%s_%s" % (nm, S, k), S, extremum(nm, S, k), 200))
    J += [Job("Sum_c", "d", cplx("Sum"), 200), Job("Mean_c", "d", cplx("Mean"), 200)]
    return J
