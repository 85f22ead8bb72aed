"""C05: dot product."""
from common import *
import c03

UNITS = {"d": dict(cpp="stats.cpp", exports=["DotProduct_d", "DotProduct_c", "DotProduct_dc", "DotProduct_cd"], defines=["-DA_D"]),
         "f": dict(cpp="stats.cpp", exports=["DotProduct_f"], defines=["-DA_F"])}
REPLAY = ["c05.cpp"]
LEVEL = "proof"
BOUNDED = "float, mixes of float and double, containers"
A, B = el("a"), el("b")


def dot(S):
    def job(mod):
        p = Proof(mod, "DotProduct_" + S, budget=200, label="DotProduct<%s>" % {"d": "double", "f": "float"}[S])
        n = p.size("n")
        e = 8 if S == "d" else 4
        a, b = p.array("a", n, e), p.array("b", n, e)
        p.e.hints = [lambda i: A(i) * B(i)]
        return p.run([a, b, n], lambda p, st, v: p.ensure(st, v.eq(Sum(I(0), n, lambda i: A(i) * B(i))), "dot = sum a[i] b[i]"))
    return job


def dotc(kinds):
    def job(mod):
        fn = {"cc": "DotProduct_c"}.get(kinds, "DotProduct_" + kinds)
        p = Proof(mod, fn, budget=200, label="DotProduct<%s>" % ", ".join("complex<double>" if k == "c" else "double" for k in kinds))
        n = p.size("n")
        w = [2 if k == "c" else 1 for k in kinds]
        a, b, r = p.array("a", w[0] * n, 8), p.array("b", w[1] * n, 8), p.array("r", I(2), 8, readonly=False)
        c = lambda f, w, i: (app(f, (2 * i,), "R"), app(f, (2 * i + 1,), "R")) if w == 2 else (app(f, (i,), "R"), R(0))

        def part(i, q):
            (x, y), (u, v) = c("a", w[0], i), c("b", w[1], i)
            return (x * u + y * v, y * u - x * v)[q]
        p.e.hints = [lambda i, q=q: part(i, q) for q in (0, 1)]

        def post(p, st, v):
            for q in (0, 1):
                p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(Sum(I(0), n, lambda i: part(i, q))), "dot = sum a[i] conj(b[i]) (%s)" % ("re", "im")[q])
        return p.run([r, a, b, n], post)
    return job


def jobs(thorough):
    return [Job("dot_d", "d", dot("d"), 200), Job("dot_c", "d", dotc("cc"), 200), Job("dot_dc", "d", dotc("dc"), 200), Job("dot_cd", "d", dotc("cd"), 200)] + ([Job("dot_f", "f", dot("f"), 200)] if thorough else [])
