"""C01: elementwise arithmetic."""
from common import *

OPSN = {"add": "fadd", "sub": "fsub", "mul": "fmul", "div": "fdiv"}
FORMS = ["vv", "vs", "sv", "cv", "cs", "nvv", "nvs", "nsv"]


def _exports(s):
    return ["%s_%s_%s" % (o, f, s) for o in OPSN for f in FORMS]


UNITS = {
    "d": dict(cpp="arith.cpp", exports=_exports("d"), defines=["-DA_D"]),
    "dn": dict(cpp="arith.cpp", exports=_exports("d"), defines=["-DA_D", "-DNDEBUG"]),
    "f": dict(cpp="arith.cpp", exports=_exports("f"), defines=["-DA_F"]),
    "c": dict(cpp="arith.cpp", exports=_exports("c"), defines=["-DA_C"]),
}
REPLAY = [("c01.cpp", ["-DPART1"]), ("c01.cpp", ["-DPART2"]), ("c01.cpp", ["-DPART3"]), ("c01.cpp", ["-DNDEBUG"])]
LEVEL = "proof"
ASSUMPTIONS = ["bit-exact jobs: IEEE operations are uninterpreted functions of their operands (fadd and fmul commutative), so the proof is about which operation is applied to which elements",
               "complex jobs are over the reals (complex products and quotients as polynomials/quotients)"]
BOUNDED = "complex<float>, mixed element types and signal containers"


def spec_of(p, op, cplx):
    e = p.e

    def real(st, x, y):
        return e.fop(st, OPSN[op], x, y)
    return real


def cspec(op, x, y, part):
    (a, b), (c, d) = x, y
    if op in ("add", "sub"):
        return (a + c, b + d)[part] if op == "add" else (a - c, b - d)[part]
    if op == "mul":
        return (a * c - b * d, a * d + b * c)[part]
    n = c * c + d * d
    return (rdiv(a * c + b * d, n), rdiv(b * c - a * d, n))[part]


def form(op, frm, S, alias=None, mismatch=False):
    elt = {"d": 8, "f": 4, "c": 16}[S]
    fn = "%s_%s_%s" % (op, frm, S)

    def job(mod):
        cplx = S == "c"
        w = elt // 2 if cplx else elt
        p = Proof(mod, fn, fpmode="real" if cplx else "uf", budget=150, label="%s[%s%s]" % (fn, S, "," + alias if alias else ""))
        n = p.size("n")
        sz = lambda nm: p.size(nm) if mismatch else n
        k = 2 if cplx else 1
        ro = frm[0] == "n"
        base = frm[1:] if ro else frm
        o = None
        if ro:
            r = p.struct("r", [], 24)
        else:
            o = p.array("o", n * k, w, readonly=False)
        a = b = sa = None
        na = nb = n
        if base in ("vv", "vs"):
            na = sz("na")
            a = p.array("a", na * k, w)
        if base in ("vv", "sv", "cv"):
            nb = sz("nb")
            b = p.array("b", nb * k, w)
        if base in ("vs", "sv", "cs"):
            sa = p.array("s", I(k), w)
        if alias:
            for x in alias:
                if x == "a":
                    a = o
                if x == "b":
                    b = o
        args = ([r] if ro else [o, n]) + (
            [a, na, b, nb] if base == "vv" else [a, na, sa] if base == "vs" else [sa, b, nb] if base == "sv" else [b, nb] if base == "cv" else [sa])

        def name(ptr):
            return "o" if ptr is o else {id(a): "a", id(b): "b", id(sa): "s"}[id(ptr)]

        def val(ptr, j):
            if ptr is sa:
                return tuple(app("s", (I(q),), "R") for q in range(k))
            return tuple(app(name(ptr), (k * j + q,), "R") for q in range(k))
        X = {"vv": a, "vs": a, "sv": sa, "cv": o, "cs": o}[base]
        Y = {"vv": b, "vs": sa, "sv": b, "cv": b, "cs": sa}[base]
        ok = TRUE
        if mismatch:
            ok = And(*([na.eq(nb)] if ro else [n.eq(na), n.eq(nb)]))

            def thrown(p, st, v):
                p.ensure(st, Not(ok), "throws only on unequal lengths")
            p.throws_ok = thrown

        def post(p, st, v):
            p.ensure(st, ok, "unequal lengths are rejected")
            ptr = o
            if ro:
                ptr = p.e.read(st, r.obj, I(0), PTR)
                end = p.e.read(st, r.obj, I(8), PTR)
                p.ensure(st, (end.off - ptr.off).eq(elt * (na if base != "sv" else nb)), "size of the result")
                if ptr.obj is None:
                    return
            nn = n if not ro else na if base != "sv" else nb
            for q in range(k):
                def spec(j, s, q=q):
                    x, y = val(X, j), val(Y, j)
                    if cplx:
                        return cspec(op, x, y, q)
                    return p.e.fop(s, OPSN[op], x[0], y[0])
                pp = Ptr(ptr.obj, ptr.off + q * w)
                p.ensure_all(st, pp, nn, elt, spec, "out[j]=x[j] %s y[j]%s" % (op, (" (re)", " (im)")[q] if cplx else ""), ty=ft(w))
        return p.run(args, post)
    return job


def jobs(thorough):
    J = []
    for S in (("d", "f", "c") if thorough else ("d", "c")):
        for op in OPSN:
            for f in FORMS:
                J.append(Job("%s_%s_%s" % (op, f, S), S, form(op, f, S), 150))
            J.append(Job("%s_vv_%s_out=a" % (op, S), S, form(op, "vv", S, "a"), 150))
            J.append(Job("%s_vv_%s_out=b" % (op, S), S, form(op, "vv", S, "b"), 150))
            J.append(Job("%s_vs_%s_out=a" % (op, S), S, form(op, "vs", S, "a"), 150))
            J.append(Job("%s_sv_%s_out=b" % (op, S), S, form(op, "sv", S, "b"), 150))
            if (op, S) != ("div", "c"):
                J.append(Job("%s_vv_%s_out=a=b" % (op, S), S, form(op, "vv", S, "ab"), 150))
    for op in OPSN:
        for f in ("vv", "vs", "sv", "cv"):
            J.append(Job("%s_%s_mismatch" % (op, f), "dn", form(op, f, "d", mismatch=True), 150))
    return J
