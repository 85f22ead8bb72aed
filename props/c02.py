"""C02: elementwise math functions."""
import re
from common import *

REALF = "Abs Real Imag Log Log2 Log10 Exp Sqrt Cbrt Sin Cos Tan Asin Acos Atan Sinh Cosh Tanh Asinh Acosh Atanh Erf Erfc TGamma LGamma Pow".split()
CPLXF = "Abs Arg Real Imag Conj Exp Log Sqrt Sin Cos Tan Sinh Cosh Tanh Asin Acos Atan Asinh Acosh Atanh".split()
XS = "abs arg log log2 log10 exp pow sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh erf erfc tgamma lgamma".split()
KEEP = ["N5xsimd%d%sI" % (len(x), x) for x in XS]


def _exp(fs, s):
    return ["%s_%s_%s" % (k, f, s) for f in fs for k in ("into", "new")]


UNITS = {
    "d": dict(cpp="functions.cpp", exports=_exp(REALF, "d"), defines=["-DA_D"], keep=KEEP),
    "f": dict(cpp="functions.cpp", exports=_exp(REALF, "f"), defines=["-DA_F"], keep=KEEP),
    "c": dict(cpp="functions.cpp", exports=_exp(CPLXF, "c"), defines=["-DA_C"], keep=KEEP),
}
REPLAY = [("c02.cpp", ["-DPART1"]), ("c02.cpp", ["-DPART2"])]
LEVEL = "proof"
ASSUMPTIONS = ["each xsimd batch function equals the standard scalar function in every lane (third-party code, used through a contract; the bounded part compares the values)",
               "standard library scalar functions are uninterpreted functions of their argument"]
BOUNDED = "agreement of the vector functions with the scalar ones to rounding error; float and complex types"


def rf(name, *xs):
    """the scalar function, real"""
    if name == "abs":
        return ite(xs[0].ge(0), xs[0], -xs[0])
    if name == "sqrt":
        return app("m_sqrt", (xs[0],), "R")
    return app("m_" + name, tuple(xs), "R")


def cf(name, re_, im):
    """the scalar function, complex: (re, im) or a real"""
    if name == "abs":
        return app("cm_abs", (re_, im), "R")
    if name == "arg":
        return app("m_atan2", (im, re_), "R")
    if name == "real":
        return re_
    if name == "imag":
        return im
    if name == "conj":
        return (re_, -im)
    return tuple(app("cm_%s_%s" % (name, q), (re_, im), "R") for q in ("re", "im"))


def xsimd_contracts(p, mod):
    for fn in mod.funcs:
        m = re.search(r"N5xsimd(\d+)([a-z0-9]+?)I(St7complexI)?([df])", fn)
        if not m or m.group(2)[:int(m.group(1))] not in XS:
            continue
        name = m.group(2)[:int(m.group(1))]
        elt = 8 if m.group(4) == "d" else 4
        L = 16 // elt
        cplx = "St7complex" in fn
        ret = mod.resolve(mod.funcs[fn].ret)

        def h(e, st, args, ins, name=name, elt=elt, L=L, cplx=cplx, ret=ret):
            e.assumed.add("xsimd::%s applies the standard function to every lane" % name)
            V = ("vec", L, ft(elt))
            args = list(args)
            out = args.pop(0) if ret[0] == "void" else None
            if not cplx:
                xs = [x if isinstance(x, tuple) else e.load(st, x, V) for x in args]
                return [(st, "ret", tuple(rf(name, *t) for t in zip(*xs)))]
            re_ = e.load(st, args[0], V)
            im = e.load(st, Ptr(args[0].obj, args[0].off + 16), V)
            r = [cf(name, a, b) for a, b in zip(re_, im)]
            if out is None:
                return [(st, "ret", tuple(r))]
            e.store(st, out, V, tuple(x[0] for x in r))
            e.store(st, Ptr(out.obj, out.off + 16), V, tuple(x[1] for x in r))
            return [(st, "ret", None)]
        p.e.contracts[fn[1:].strip('"')] = h


def func(F, S, kind, inplace=False):
    fn = "%s_%s_%s" % (kind, F, S)

    def job(mod):
        p = Proof(mod, fn, budget=120, label=fn + (" in place" if inplace else ""))
        xsimd_contracts(p, mod)
        n = p.size("n")
        w = 4 if S == "f" else 8
        ki = 2 if S == "c" else 1
        name = F.lower()
        probe = cf(name, R(0), R(0)) if ki == 2 else R(0)
        ko = 2 if isinstance(probe, tuple) else 1
        o = r = None
        if kind == "new":
            r = p.struct("r", [], 24)
            a = p.array("a", n * ki, w)
            args = [r, a, n]
        else:
            o = p.array("o", n * ko, w, readonly=False)
            a = o if inplace else p.array("a", n * ki, w)
            args = [o, n, a]
        nm = "o" if inplace else "a"
        if F == "Pow":
            pw = p.real("power")
            args.append(pw)

        def spec(j, q):
            x = tuple(app(nm, (ki * j + t,), "R") for t in range(ki))
            if ki == 2:
                v = cf(name, *x)
                return v[q] if ko == 2 else v
            if F == "Pow":
                return rf("pow", x[0], pw)
            if F == "Real":
                return x[0]
            if F == "Imag":
                return R(0)
            return rf(name, x[0])

        def post(p, st, v):
            ptr = o
            if r is not None:
                ptr = p.e.read(st, r.obj, I(0), PTR)
                end = p.e.read(st, r.obj, I(8), PTR)
                p.ensure(st, (end.off - ptr.off).eq(w * ko * n), "size of the result")
                if ptr.obj is None:
                    return
            for q in range(ko):
                p.ensure_all(st, Ptr(ptr.obj, ptr.off + q * w), n, w * ko, lambda j, s, q=q: spec(j, q), "out[j]=%s(in[j])%s" % (F, (".re", ".im")[q] if ko == 2 else ""), ty=ft(w))
        return p.run(args, post)
    return job


def jobs(thorough):
    J = []
    for S in (("d", "c", "f") if thorough else ("d", "c")):
        for F in (CPLXF if S == "c" else REALF):
            for k in ("into", "new"):
                J.append(Job("%s_%s_%s" % (k, F, S), S, func(F, S, k), 120))
            if not (S == "c" and F in ("Abs", "Arg", "Real", "Imag")):
                J.append(Job("into_%s_%s_inplace" % (F, S), S, func(F, S, "into", True), 120))
    return J
