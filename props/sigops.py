"""Contracts of the elementwise signal operations (proved in C01 and C02), used where those are called."""
import re
from common import *

SIG = r"R?(?:K)?(?:NS_15BasicSignalView|NS_11BasicSignal)I(K?)(d|f|St7complexI[df]E)LNS_13eSignalDomainE[01]EEE"
KEEP_ARITH = ["5dspbbmLIR", "5dspbbpLIR", "5dspbbmIIR", "5dspbbdVIR", "5dspbb8MultiplyIR", "5dspbb3AddIR"]
UNARY = "Abs Real Imag Exp Sqrt Cos Sin Tan Log".split()


def keep_unary(names):
    return ["5dspbb%d%sIR" % (len(x), x) for x in names]


def span(e, st, p, w):
    """begin pointer and number of elements of a signal or view"""
    b, x = e.read(st, p.obj, p.off, PTR), e.read(st, p.obj, p.off + 8, PTR)
    if b.obj is None:
        return b, I(0)
    e.require(st, And(T.bconst(b.obj is x.obj), b.off.ge(0), x.off.le(b.obj.size)), "%s:pre(the signal lies inside its array)" % e.cur)
    return b, idiv(x.off - b.off, w)


def overwrite(e, st, b, n, w, comps, val):
    """content of n elements at b becomes val(j, q, old) for component q of element j; old(ptr, j, q) reads the content before the call"""
    if b.obj is None:
        return
    e.require(st, T.bconst(not b.obj.readonly), "%s:frame(the output is assignable)" % e.cur)
    st0 = st.fork()
    sz = w // comps
    if b.obj.elt is None:
        b.obj.hint = sz
    base = b.off
    ent = st.mem[b.obj]

    def f(rst, offb, ty):
        def old(p, j, q=0, wp=w, szp=sz):
            s = rst.fork()
            s.mem = dict(st0.mem)
            return e.read(s, p.obj, p.off + wp * j + szp * q, ty)
        for q in range(comps):
            j = (offb - base - sz * q).divides_exact(w)
            if j is not None:
                return val(j, q, old)
        m = (offb - base).divides_exact(sz)
        if m is None:
            return e.fresh_val(ty)
        r = None
        for q in range(comps):
            v = val(idiv(m, comps), q, old)
            r = v if r is None else ite(imod(m, comps).eq(q), v, r)
        return r
    st.mem[b.obj] = Content(ent, "fn", (base, base + w * n, f))


def compound(op, w, comps):
    def h(e, st, args, ins):
        b, n = span(e, st, args[0], w)
        s = e.read(st, args[1].obj, args[1].off, ft(w // comps))

        def val(j, q, old):
            x = old(b, j, q)
            if op == "mL":
                return x * s
            if op == "dV":
                return x * rinv(s)
            return x if q else (x + s if op == "pL" else x - s)
        overwrite(e, st, b, n, w, comps, val)
        return [(st, "ret", args[0])]
    return h


def compound_c(op, w):
    """complex signal, complex scalar"""
    def h(e, st, args, ins):
        b, n = span(e, st, args[0], w)
        re_, im = [e.read(st, args[1].obj, args[1].off + k * w // 2, ft(w // 2)) for k in (0, 1)]

        def val(j, q, old):
            if op == "pL":
                return old(b, j, q) + (im if q else re_)
            if op == "mI":
                return old(b, j, q) - (im if q else re_)
            x, y = old(b, j, 0), old(b, j, 1)
            return x * im + y * re_ if q else x * re_ - y * im
        overwrite(e, st, b, n, w, 2, val)
        return [(st, "ret", args[0])]
    return h


def binary(op, w, comps):
    def h(e, st, args, ins):
        (b, n), (x, nx), (y, ny) = [span(e, st, a, w) for a in args[:3]]
        e.require(st, And(n.eq(nx), n.eq(ny)), "%s:pre(equal lengths)" % e.cur)

        def val(j, q, old):
            if op == "Add":
                return old(x, j, q) + old(y, j, q)
            if comps == 1:
                return old(x, j) * old(y, j)
            if q == 0:
                return old(x, j, 0) * old(y, j, 0) - old(x, j, 1) * old(y, j, 1)
            return old(x, j, 0) * old(y, j, 1) + old(x, j, 1) * old(y, j, 0)
        overwrite(e, st, b, n, w, comps, val)
        return [(st, "ret", None)]
    return h


def unary(name, w, comps, wi, ci):
    import c02

    def h(e, st, args, ins):
        (b, n), (x, nx) = span(e, st, args[0], w), span(e, st, args[1], wi)
        e.require(st, n.eq(nx), "%s:pre(equal lengths)" % e.cur)

        def val(j, q, old):
            if ci == 1:
                return R(0) if q else c02.rf(name.lower(), old(x, j, 0, wi, wi))
            xr, xi = old(x, j, 0, wi, wi // 2), old(x, j, 1, wi, wi // 2)
            if xi == R(0) and name in ("Cos", "Sin", "Exp", "Abs"):
                e.assumed.add("complex cos, sin, exp and abs of a number without imaginary part are the real ones")
                return R(0) if q else c02.rf(name.lower(), xr)
            v = c02.cf(name.lower(), xr, xi)
            return v[q] if isinstance(v, tuple) else (R(0) if q else v)
        overwrite(e, st, b, n, w, comps, val)
        return [(st, "ret", None)]
    return h


def width(t):
    return {"d": (8, 1), "f": (4, 1), "St7complexIdE": (16, 2), "St7complexIfE": (8, 2)}[t]


def contracts(p, mod, unaries=UNARY, extra=()):
    """attach the contracts to the functions of the module that were kept out of line"""
    for fn in mod.funcs:
        m = re.match(r'@"?_ZN5dspbb(mL|pL|mI|dV)I' + SIG + r"([df])E", fn)
        if m:
            p.e.contracts[fn[1:].strip('"')] = compound(m.group(1), *width(m.group(3)))
        m = re.match(r'@"?_ZN5dspbb(mL|pL|mI)I' + SIG + r"S\d_EE", fn)
        if m and m.group(3).startswith("S"):
            p.e.contracts[fn[1:].strip('"')] = compound_c(m.group(1), width(m.group(3))[0])
        m = re.match(r'@"?_ZN5dspbb(?:8(Multiply)|3(Add))I' + SIG + r"(S\d_)\5EE", fn)
        if m:
            p.e.contracts[fn[1:].strip('"')] = binary(m.group(1) or m.group(2), *width(m.group(4)))
        m = re.match(r'@"?_ZN5dspbb\d(' + "|".join(unaries) + ")I" + SIG + r"(S\d_TnNS|" + SIG + ")", fn)
        if m:
            o = width(m.group(3))
            i = width(m.group(6)) if m.group(6) else o
            p.e.contracts[fn[1:].strip('"')] = unary(m.group(1), *o, *i)
        for rx, h in extra:
            m = re.match(rx, fn)
            if m:
                p.e.contracts[fn[1:].strip('"')] = h(m)
