"""C16: bilinear transform and band transforms."""
from common import *
import math, time
from fractions import Fraction
from terms import rdiv
from c07 import new_array, fill_new
from c14 import factored, is_factored, vec, root, recurrence, cmul, tracks, complex_parts
from c15 import zpk_system, over

BANDS = "lowpass highpass bandpass bandstop lowpass_f highpass_f bandpass_f bandstop_f".split()
UNITS = {"b": dict(cpp="bands.cpp", exports=["bilinear", "bilinear_warp"], keep=["re:^_ZN5dspbb14TransformRootsI", "re:^_ZNK5dspbb18FactoredPolynomialIdE4evalI"]),
         "m": dict(cpp="bands.cpp", exports=["mapz1", "mapz2"], keep=["re:^_ZN5dspbb14TransformRootsI"]),
         "h": dict(cpp="bands.cpp", exports=BANDS, keep=["re:^_ZN5dspbb4impl10MapZDomainI"]),
         "r": dict(cpp="bands.cpp", exports=["bilinear", "mapz1"], keep=["re:^_ZN5dspbb14TransformRootsI", "re:^_ZN5dspbb4impl22AreRootsConjugatePairsI", "re:^_ZN5dspbb18FactoredPolynomialIdE6resizeE"])}
REPLAY = [("c16.cpp", ["-DPART1"]), "c16.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["The values of factored polynomials and FactoredPolynomial::resize of a new polynomial are those proved for C14.",
               "Trigonometry: sin^2 + cos^2 = 1, the addition theorems, tan = sin / cos, and the signs of sin, cos and tan in their first quadrants; the square root of the discriminant squares to the discriminant.",
               "A product over all roots of identities that hold for each factor is an identity (mathematics): the factor lemmas, the proved root maps, the added roots and the gain give the value of the result at every z.",
               "No denominator of a mapped root vanishes: the continuous system has no root at the bilinear constant k, and no root is mapped to infinity."]
BOUNDED = "the mapped roots of band-pass and band-stop transforms (TransformRoots of order 2: which of the two images is real); float systems; rounding; stability of the result; all systems with up to 3 real roots and 2 pairs on each side (thorough: 4 and 3) at sample points, band edges and centres"
mx = lambda a, b: ite(a.ge(b), a, b)


def transformed(e, st, ret, name, nr, nc):
    """a new factored polynomial with the roots name(j)"""
    n = nr + 2 * nc
    o = new_array(e, st, ret, n, 8)
    fill_new(e, st, o, n, 1, lambda j, q: app(name, (j,), "R"))
    for at, x in ((24, I(0)), (32, 8 * nr), (40, 8 * nr), (48, 8 * n)):
        e.store(st, Ptr(ret.obj, ret.off + at), PTR, Ptr(o, x))


def is_result(p, st, r, gain, counts, what="result"):
    nr, nc, qr, qc = counts
    p.ensure(st, p.e.read(st, r.obj, I(0), F64).eq(gain), what + ": gain")
    is_factored(p, st, Ptr(r.obj, I(8)), nr, nc, *root("tz", nr), what + ": transformed zeros")
    is_factored(p, st, Ptr(r.obj, I(64)), qr, qc, *root("tp", qr), what + ": transformed poles")


def bilinear(fn):
    """the roots are mapped by (k + p) / (k - p), missing ones are at -1, and the gain is the continuous system's value at k"""
    def job(mod):
        p = Proof(mod, fn, budget=100)
        gain, rate = p.real("gain"), p.real("rate")
        w = [p.real("w")] if fn == "bilinear_warp" else []
        k = rdiv(w[0], app("m_tan", (rdiv(rdiv(w[0], rate), R(2)),), "R")) if w else 2 * rate
        s, (nr, nc, qr, qc), objs = zpk_system(p, "a", gain)
        total = mx(nr + 2 * nc, qr + 2 * qc)
        parts = {8: ("z", nr, nc), 64: ("p", qr, qc)}

        def part(e, st, f):
            w = parts.get(int(f.off.const())) if f.obj is s.obj and f.off.is_const() else None
            e.require(st, T.bconst(w is not None), "%s:pre(the zeros or the poles)" % e.cur)
            return w

        def transform(e, st, args, ins):
            ret, f, kk, n, re, im = args
            w = part(e, st, f)
            if w is None:
                return []
            e.require(st, kk.eq(k), "%s:pre(transformed with k)" % e.cur)
            e.require(st, n.eq(total), "%s:pre(as many roots as the larger polynomial has)" % e.cur)
            e.require(st, And(re.eq(-1), im.eq(0)), "%s:pre(missing roots are at -1)" % e.cur)
            transformed(e, st, ret, "t" + w[0], w[1] + total - (w[1] + 2 * w[2]), w[2])
            return [(st, "ret", None)]
        keep_contract(p, "14TransformRootsI", transform)

        def value(e, st, args, ins):
            w = part(e, st, args[0])
            if w is None:
                return []
            e.require(st, e.read(st, args[1].obj, args[1].off, F64).eq(k), "%s:pre(evaluated at k)" % e.cur)
            return [(st, "ret", app("value" + w[0], (I(0),), "R"))]
        keep_contract(p, "18FactoredPolynomialIdE4evalI", value)
        v = lambda w: app("value" + w, (I(0),), "R")
        r = p.struct("r", [], 120)
        return p.run([r, s, rate] + w, lambda p, st, x: is_result(p, st, r, rdiv(gain * v("z"), v("p")), (total - 2 * nc, nc, total - 2 * qc, qc)))
    return job


def map_z(fn):
    """the roots are mapped with s, a0, a1 (a2), missing ones are at the poles of the map; the gain is the product of the
    leading coefficients: gain a0^(poles - zeros) prod(a1 s - z a0) / prod(a1 s - p a0)"""
    order = int(fn[-1])

    def job(mod):
        p = Proof(mod, fn, budget=200)
        gain = p.real("gain")
        s, (nr, nc, qr, qc), objs = zpk_system(p, "a", gain)
        sg = p.real("s")
        a = [p.real("a%d" % i) for i in range(order + 1)]
        nz, np = nr + 2 * nc, qr + 2 * qc
        total = mx(nz, np)
        parts = {8: ("z", nr, nc), 64: ("p", qr, qc)}

        def transform(e, st, args, ins):
            ret, f, fields, n = args[:4]
            w = parts.get(int(f.off.const())) if f.obj is s.obj and f.off.is_const() else None
            e.require(st, T.bconst(w is not None), "%s:pre(the zeros or the poles)" % e.cur)
            if w is None:
                return []
            for i, x in enumerate([sg] + a[::-1]):
                e.require(st, e.read(st, fields.obj, fields.off + 8 * i, F64).eq(x), "%s:pre(coefficients of the map)" % e.cur)
            e.require(st, n.eq(total), "%s:pre(as many roots as the larger polynomial has)" % e.cur)
            pads = total - (w[1] + 2 * w[2])
            if order == 1:
                e.require(st, And((args[4] * a[0]).eq(-a[1]), args[5].eq(0)), "%s:pre(missing roots are at the pole of the map)" % e.cur)
                transformed(e, st, ret, "t" + w[0], w[1] + pads, w[2])
            else:
                pad = [e.read(st, args[4].obj, args[4].off + 8 * i, F64) for i in range(4)]
                z = [pad[:2], pad[2:]]
                # a0 z^2 + a1 z + a2 = 0: 2 a0 z + a1 is a square root of the discriminant
                disc = (a[1] * a[1] - 4 * a[0] * a[2], R(0))
                q = [app("cm_sqrt_" + x, disc, "R") for x in ("re", "im")]
                at = lambda u, sg: And(*[(2 * a[0] * u[i] + (a[1] if i == 0 else R(0))).eq(sg * q[i]) for i in range(2)])
                e.require(st, Or(And(at(z[0], 1), at(z[1], -1)), And(at(z[0], -1), at(z[1], 1))), "%s:pre(missing roots are at the poles of the map)" % e.cur)
                transformed(e, st, ret, "t" + w[0], app("reals", (I(len(w[0])), I(8 if w[0] == "z" else 64)), "I"), app("pairs", (I(8 if w[0] == "z" else 64),), "I"))
            return [(st, "ret", None)]
        keep_contract(p, "14TransformRootsI", transform)
        lead = a[-1] * sg

        def gains(nm, n, m):
            el = lambda i: app(nm, (i,), "R")

            def pair(v, i):
                re, im = el(n + 2 * i), el(n + 2 * i + 1)
                f = lead - re * a[0]
                return [v[0] * (f * f + im * im * a[0] * a[0])]
            one = [R(1)]
            return recurrence(p, "Q" + nm, one, lambda v, i: [v[0] * (lead - el(i) * a[0])]), recurrence(p, "Z" + nm, one, pair)
        G = {"z": gains("az", nr, nc), "p": gains("ap", qr, qc)}
        idx = []
        for w, n in (("z", nr), ("p", qr)):
            idx += [lambda k, o, w=w: G[w][0](o.divides_exact(8)) if o.divides_exact(8) is not None else None,
                    lambda k, o, w=w, n=n: G[w][1]((o - 8 * n).divides_exact(16)) if (o - 8 * n).divides_exact(16) is not None else None]
        tracks(p, *idx)
        d = np - nz
        power = ite(d.eq(0), R(1), app("m_pow", (a[0], T.to_real(d)), "R"))
        until = lambda g, n: ite(n.eq(0), R(1), g(n, 0))
        prod = lambda w, n, m: until(G[w][0], n) * until(G[w][1], m)
        want = rdiv(power * gain * prod("z", nr, nc), prod("p", qr, qc))
        r = p.struct("r", [], 120)

        def post(p, st, v):
            if order == 1:
                is_result(p, st, r, want, (total - 2 * nc, nc, total - 2 * qc, qc))
            else:
                p.ensure(st, p.e.read(st, r.obj, I(0), F64).eq(want), "gain")
        return p.run([r, s, sg] + a, post)
    return job


def cdiv(x, y):
    d = y[0] * y[0] + y[1] * y[1]
    return [rdiv(x[0] * y[0] + x[1] * y[1], d), rdiv(x[1] * y[0] - x[0] * y[1], d)]


def instance(mod, *frags):
    return [f[1:].strip('"') for f in mod.funcs if all(x in f for x in frags)][0]


def one_pair(mod):
    """a single root is in conjugate pairs if and only if it is real (the test compares the root with itself)"""
    out = []
    for kind in ("IPK", "IPSt"):
        p = Proof(mod, instance(mod, "22AreRootsConjugatePairs" + kind), budget=60, label="AreRootsConjugatePairs[one root%s]" % (", const" if kind == "IPK" else ""))
        a = p.array("x", 2)
        out.append(p.run([a, Ptr(a.obj, I(16))], lambda p, st, v: p.ensure(st, T.Iff(v, p.elem("x", I(1)).eq(0)), "one root is a conjugate pair when it is real")))
    return out


def transform_roots(which):
    """every real root x becomes f(x), every pair z becomes f(z), and the missing roots are added as given"""
    def job(mod):
        fn = instance(mod, "14TransformRootsI", "17BilinearTransform" if which == "bilinear" else "10MapZDomain")
        p = Proof(mod, fn, budget=100, label="TransformRoots[%s]" % which)
        nr, nc, total = p.size("nr"), p.size("nc"), p.size("total", hi=1 << 38)
        n = nr + 2 * nc
        p.requires(total.ge(n))
        s, a = factored(p, "x", nr, nc)
        pad = p.real("pad")
        ret = p.struct("ret", [], 56)
        if which == "bilinear":
            k = p.real("k")
            func = k
            f = lambda z: rdiv(k + z, k - z)
            F = lambda z: cdiv((k + z[0], z[1]), (k - z[0], -z[1]))
        else:
            sg, a1, a0 = p.real("s"), p.real("a1"), p.real("a0")
            func = p.struct("fields", [(0, F64, sg), (8, F64, a1), (16, F64, a0)], 24)
            f = lambda z: rdiv(a0 * sg - a1 * z, a0 * z - a1 * sg)
            F = lambda z: cdiv((a0 * sg - a1 * z[0], -a1 * z[1]), (a0 * z[0] - a1 * sg, a0 * z[1]))

        def conj(e, st, args, ins):
            x, l = args
            e.require(st, And(T.bconst(x.obj is l.obj), (l.off - x.off).eq(16)), "%s:pre(one root)" % e.cur)
            return [(st, "ret", e.read(st, x.obj, x.off + 8, F64).eq(0))]
        keep_contract(p, "22AreRootsConjugatePairsI", conj)

        def resize(e, st, args, ins):
            t, r, c = args[:3]
            v = e.read(st, t.obj, t.off, PTR)
            e.require(st, T.bconst(v.obj is None), "%s:pre(new polynomial)" % e.cur)
            m = r + 2 * c
            e.require(st, And(r.ge(0), c.ge(0)), "%s:pre(sizes)" % e.cur)
            o = new_array(e, st, t, m, 8)
            fill_new(e, st, o, m, 1, lambda j, q: app("blank", (j,), "R"))
            for at, x in ((24, I(0)), (32, 8 * r), (40, 8 * r), (48, 8 * m)):
                e.store(st, Ptr(t.obj, t.off + at), PTR, Ptr(o, x))
            return [(st, "ret", None)]
        keep_contract(p, "18FactoredPolynomialIdE6resizeE", resize)
        x = lambda j: app("x", (j,), "R")
        real = lambda j: ite(j.lt(nr), f(x(j)), pad)
        pair = lambda j, q: F((x(nr + 2 * j), x(nr + 2 * j + 1)))[q]
        return p.run([ret, s, func, total, pad, R(0)], lambda p, st, v: is_factored(p, st, ret, nr + total - n, nc, real, pair, "transformed roots"))
    return job


PI = Fraction(math.pi)


only = lambda x: next(iter(x.t))[0]


class Angles:
    """sines and cosines of whole multiples of half the band edge angles, as polynomials in the sines and cosines of the half angles"""
    def __init__(s, edges):
        s.edges = edges
        s.c = [T.rvar("cos_half%d" % (i + 1)) for i in range(len(edges))]
        s.s = [T.rvar("sin_half%d" % (i + 1)) for i in range(len(edges))]

    def red(s, p):
        """sin^2 = 1 - cos^2"""
        for sv, cv in zip(s.s, s.c):
            a = only(sv)
            while any(m.count(a) > 1 for m in p.t):
                q = R(0)
                for m, c in p.t.items():
                    m, t = list(m), R(c)
                    if m.count(a) > 1:
                        m.remove(a)
                        m.remove(a)
                        t = t * (R(1) - cv * cv)
                    for x in m:
                        t = t * poly_of(x)
                    q = q + t
                p = q
        return p

    def multiple(s, x):
        """x = sum of whole numbers times half the edge angles"""
        out, rest = [], x
        for e in s.edges:
            c = x.t.get((only(e),), 0)
            k = Fraction(c) * 2 / PI
            if k.denominator != 1:
                return None
            out.append(int(k))
            rest = rest - e * c
        return out if rest.is_const() and rest.const() == 0 else None

    def cis(s, x):
        k = s.multiple(x)
        if k is None:
            return None
        v = (R(1), R(0))
        for n, c, q in zip(k, s.c, s.s):
            for _ in range(abs(n)):
                v = cmul(v, (c, q if n > 0 else -q))
                v = (s.red(v[0]), s.red(v[1]))
        return v

    def trig(s, p, dens):
        """p times a product of denominators, without sines, cosines, tangents and quotients; dens: the denominators met"""
        while True:
            p = s.red(p)
            at = sorted(p.atoms(), key=lambda a: a.id)
            mp = {}
            for a in at:
                if a.op == "app" and a.args[0] in ("m_sin", "m_cos", "m_tan"):
                    v = s.cis(a.args[1])
                    if v is not None:
                        mp[a] = v[0] if a.args[0] == "m_cos" else v[1] if a.args[0] == "m_sin" else rdiv(v[1], v[0])
            if mp:
                p = T.subst(p, mp)
                continue
            inv = [a for m in p.t for a in m if a.op == "inv"]
            if not inv:
                return s.red(p)
            a = max(inv, key=lambda a: a.id)
            x = a.args[0]
            dens.append(x)
            k = max(m.count(a) for m in p.t)
            q = R(0)
            for m, c in p.t.items():
                t, n = R(c), m.count(a)
                for y in m:
                    if y is not a:
                        t = t * poly_of(y)
                for _ in range(k - n):
                    t = t * x
                q = q + t
            p = q


def sign_facts(x):
    """signs of the trigonometric functions of x"""
    sn, cs, tn = (app("m_" + f, (x,), "R") for f in ("sin", "cos", "tan"))
    pi = R(PI)
    out = [sn.le(1), sn.ge(-1), cs.le(1), cs.ge(-1)]
    for lo, hi, g in ((R(0), pi, sn.gt(0)), (-pi, R(0), sn.lt(0)), (R(0), pi * Fraction(1, 2), tn.gt(0)), (-pi * Fraction(1, 2), R(0), tn.lt(0)), (-pi * Fraction(1, 2), pi * Fraction(1, 2), cs.gt(0))):
        out.append(Implies(And(lo.lt(x), x.lt(hi)), g))
    return out


def band(fn):
    """a real all-pass map (its coefficients mirror and s is 1 or -1) with denominators that do not vanish, which takes the
    band edges to the cut-off of the half-band filter (+-i) and the middle of the pass and stop bands to 1 and -1"""
    kind = fn.split("_")[0]
    two = kind.startswith("band")

    def job(mod):
        p = Proof(mod, fn, budget=60)
        gain = p.real("gain")
        s, counts, objs = zpk_system(p, "a", gain)
        edges = [p.real("to%d" % (i + 1)) for i in range(2 if two else 1)]
        for e in edges:
            p.requires(And(e.gt(0), e.lt(1)))
        if two:
            p.requires(edges[0].lt(edges[1]))
        A = Angles(edges)
        met = []

        def handler(e, st, args, ins):
            met.append(1)
            sg, a = args[2], args[3:]
            e.require(st, T.bconst(len(a) == (3 if two else 2) and args[1].obj is s.obj), "%s:pre(order of the map)" % e.cur)
            e.require(st, (sg * sg).eq(1), "%s:pre(all-pass map)" % e.cur)
            atoms = sorted({x for v in a for x in v.atoms()}, key=lambda x: x.id)
            known = [f for x in atoms if x.op == "app" and x.args[0] in ("m_sin", "m_cos", "m_tan") for f in sign_facts(x.args[1])]
            q = st.fork()
            q.pc = list(st.pc) + known
            for x in atoms:
                if x.op == "inv":
                    e.require(q, Not(x.args[0].eq(0)), "%s:pre(coefficients are finite)" % e.cur)
            zero = lambda v: A.trig(v, []).eq(0)

            def mapped(z):
                num, den = (R(0), R(0)), (R(0), R(0))
                for i in range(len(a)):
                    num = tuple(x + y for x, y in zip(cmul(num, z), (a[len(a) - 1 - i], R(0))))
                    den = tuple(x + y for x, y in zip(cmul(den, z), (a[i], R(0))))
                return tuple(sg * x for x in num), den
            for n, x in enumerate(edges):
                z = A.cis(x * PI)
                num, den = mapped(z)
                sq = [x + y for x, y in zip(cmul(num, num), cmul(den, den))]
                for part, v in zip(("real", "imaginary"), sq):
                    e.require(st, zero(v), "%s:pre(edge %d is mapped to the cut-off, %s part)" % (e.cur, n + 1, part))
            points = {"lowpass": ((R(1), 1), (R(-1), -1)), "highpass": ((R(1), -1), (R(-1), 1)), "bandpass": ((R(1), -1), (R(-1), -1)), "bandstop": ((R(1), 1), (R(-1), 1))}[kind]
            for z, want in points:
                num, den = mapped((z, R(0)))
                e.require(st, zero(num[0] - want * den[0]), "%s:pre(%s is mapped to %d)" % (e.cur, "DC" if z.const() == 1 else "the Nyquist frequency", want))
            if two:
                # the centre: cos w0 = cos u / cos d of the half sum and the half difference; z^2 = 2 cos(w0) z - 1
                u = [app("m_" + f, ((edges[0] + edges[1]) * (PI / 2),), "R") for f in ("cos", "sin")]
                d = app("m_cos", ((edges[0] - edges[1]) * (PI / 2),), "R")
                want = 1 if kind == "bandpass" else -1
                # num(z) - want den(z) is a multiple of z^2 - 2 cos(w0) z + 1
                c2, c1, c0 = (sg * a[2 - i] - want * a[i] for i in range(3))
                e.require(st, zero(c2 - c0), "%s:pre(the centre is mapped to %d, outer coefficients)" % (e.cur, want))
                e.require(st, zero(c1 * d + 2 * u[0] * c2), "%s:pre(the centre is mapped to %d, inner coefficient)" % (e.cur, want))
            return [(st, "ret", None)]
        keep_contract(p, "10MapZDomainI", handler)
        r = p.struct("r", [], 120)
        return p.run([r, s] + edges, lambda p, st, v: p.ensure(st, T.bconst(bool(met)), "mapped"))
    return job


def substitution(mod):
    """with the roots moved as proved, every linear factor of the prototype at the mapped point is the factor of the result
    at z, times what the gain collects (identities of polynomials, so they hold for complex roots and points too)"""
    p = Proof(mod, "bilinear", label="factors of the transformed systems")
    k, z, r, a0, a1, a2, s, q = (p.real(x) for x in "k z r a0 a1 a2 s q".split())
    same = lambda x, y, what: p.e.require(p.st, Angles([]).trig(x - y, []).eq(0), "lemma: " + what)
    lap = rdiv(k * (z - 1), z + 1)
    same((lap - r) * (z + 1), (k - r) * (z - rdiv(k + r, k - r)), "bilinear: (s - r)(z + 1) = (k - r)(z - f(r)) for s = k (z - 1) / (z + 1)")
    den = a1 + a0 * z
    same((rdiv(s * (a1 * z + a0), den) - r) * den, (a1 * s - r * a0) * (z - rdiv(a0 * s - a1 * r, a0 * r - a1 * s)), "order 1: (F(z) - r) D(z) = (a1 s - r a0) (z - f(r))")
    same(den, a0 * (z - rdiv(-a1, a0)), "order 1: D(z) = a0 (z - pole of the map)")
    # order 2: the quotient form of the two roots with q a square root of the discriminant
    den = a2 + a1 * z + a0 * z * z
    two = 2 * a0 * r - 2 * a2 * s
    z1, z2 = (rdiv(-(a1 * r - a1 * s + u), two) for u in (q, -q))
    det = (a1 * r - a1 * s) * (a1 * r - a1 * s) + 4 * (a2 * r - a0 * s) * (-(a0 * r) + a2 * s)
    lhs = (rdiv(s * (a2 * z * z + a1 * z + a0), den) - r) * den
    rhs = (a2 * s - r * a0) * ((z - z1) * (z - z2) + rdiv(q * q - det, two * two))
    same(lhs, rhs, "order 2: (F(z) - r) D(z) = (a2 s - r a0) (z - z1) (z - z2) when q^2 is the discriminant")
    d0 = a1 * a1 - 4 * a0 * a2
    p1, p2 = (rdiv(-a1 + u, 2 * a0) for u in (-q, q))
    same(den, a0 * ((z - p1) * (z - p2) + rdiv(q * q - d0, 4 * a0 * a0)), "order 2: D(z) = a0 (z - p1) (z - p2) when q^2 is the discriminant")
    p.secs = 0.0
    return p


def jobs(thorough):
    out = [Job(fn, "b", bilinear(fn)) for fn in ("bilinear", "bilinear_warp")]
    out += [Job(fn, "m", map_z(fn), budget=200) for fn in ("mapz1", "mapz2")]
    out += [Job(fn, "h", band(fn)) for fn in BANDS]
    out += [Job("substitution", "b", substitution)]
    out += [Job("one_pair", "r", one_pair)] + [Job("roots_" + w, "r", transform_roots(w), budget=200) for w in ("bilinear", "mapz1")]
    return out
