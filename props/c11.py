"""C11: interval algebra."""
from common import *

FNS = "size ctor plus minus pluseq minuseq equal unequal disjoint intersection encompassing union".split()
TYS = {"l": (I64, 8), "d": (F64, 8), "i": (("i", 32), 4), "u": (I64, 8)}
UNITS = {"i": dict(cpp="interval.cpp", exports=["%s_%s" % (f, s) for f in FNS for s in TYS])}
REPLAY = ["c11.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["offsetting an interval does not overflow"]
BOUNDED = "membership of every integer point for all small intervals; int64, int, float, double, unsigned"


def job(fn, S):
    ty, w = TYS[S]

    def run(mod):
        p = Proof(mod, "%s_%s" % (fn, S), budget=60)
        lo, hi = {"l": (-(1 << 62), 1 << 62), "i": (-(1 << 29), 1 << 29), "u": (0, 1 << 62), "d": (None, None)}[S]
        num = (lambda nm: p.int(nm, lo, hi)) if S != "d" else p.real

        def interval(nm, ordered=True):
            f, l = num(nm + "_first"), num(nm + "_last")
            if ordered:
                p.requires(f.le(l))
            return p.struct(nm, [(0, ty, f), (w, ty, l)], 2 * w), f, l
        r = p.struct("r", [], 2 * w)
        a, af, al = interval("a", fn not in ("equal", "unequal"))
        rd = lambda st, q: (p.e.read(st, q.obj, I(0), ty), p.e.read(st, q.obj, I(w), ty))
        t = num("t")          # an arbitrary point
        inside = lambda f, l: And(f.le(t), t.lt(l))
        bl = lambda v: v if isinstance(v, B) else v.ne(0)
        if fn == "size":
            return p.run([a], lambda p, st, v: p.ensure(st, v.eq(al - af), "size = last - first"))
        if fn == "ctor":
            def post(p, st, v):
                f, l = rd(st, r)
                p.ensure(st, And(f.eq(af), l.eq(al)), "end points")
            return p.run([r, af, al], post)
        if fn in ("plus", "minus", "pluseq", "minuseq"):
            x = num("x")
            s = 1 if fn.startswith("plus") else -1
            if S == "u" and s < 0:
                p.requires(x.le(af))

            def post(p, st, v):
                f, l = rd(st, r)
                p.ensure(st, And(f.eq(af + s * x), l.eq(al + s * x)), "offset end points")
                f, l = rd(st, a)
                if fn.endswith("eq"):
                    p.ensure(st, And(f.eq(af + s * x), l.eq(al + s * x)), "operand is offset")
                else:
                    p.ensure(st, And(f.eq(af), l.eq(al)), "operand is unchanged")
            return p.run([r, a, x], post)
        b, bf, bl_ = interval("b", fn not in ("equal", "unequal"))
        if fn in ("equal", "unequal"):
            e = And(af.eq(bf), al.eq(bl_))
            return p.run([a, b], lambda p, st, v: p.ensure(st, Iff(bl(v), e if fn == "equal" else Not(e)), "equality of end points"))
        # for half-open ranges of numbers: a common point exists iff max(first) < min(last)
        common = And(af.lt(bl_), bf.lt(al), af.lt(al), bf.lt(bl_))
        if fn == "disjoint":
            return p.run([a, b], lambda p, st, v: p.ensure(st, Iff(bl(v), Not(common)), "disjoint iff no common point"))

        def unchanged(st):
            for q, x, y in ((a, af, al), (b, bf, bl_)):
                f, l = rd(st, q)
                p.ensure(st, And(f.eq(x), l.eq(y)), "operand is unchanged")
        if fn == "intersection":
            def post(p, st, v):
                f, l = rd(st, r)
                p.ensure(st, Iff(inside(f, l), And(inside(af, al), inside(bf, bl_))), "a point is in the intersection iff it is in both")
                p.ensure(st, Implies(Not(common), f.eq(l)), "empty when disjoint")
                p.ensure(st, f.le(l), "ordered")
                unchanged(st)
            return p.run([r, a, b], post)

        def hull(st):
            f, l = rd(st, r)
            p.ensure(st, And(f.le(af), f.le(bf), al.le(l), bl_.le(l)), "contains both")
            p.ensure(st, And(Or(f.eq(af), f.eq(bf)), Or(l.eq(al), l.eq(bl_))), "smallest: each end point is one of the operands'")
        if fn == "encompassing":
            def post(p, st, v):
                hull(st)
                unchanged(st)
            return p.run([r, a, b], post)

        def post(p, st, v):
            p.ensure(st, Iff(bl(v), common), "union exists iff the intervals overlap")
            s = st.fork()
            s.assume(bl(v))
            if p.pv.feasible(s.pc):
                hull(s)
                f, l = rd(s, r)
                p.ensure(s, Iff(inside(f, l), Or(inside(af, al), inside(bf, bl_))), "a point is in the union iff it is in one of them")
        return p.run([r, a, b], post)
    return run


def jobs(thorough):
    return [Job("%s_%s" % (f, s), "i", job(f, s), 60) for f in FNS for s in TYS]
