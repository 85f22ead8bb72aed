"""C20: layout of the Fourier transforms, spectrum shifts, bin and frequency."""
from fractions import Fraction as Q
from common import *
import sigops
import c19

SH = "shift_into ishift_into shift_in_place ishift_in_place shift_new ishift_new".split()
BIN = "bin2freq freq2bin freq2bin2freq".split()
FT = "rfft_into rfft_full rfft_half cfft_into cfft_new irfft_into irfft_full irfft_half icfft_into icfft_new".split()
POCKET = ["6detail3r2cI", "6detail3c2cI", "6detail3c2rI"]
UNITS = {"s": dict(cpp="fft.cpp", exports=SH + BIN, defines=["-DSHIFT"], keep=["NSt3_V28__rotate"]),
         "sc": dict(cpp="fft.cpp", exports=SH, defines=["-DSHIFT", "-DA_C"], keep=["NSt3_V28__rotate"]),
         "t": dict(cpp="fft.cpp", exports=FT, drop=POCKET, keep=["dspbb4ConjI"])}
REPLAY = [("c20.cpp", ["-DPART1"]), ("c20.cpp", ["-DPART2"]), ("c20.cpp", ["-DPART3"])]
LEVEL = "proof"
ASSUMPTIONS = ["std::rotate rotates (contract of the standard library, not verified)",
               "pocketfft r2c, c2c and c2r (bundled third-party code) compute the unnormalised transform times the given factor: r2c the first n/2+1 bins, c2r from the first n/2+1 bins; checked bounded against the defining sum"]
BOUNDED = "the transforms themselves, float elements"


def rotate(elt):
    def h(e, st, args, ins):
        f, m, l = args[:3]
        e.assumed.add("std::rotate rotates (contract, not verified)")
        if f.obj is None:
            return [(st, "ret", f)]
        e.require(st, And(T.bconst(f.obj is m.obj and m.obj is l.obj), f.off.ge(0), f.off.le(m.off), m.off.le(l.off), l.off.le(f.obj.size)), "%s:pre(rotate: first <= middle <= last inside one array)" % e.cur)
        w, comps = elt, 1 if elt == 8 else 2
        n, k = idiv(l.off - f.off, w), idiv(m.off - f.off, w)
        sigops.overwrite(e, st, f, n, w, comps, lambda j, q, old: ite((j + k).lt(n), old(f, j + k, q), old(f, j + k - n, q)))
        return [(st, "ret", Ptr(f.obj, f.off + (l.off - m.off)))]
    return h


def shift(fn, w):
    comps = w // 8

    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, "complex" if comps == 2 else "real"))
        keep_contract(p, "NSt3_V28__rotate", rotate(w))
        n = p.size("n")
        # centre: the position of the zero frequency after FftShift
        c = idiv(n, 2)
        src = (lambda j: ite(j.ge(c), j - c, j + n - c)) if not fn.startswith("i") else (lambda j: ite((j + c).lt(n), j + c, j + c - n))

        def chk(p, st, ptr, nm):
            for q in range(comps):
                p.ensure_all(st, Ptr(ptr.obj, ptr.off + 8 * q), n, w, lambda j, s, q=q: app(nm, (comps * src(j) + q,), "R"), "bin j comes from the rotated position")
        if fn.endswith("place"):
            o = p.array("o", comps * n, readonly=False)
            return p.run([o, n], lambda p, st, v: chk(p, st, o, "o"))
        a = p.array("a", comps * n)
        if fn.endswith("new"):
            r = p.struct("r", [], 24)
            s = p.struct("s", [(0, PTR, a), (8, PTR, Ptr(a.obj, w * n)), (16, PTR, Ptr(a.obj, w * n))], 24)

            def post(p, st, v):
                b, x = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
                p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(w * n)), "size of the result")
                if b.obj is not None:
                    chk(p, st, b, "a")
            return p.run([r, s], post)
        o = p.array("o", comps * n, readonly=False)
        return p.run([o, n, a, n], lambda p, st, v: chk(p, st, o, "a"))
    return job


def bins(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60)
        n, rate = p.size("n", 1), p.size("rate", 1)
        p.pv.fact_gens["floor"] = c19.floor_facts
        if fn == "freq2bin":
            f = p.real("f")
            p.requires(f.ge(0))
            x = f * rinv(to_real(rate)) * to_real(n)
            half = R(Q(1, 2))
            return p.run([f, n, rate], lambda p, st, v: p.ensure(st, And(to_real(v).le(x + half), (x + half).lt(to_real(v) + 1)), "nearest bin"))
        k = p.size("k")
        if fn == "bin2freq":
            return p.run([k, n, rate], lambda p, st, v: p.ensure(st, v.eq(to_real(k) * rinv(to_real(n)) * to_real(rate)), "frequency of the bin"))
        return p.run([k, n, rate], lambda p, st, v: p.ensure(st, v.eq(k), "the bin of a bin's frequency is the bin"))
    return job


def vec1(e, st, v, what):
    """the only element of a std::vector of one 8-byte integer"""
    b, x = e.read(st, v.obj, v.off, PTR), e.read(st, v.obj, v.off + 8, PTR)
    e.require(st, And(T.bconst(b.obj is x.obj and b.obj is not None), (x.off - b.off).eq(8)), "%s:pre(%s: one dimension)" % (e.cur, what))
    return e.read(st, b.obj, b.off, I64)


def boolean(v):
    return v if not isinstance(v, Poly) else v.ne(0)


def pocket(kind):
    """r2c(shape, stride_in, stride_out, axis, forward, in, out, fct, threads) and its relatives"""
    def h(e, st, args, ins):
        shape, si, so, axis, fwd, din, dout, fct = args[:8]
        e.assumed.add("pocketfft computes the transform (contract, not verified; compared with the defining sum in the bounded part)")
        n = vec1(e, st, shape, "shape")
        wi, wo = (8 if kind == "r2c" else 16), (8 if kind == "c2r" else 16)
        ni = idiv(n, 2) + 1 if kind == "c2r" else n
        no = idiv(n, 2) + 1 if kind == "r2c" else n
        e.require(st, n.ge(1), "%s:pre(transform of at least one sample)" % e.cur)
        e.require(st, And(vec1(e, st, si, "input stride").eq(wi), vec1(e, st, so, "output stride").eq(wo)), "%s:pre(contiguous elements)" % e.cur)
        ax = axis if isinstance(axis, Poly) else vec1(e, st, axis, "axes")
        e.require(st, ax.eq(0), "%s:pre(the only axis)" % e.cur)
        e.require(st, And(T.bconst(din.obj is not None and dout.obj is not None)), "%s:pre(arrays given)" % e.cur)
        e.require(st, And(din.off.ge(0), (din.off + wi * ni).le(din.obj.size)), "%s:pre(input holds the samples the transform reads)" % e.cur)
        e.require(st, And(dout.off.ge(0), (dout.off + wo * no).le(dout.obj.size)), "%s:pre(output has room for what the transform writes)" % e.cur)
        e.require(st, T.bconst(not dout.obj.readonly), "%s:frame(the output is assignable)" % e.cur)
        # which transform of which input: recorded for the postcondition
        e.require(st, boolean(fwd) if kind == "r2c" else Not(boolean(fwd)) if kind == "c2r" else TRUE, "%s:pre(direction)" % e.cur)
        d = ite(boolean(fwd), I(1), I(-1))
        comps = wo // 8
        sigops.overwrite(e, st, dout, no, wo, comps, lambda j, q, old: fct * app("%s_%s" % (kind, "re" if q == 0 else "im"), (d, n, j), "R"))
        e.ghost_in = getattr(e, "ghost_in", []) + [(din, dict(st.mem))]
        return [(st, "ret", None)]
    return h


def transform(fn):
    def job(mod):
        p = Proof(mod, fn, budget=90)
        for k in ("r2c", "c2c", "c2r"):
            keep_contract(p, "6detail3%sI" % k, pocket(k))

        def conj(e, st, args, ins):
            (b, n), (x, nx) = sigops.span(e, st, args[0], 16), sigops.span(e, st, args[1], 16)
            e.require(st, n.eq(nx), "%s:pre(equal lengths)" % e.cur)
            sigops.overwrite(e, st, b, n, 16, 2, lambda j, q, old: -old(x, j, 1) if q else old(x, j, 0))
            return [(st, "ret", None)]
        keep_contract(p, "dspbb4ConjI", conj)
        inverse, cplx = fn.startswith("i"), "cfft" in fn
        wi = 16 if inverse or cplx else 8
        wo = 16 if not inverse or cplx else 8
        kind = "c2c" if cplx else "c2r" if inverse else "r2c"
        # n: the number of time samples; ni, no: elements given and produced
        if fn in ("irfft_half",):
            ni = p.size("ni", 2)
            even = p.int("even", 0, 1)
            n = no = 2 * ni - 1 - even
        elif fn == "rfft_into":
            n, no = p.size("n", 1), p.size("no")
            ni = n
            p.requires(Or(no.eq(n), no.eq(idiv(n, 2) + 1)))
        elif fn == "irfft_into":
            n, ni = p.size("n", 1), p.size("ni")
            no = n
            p.requires(Or(ni.eq(n), ni.eq(idiv(n, 2) + 1)))
        else:
            n = ni = p.size("n", 1)
            no = idiv(n, 2) + 1 if fn == "rfft_half" else n
        a = p.array("a", (wi // 8) * ni)
        fct = rinv(to_real(n)) if inverse else R(1)
        d = I(-1 if inverse else 1)
        re_ = lambda j: fct * app(kind + "_re", (d, n, j), "R")
        im = lambda j: fct * app(kind + "_im", (d, n, j), "R")

        def spec(j, q):
            if kind != "r2c":
                return im(j) if q else re_(j)
            h = idiv(n, 2)
            return ite(j.le(h), im(j), -im(n - j)) if q else ite(j.le(h), re_(j), re_(n - j))

        def chk(p, st, ptr):
            g = getattr(p.e, "ghost_in", [])
            p.ensure(st, T.bconst(bool(g) and all(x.obj is a.obj and x.off == a.off for x, _ in g)), "the input is what is transformed")
            for q in range(wo // 8):
                p.ensure_all(st, Ptr(ptr.obj, ptr.off + 8 * q), no, wo, lambda j, s, q=q: spec(j, q), ("real", "imaginary")[q] + " part of every bin" if wo == 16 else "every sample")
        if fn.endswith("into"):
            o = p.array("o", (wo // 8) * no, readonly=False)
            return p.run([o, no, a, ni], lambda p, st, v: chk(p, st, o))
        r = p.struct("r", [], 24)

        def post(p, st, v):
            b, x = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
            p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(wo * no)), "size of the result")
            if b.obj is not None:
                chk(p, st, b)
        return p.run([r, a, ni] + ([even.eq(1)] if fn == "irfft_half" else []), post)
    return job


def jobs(thorough):
    J = [Job("%s<%s>" % (f, u), u, shift(f, w)) for u, w in (("s", 8), ("sc", 16)) for f in SH]
    return J + [Job(f, "s", bins(f)) for f in BIN] + [Job(f, "t", transform(f)) for f in FT]
