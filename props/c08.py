"""C08: streaming FIR filtering."""
from common import *
import sigops

POCKET = ["6detail3r2cI", "6detail3c2cI", "6detail3c2rI"]
OLA = r"re:5dspbb10OverlapAddI.*mmb$"
KEEP = ["ConvolutionSlide", "ConvolutionReduceVec", OLA]
STREAM = "f_conv f_ola f_conv_new f_ola_new f_conv_sig".split()
WHOLE = "f_full_conv f_full_ola f_central_conv f_central_ola".split()
WHOLE += [x + "_new" for x in WHOLE]
UNITS = {"f": dict(cpp="fir.cpp", exports=STREAM + WHOLE + ["f_shift_state"], keep=KEEP, drop=POCKET),
         "two": dict(cpp="fir.cpp", exports=["f_two"], keep=["5dspbb6FilterI"], drop=POCKET)}
REPLAY = [("c08.cpp", ["-DPART%d" % i]) for i in range(1, 6)]
LEVEL = "proof"
ASSUMPTIONS = ["the convolution kernels and OverlapAdd are used through the contracts proved in C06 and C07"]
BOUNDED = "float, complex and mixed elements; streams cut in more than two blocks (the contract of one call composes)"


def ola_contract(e, st, args, ins):
    """OverlapAdd(out, u, v, offset, chunk, clear)"""
    o, u, v, off, chunk, clear = args
    (po, no), (pu, nu), (pv, nv) = [sigops.span(e, st, x, 8) for x in (o, u, v)]
    short = ite(nu.le(nv), nu, nv)
    full = ite(short.eq(0), I(0), nu + nv - 1)
    e.require(st, (off + no).le(full), "%s:pre(OverlapAdd: output inside the full convolution)" % e.cur)
    e.require(st, Or(no.eq(0), chunk.eq(0), chunk.ge(2 * short - 1)), "%s:pre(OverlapAdd: chunk holds a filtered block)" % e.cur)
    if po.obj is None:
        return [(st, "ret", None)]
    e.require(st, T.bconst(po.obj is not pu.obj and po.obj is not pv.obj), "%s:pre(OverlapAdd: output does not overlap the operands)" % e.cur)
    cl = clear if not isinstance(clear, Poly) else clear.ne(0)
    if not e.pv.feasible(st.pc, (no.ge(1),)):
        return [(st, "ret", None)]

    def val(s0):
        def f(j, q, old):
            N = off + j

            def body(k):
                s2 = s0.fork()
                s2.assume(And(k.ge(0), k.le(N)))
                return mem_elem(e, s2, pu, nu, k, 8) * mem_elem(e, s2, pv, nv, N - k, 8)
            return Sum(I(0), N + 1, body) + ite(cl, R(0), old(po, j))
        return f
    sigops.overwrite(e, st, po, no, 8, 1, val(st.fork()))
    return [(st, "ret", None)]


def proof(mod, fn, budget=120):
    p = Proof(mod, fn, budget=budget)
    keep_contract(p, "ConvolutionSlide", conv_kernel_contract)
    keep_contract(p, "ConvolutionReduceVec", conv_kernel_contract)
    keep_contract(p, "5dspbb10OverlapAddI", ola_contract)
    return p


def extended(ns, na, a="a", s="s"):
    """the stream: the state followed by the signal; time 0 is the first sample of the signal"""
    return lambda t: ite(t.ge(0), app(a, (t,), "R"), app(s, (ns + t,), "R"))


def filtered(x, nh, j):
    """causal convolution of the stream with the impulse response"""
    return Sum(I(0), nh, lambda k: app("h", (k,), "R") * x(j - k))


def stream(fn):
    def job(mod):
        p = proof(mod, fn)
        na, nh = p.size("na"), p.size("nh", 1)
        ns = nh - 1
        a, h = p.array("a", na), p.array("h", nh)
        s = p.array("s", ns, readonly=False)
        x = extended(ns, na)

        def chk(p, st, o):
            if o.obj is not None:
                p.ensure_all(st, o, na, 8, lambda j, st_: filtered(x, nh, j), "output is the causal convolution of state and signal")
            p.ensure_all(st, s, ns, 8, lambda j, st_: x(na - ns + j), "the state holds the most recent samples")
        if fn == "f_conv_sig":
            o = p.array("o", na, readonly=False)
            S = [p.struct("s" + nm, [(0, PTR, q), (8, PTR, Ptr(q.obj, 8 * n)), (16, PTR, Ptr(q.obj, 8 * n))], 24) for nm, q, n in (("o", o, na), ("a", a, na), ("h", h, nh), ("s", s, ns))]
            return p.run(S, lambda p, st, v: chk(p, st, o))
        extra = []
        if "ola" in fn:
            extra = [p.size("chunk")]
            p.requires(Or(extra[0].eq(0), extra[0].ge(2 * nh - 1)))
        if fn.endswith("new"):
            r = p.struct("r", [], 24)

            def post(p, st, v):
                b, e_ = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
                p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * na)), "size of the result")
                chk(p, st, b)
            return p.run([r, a, na, h, nh, s, ns] + extra, post)
        o = p.array("o", na, readonly=False)
        return p.run([o, na, a, na, h, nh, s, ns] + extra, lambda p, st, v: chk(p, st, o))
    return job


def shift_state(mod):
    p = proof(mod, "f_shift_state")
    na, ns = p.size("na"), p.size("ns")
    a, s = p.array("a", na), p.array("s", ns, readonly=False)
    x = extended(ns, na)
    return p.run([s, ns, a, na], lambda p, st, v: p.ensure_all(st, s, ns, 8, lambda j, st_: x(na - ns + j), "the state holds the most recent samples"))


def filter_contract(e, st, args, ins):
    """Filter(out, signal, filter, state, FILTER_CONV): the postcondition proved for f_conv"""
    (po, no), (pa, na), (ph, nh), (ps, ns) = [sigops.span(e, st, x, 8) for x in args[:4]]
    e.require(st, And(nh.ge(1), ns.eq(nh - 1), no.eq(na)), "%s:pre(Filter: sizes)" % e.cur)
    st0 = st.fork()

    def ext(s1):
        def x(t):
            s2, s3 = s1.fork(), s1.fork()
            s2.assume(And(t.ge(0), t.lt(na)))
            s3.assume(And(t.lt(0), t.ge(-ns)))
            old = e.read(s3, ps.obj, ps.off + 8 * (ns + t), F64) if ps.obj is not None else R(0)
            if pa.obj is None:
                return old
            return ite(t.ge(0), e.read(s2, pa.obj, pa.off + 8 * t, F64), old)
        return x

    def out(j, q, old):
        def body(k):
            s2 = st0.fork()
            s2.assume(And(k.ge(0), k.lt(nh), j.ge(0), j.lt(na)))
            return e.read(s2, ph.obj, ph.off + 8 * k, F64) * ext(s2)(j - k)
        return Sum(I(0), nh, body)

    def state(j, q, old):
        s2 = st0.fork()
        s2.assume(And(j.ge(0), j.lt(ns)))
        return ext(s2)(na - ns + j)
    for ptr, n, val in ((po, no, out), (ps, ns, state)):
        if ptr.obj is not None and e.pv.feasible(st.pc, (n.ge(1),)):
            sigops.overwrite(e, st, ptr, n, 8, 1, val)
    return [(st, "ret", None)]


def two(mod):
    p = Proof(mod, "f_two", budget=120, label="two blocks equal one")
    keep_contract(p, "5dspbb6FilterI", filter_contract)
    na, nb, nh = p.size("na"), p.size("nb"), p.size("nh", 1)
    ns = nh - 1
    a, b, h = p.array("a", na), p.array("b", nb), p.array("h", nh)
    o, q, s = p.array("o", na, readonly=False), p.array("q", nb, readonly=False), p.array("s", ns, readonly=False)
    # the two blocks as one stream
    x = lambda t: ite(t.ge(na), app("b", (t - na,), "R"), ite(t.ge(0), app("a", (t,), "R"), app("s", (ns + t,), "R")))

    def post(p, st, v):
        p.ensure_all(st, o, na, 8, lambda j, s_: filtered(x, nh, j), "first block")
        p.ensure_all(st, q, nb, 8, lambda j, s_: filtered(x, nh, na + j), "second block continues the stream")
        p.ensure_all(st, s, ns, 8, lambda j, s_: x(na + nb - ns + j), "state after both blocks")
    return p.run([o, q, a, na, b, nb, h, nh, s, ns], post)


def whole(fn):
    def job(mod):
        p = proof(mod, fn)
        na, nh = p.size("na"), p.size("nh")
        a, h = p.array("a", na), p.array("h", nh)
        short, long = ite(na.le(nh), na, nh), ite(na.le(nh), nh, na)
        none = Or(na.eq(0), nh.eq(0))
        no = ite(none, I(0), na + nh - 1 if "full" in fn else long - short + 1)
        off = I(0) if "full" in fn else short - 1
        extra = []
        if "ola" in fn:
            extra = [p.size("chunk")]
            p.requires(Or(extra[0].eq(0), extra[0].ge(2 * short - 1)))
        spec = lambda j, s_: conv_sum("a", na, "h", nh, off + j)
        if fn.endswith("new"):
            r = p.struct("r", [], 24)

            def post(p, st, v):
                b, e_ = p.e.read(st, r.obj, r.off, PTR), p.e.read(st, r.obj, r.off + 8, PTR)
                p.ensure(st, And(T.bconst(b.obj is e_.obj), (e_.off - b.off).eq(8 * no)), "size of the result")
                if b.obj is not None:
                    p.ensure_all(st, b, no, 8, spec, "result is the convolution")
            return p.run([r, a, na, h, nh] + extra, post)
        n = p.size("no")
        p.requires(n.eq(no))
        o = p.array("o", n, readonly=False)
        return p.run([o, n, a, na, h, nh] + extra, lambda p, st, v: p.ensure_all(st, o, n, 8, spec, "output is the convolution"))
    return job


def jobs(thorough):
    return [Job(f, "f", stream(f)) for f in STREAM] + [Job(f, "f", whole(f)) for f in WHOLE] + [Job("shift_state", "f", shift_state), Job("two", "two", two)]
