"""C06: convolution."""
from common import *

UNITS = {
    "kern": dict(cpp="conv_kernel.cpp", exports=["slide_d", "slide_acc_d", "slide_f", "slide_acc_f"]),
    "kernr": dict(cpp="conv_kernel.cpp", exports=["reduce_d", "reduce_acc_d", "reduce_f", "reduce_acc_f"], keep=["ConvolutionReduceLoop"]),
    "api": dict(cpp="conv_api.cpp", exports="len_full len_central conv_into conv_into_acc conv_full conv_central conv_new conv_new_full conv_new_central".split(),
                keep=["ConvolutionSlide", "ConvolutionReduceVec"]),
}
REPLAY = ["c06.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["the compensated accumulation (plus_compensated) equals plain addition over the reals; its rounding behaviour is not part of this property"]


def kernel_setup(p, elt):
    no, na, nb, off = p.size("no"), p.size("na"), p.size("nb"), p.size("off")
    p.requires(Or(And(no.eq(0), off.eq(0)), And(na.ge(1), nb.ge(1), (off + no).le(na + nb - 1))))
    o = p.array("o", no, elt, readonly=False)
    a = p.array("a", na, elt)
    b = p.array("b", nb, elt)
    return no, na, nb, off, o, a, b


def slide(fn, acc, elt):
    def job(mod):
        p = Proof(mod, fn, budget=600, label="kernels::ConvolutionSlide<%s>(accumulate=%s)" % ("double" if elt == 8 else "float", acc))
        no, na, nb, off, o, a, b = kernel_setup(p, elt)

        def minv(li, ob, ent):
            if ob is not o.obj:
                return []
            out = []
            ka = next(iter(li.k.atoms()))
            for nm, i0, h in li.ints():
                if isinstance(li.hdr[nm], Ptr) or ka not in h.atoms():
                    continue
                for sw in (0, 1):
                    def cf(ctx, h=h, sw=sw):
                        m = ctx.of(h)

                        def f(rst, offb, ty):
                            j = offb.divides_exact(elt)
                            if j is None:
                                return p.e.fresh_val(ty)
                            base = app("o", (j,), "R") if acc else R(0)
                            if sw:
                                return base + Sum(I(0), m, lambda k: uz("b", k, nb) * uz("a", off + j - k, na))
                            return base + Sum(I(0), m, lambda k: uz("a", k, na) * uz("b", off + j - k, nb))
                        return Content(ent, "fn", (I(0), no * elt, f))
                    out.append(cf)
            return out
        p.e.mem_inv = [minv]

        def post(p, st, v):
            p.ensure_all(st, o, no, elt, lambda j, s: conv_sum("a", na, "b", nb, off + j) + (app("o", (j,), "R") if acc else 0), "out[j]=(a*b)[off+j]", ty=ft(elt))
        return p.run([o, no, a, na, b, nb, off], post)
    return job


def reduce(fn, acc, elt):
    def job(mod):
        out = []
        for f in [f for f in mod.funcs if "ConvolutionReduceLoop" in f]:
            out.append(reduce_loop(mod, f, elt))
        out = [x for x in out if x]
        p = Proof(mod, fn, budget=600, label="kernels::ConvolutionReduceVec<%s>(accumulate=%s)" % ("double" if elt == 8 else "float", acc))
        keep_contract(p, "ConvolutionReduceLoop", reduce_loop_contract(elt))
        no, na, nb, off, o, a, b = kernel_setup(p, elt)

        def spec(j):
            return conv_sum("a", na, "b", nb, off + j) + (app("o", (j,), "R") if acc else 0)

        def minv(li, ob, ent):
            if ob is not o.obj:
                return []
            res = []
            for nm, i0, h in li.ints():
                def cf(ctx, h=h, i0=i0):
                    m = ctx.of(h) - i0

                    def f(rst, offb, ty):
                        j = offb.divides_exact(elt)
                        return p.e.fresh_val(ty) if j is None else spec(j)
                    return Content(ent, "fn", (I(0), m * (1 if isinstance(li.hdr[nm], Ptr) else elt), f))
                res.append(cf)
            return res
        p.e.mem_inv = [minv]

        def post(p, st, v):
            p.ensure_all(st, o, no, elt, lambda j, s: spec(j), "out[j]=(a*b)[off+j]", ty=ft(elt))
        return out + [p.run([o, no, a, na, b, nb, off], post)]
    return job


def reduce_loop(mod, fn, elt):
    name = fn[1:].strip('"')
    f = mod.funcs[fn]
    lanes = None
    for _, t, *_ in f.params:
        t = mod.resolve(t)
        if t[0] == "vec":
            lanes = t[1]
            if t[2] != ft(elt):
                return None
    p = Proof(mod, name, budget=100, label="kernels::ConvolutionReduceLoop<%s> x%s" % ("double" if elt == 8 else "float", lanes or 1))
    na, nb, cnt, i1, i2 = p.size("na"), p.size("nb"), p.size("count"), p.int("i1"), p.int("i2")
    a = p.array("a", na, elt)
    b = p.array("b", nb, elt)
    L = lanes or 1
    p.requires(Implies(cnt.ge(1), And(i1.ge(0), (i1 + cnt).le(na), (i2 - cnt + 1).ge(0), (i2 + L).le(nb))))
    x = tuple(p.real("x%d" % l) for l in range(L))

    def post(p, st, v):
        vv = v if isinstance(v, tuple) else (v,)
        for l in range(L):
            p.ensure(st, vv[l].eq(x[l] + Sum(I(0), cnt, lambda m: app("a", (i1 + m,), "R") * app("b", (i2 - m + l,), "R"))), "lane%d" % l)
    return p.run([Ptr(a.obj, elt * i1), Ptr(b.obj, elt * i2), x if lanes else x[0], cnt], post)


def api_proof(mod, fn, budget=200):
    p = Proof(mod, fn, budget=budget, label="Convolution[%s]" % fn)
    keep_contract(p, "ConvolutionSlide", conv_kernel_contract)
    keep_contract(p, "ConvolutionReduceVec", conv_kernel_contract)
    return p


def into(fn, mode):
    def job(mod):
        p = api_proof(mod, fn)
        no, na, nb = p.size("no"), p.size("na"), p.size("nb")
        o, a, b = p.array("o", no, readonly=False), p.array("a", na), p.array("b", nb)
        args = [o, no, a, na, b, nb]
        full = ite(Or(na.eq(0), nb.eq(0)), I(0), na + nb - 1)
        if mode == "off":
            off = p.size("off")
            p.requires((off + no).le(full))
            args.append(off)
            acc = FALSE if fn == "conv_into" else TRUE
        else:
            clear = T.fresh_b("clear")
            args.append(clear)
            acc = Not(clear)
            if mode == "full":
                off = I(0)
                p.requires(no.eq(full))
            else:
                short = ite(na.le(nb), na, nb)
                long = ite(na.le(nb), nb, na)
                p.requires(no.eq(ite(Or(na.eq(0), nb.eq(0)), I(0), long - short + 1)))
                off = short - 1

        def post(p, st, v):
            p.ensure_all(st, o, no, 8, lambda j, s: conv_sum("a", na, "b", nb, off + j) + ite(acc, app("o", (j,), "R"), R(0)), "out[j]=(a*b)[off+j]")
        return p.run(args, post)
    return job


def new(fn, mode):
    def job(mod):
        p = api_proof(mod, fn)
        na, nb = p.size("na"), p.size("nb")
        a, b = p.array("a", na), p.array("b", nb)
        r = p.struct("r", [], 24)
        args = [r, a, na, b, nb]
        full = ite(Or(na.eq(0), nb.eq(0)), I(0), na + nb - 1)
        if mode == "off":
            off, length = p.size("off"), p.size("len")
            p.requires((off + length).le(full))
            args += [off, length]
        elif mode == "full":
            off, length = I(0), full
        else:
            short = ite(na.le(nb), na, nb)
            long = ite(na.le(nb), nb, na)
            off, length = short - 1, ite(Or(na.eq(0), nb.eq(0)), I(0), long - short + 1)

        def post(p, st, v):
            begin = p.e.read(st, r.obj, I(0), PTR)
            end = p.e.read(st, r.obj, I(8), PTR)
            p.ensure(st, T.bconst(begin.obj is end.obj), "result is one array")
            p.ensure(st, (end.off - begin.off).eq(8 * length), "size of the result")
            if begin.obj is None:
                return
            p.ensure_all(st, begin, length, 8, lambda j, s: conv_sum("a", na, "b", nb, off + j), "result[j]=(a*b)[off+j]")
        return p.run(args, post)
    return job


def length(fn, full):
    def job(mod):
        p = Proof(mod, fn, label="ConvolutionLength[%s]" % fn)
        a, b = p.size("a"), p.size("b")
        want = ite(Or(a.eq(0), b.eq(0)), I(0), a + b - 1 if full else ite(a.ge(b), a - b, b - a) + 1)

        def post(p, st, v):
            p.ensure(st, v.eq(want), "length")
        return p.run([a, b], post)
    return job


def jobs(thorough):
    J = [Job("slide_d", "kern", slide("slide_d", False, 8), 600), Job("slide_acc_d", "kern", slide("slide_acc_d", True, 8), 600),
         Job("reduce_d", "kernr", reduce("reduce_d", False, 8), 600), Job("reduce_acc_d", "kernr", reduce("reduce_acc_d", True, 8), 600)]
    if thorough:
        J += [Job("slide_f", "kern", slide("slide_f", False, 4), 800), Job("slide_acc_f", "kern", slide("slide_acc_f", True, 4), 800),
              Job("reduce_f", "kernr", reduce("reduce_f", False, 4), 600), Job("reduce_acc_f", "kernr", reduce("reduce_acc_f", True, 4), 600)]
    J += [Job("len_full", "api", length("len_full", True)), Job("len_central", "api", length("len_central", False)),
          Job("conv_into", "api", into("conv_into", "off")), Job("conv_into_acc", "api", into("conv_into_acc", "off")),
          Job("conv_full", "api", into("conv_full", "full")), Job("conv_central", "api", into("conv_central", "central")),
          Job("conv_new", "api", new("conv_new", "off")), Job("conv_new_full", "api", new("conv_new_full", "full")),
          Job("conv_new_central", "api", new("conv_new_central", "central"))]
    return J
