"""C15: system representations."""
from common import *
import time
import sigops
from c14 import factored, is_factored, is_vector, vec, root, recurrence, cmul, complex_parts, tracks
from terms import rdiv
from c07 import new_array, fill_new

VALUE = "zpk_eval zpk_evalc czpk_eval tf_eval tf_evalc".split()
STORE = "zpk_order tf_order cb_order zpk_copy zpk_move zpk_assign zpk_massign tf_copy tf_move tf_assign tf_massign tf_polys cb_copy cb_move cb_assign".split()
SECTION = "re:^_ZN5dspbb14CascadedBiquadIdE11EvalSectionI"
UNITS = {"e": dict(cpp="systems.cpp", exports=VALUE, keep=["re:^_ZNK5dspbb18FactoredPolynomialIdE4evalI", "re:^_ZNK5dspbb10PolynomialIdE4EvalI"]),
         "o": dict(cpp="systems.cpp", exports=STORE),
         "m": dict(cpp="systems.cpp", exports=["tf_make", "ctf_make"], keep=["re:^_ZN5dspbb16ExpandPolynomialI"]),
         "v": dict(cpp="systems.cpp", exports=["cb_eval", "cb_evalc"], keep=[SECTION]),
         "c": dict(cpp="systems.cpp", exports=["cb_make"], keep=["re:^_ZN5dspbb14CascadedBiquadIdE19RealRootPolynomialsI", "re:^_ZN5dspbb14CascadedBiquadIdE22ComplexPairPolynomialsI",
                                                                 "re:^_ZSt4sortI", "re:15_M_range_insertI"]),
         "r": dict(cpp="systems.cpp", exports=["cb_make"], keep=["re:^_ZN5dspbb14CascadedBiquadIdE19RealRootPolynomialsI", "re:^_ZN5dspbb14CascadedBiquadIdE22ComplexPairPolynomialsI",
                                                                 "re:^_ZSt4sortI", "re:^_ZSt15partition_pointI", "re:12emplace_backI"])}
REPLAY = [("c15.cpp", ["-DPART1"]), "c15.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["std::sort permutes its range, std::partition_point returns an iterator of it, std::vector::emplace_back and insert at the end append",
               "The values and expansion of (factored) polynomials are those proved for C14; the ghost product over the sections is the unique solution of its recurrence.",
               "The product of all factors does not depend on their order (mathematics), so the cascade built from the sorted polynomials has the value gain * zeros / poles: each root is in exactly one polynomial (proved), each polynomial in exactly one section (proved).",
               "|z|^2 = re^2 + im^2 for std::abs of a complex number"]
BOUNDED = "float coefficients; rounding; the composed value of cascades and transfer functions at sample points; systems with up to 5 real roots and 2 pairs on each side, and some with up to 16 real roots"


def point(p, cx):
    d = 2 if cx else 1
    return p.array("x", d), [app("x", (I(q),), "R") for q in range(d)]


def over(n, d):
    """quotient of complex or real values"""
    if len(n) == 1:
        return [rdiv(n[0], d[0])]
    m = d[0] * d[0] + d[1] * d[1]
    return [rdiv(n[0] * d[0] + n[1] * d[1], m), rdiv(n[1] * d[0] - n[0] * d[1], m)]


def result(p, s, x, cx, want, what):
    if not cx:
        return p.run([s, x], lambda p, st, r: p.ensure(st, r.eq(want[0]), what))
    r = p.array("r", 2, readonly=False)
    return p.run([r, s, x], lambda p, st, v: [p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(want[q]), what + ", part %d" % q) for q in range(2)])


def value(fn):
    """gain * zeros(x) / poles(x), numerator(x) / denominator(x): the values of the polynomials are those proved in C14"""
    def job(mod):
        p = Proof(mod, fn, budget=60)
        cx = fn.endswith("c")
        x, X = point(p, cx)
        zpk = "zpk" in fn
        if zpk:
            gain = p.real("gain")
            s = p.struct("s", [(0, F64, gain)], 120)
        else:
            s = p.struct("s", [], 48)
        names = {8: "zeros", 64: "poles"} if zpk else {0: "numerator", 24: "denominator"}

        def handler(e, st, args, ins):
            o, at = args[0], args[1]
            part = names.get(int(o.off.const())) if o.off.is_const() else None
            e.require(st, T.bconst(o.obj is s.obj and part is not None), "%s:pre(a polynomial of the system)" % e.cur)
            for q in range(len(X)):
                e.require(st, e.read(st, at.obj, at.off + 8 * q, F64).eq(X[q]), "%s:pre(evaluated at the point)" % e.cur)
            v = [app("%s%d" % (part, q), (I(0),), "R") for q in range(len(X))]
            return [(st, "ret", v if cx else v[0])]
        for f in ("18FactoredPolynomialIdE4evalI", "10PolynomialIdE4EvalI"):
            keep_contract(p, f, handler)
        val = lambda part: [app("%s%d" % (part, q), (I(0),), "R") for q in range(len(X))]
        want = over([gain * v for v in val("zeros")], val("poles")) if zpk else over(val("numerator"), val("denominator"))
        return result(p, s, x, cx, want, "quotient of the polynomials")
    return job


def sections(p, name, n, m=None):
    a = p.array(m or name, 6 * n, readonly=False)
    a.obj.record = RECORD
    return p.struct(name + "_s", [(0, PTR, a), (8, PTR, Ptr(a.obj, 48 * n)), (16, PTR, Ptr(a.obj, 48 * n))], 24), a


def cascade_value(fn):
    """the product of the values of the sections"""
    def job(mod):
        p = Proof(mod, fn, budget=100)
        cx = fn.endswith("c")
        x, X = point(p, cx)
        n = p.size("n")
        s, a = sections(p, "a", n)
        V = lambda i: [app("V%d" % q, (i,), "R") for q in range(len(X))]

        def handler(e, st, args, ins):
            o, at = args[0], args[1]
            i = o.off.divides_exact(48)
            e.require(st, T.bconst(o.obj is a.obj and i is not None), "%s:pre(a section of the system)" % e.cur)
            if i is None:
                i = fresh("i")
            e.require(st, And(i.ge(0), i.lt(n)), "%s:pre(the section exists)" % e.cur)
            for q in range(len(X)):
                e.require(st, e.read(st, at.obj, at.off + 8 * q, F64).eq(X[q]), "%s:pre(evaluated at the point)" % e.cur)
            v = V(i)
            return [(st, "ret", v if cx else v[0])]
        keep_contract(p, "11EvalSectionI", handler)
        one = [R(1), R(0)][:len(X)]
        Q = recurrence(p, "Q", one, lambda v, i: cmul(v, V(i)) if cx else [v[0] * V(i)[0]], len(X))
        at = lambda o: o.divides_exact(48)
        tracks(p, lambda k, o: Q(k), lambda k, o: Q(at(o)) if at(o) is not None else None)
        return result(p, s, x, cx, Q(n), "product of the sections")
    return job


def section(cx, num, den):
    """(b0 x^-2 + b1 x^-1 + b2) ..: order 2 c0 + c1 x + c2 x^2, order 1 c0 + c1 + c2 x, order 0 c0 + c2"""
    def job(mod):
        nm = [f[1:].strip('"') for f in mod.funcs if "11EvalSectionI" + ("S" if cx else "d") in f and "EvalSection" in f][0]
        p = Proof(mod, nm, budget=60, label="section[%s,%d/%d]" % ("complex" if cx else "real", num, den))
        x, X = point(p, cx)
        c = [p.real("n%d" % i) for i in range(3)]
        d = [p.real("d%d" % i) for i in range(2)] + [R(1)]
        s = p.struct("s", [(8 * i, F64, v) for i, v in enumerate(c + d[:2])] + [(40, ("i", 8), I(num)), (41, ("i", 8), I(den))], 48)
        xx = cmul(X, X) if cx else [X[0] * X[0]]
        zero, one = [R(0)] * len(X), [R(1), R(0)][:len(X)]
        xs = [zero, one, X, xx]
        poly = lambda c, o: [(c[0] if q == 0 else R(0)) + c[1] * xs[o][q] + c[2] * xs[o + 1][q] for q in range(len(X))]
        want = over(poly(c, num), poly(d, den))

        def post(p, st, v):
            for q, (g, w) in enumerate(zip(v if cx else [v], want)):
                p.ensure(st, g.eq(w), "value of the section, part %d" % q)
        return p.run([s, x], post)
    return job


I8 = ("i", 8)
RECORD = (48, [(8 * q, F64) for q in range(5)] + [(40 + q, ("i", 8)) for q in range(2)])


def copied(p, a):
    """loop candidate: the sections up to a position of the loop are those of the source"""
    def minv(li, ob, ent):
        ob.record = RECORD
        out = []
        for nm, i0, h in li.ints():
            if not (isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob):
                continue

            def cf(ctx, h=h, i0=i0):
                def f(rst, offb, ty):
                    if not any(ty == t and (offb - at).divides_exact(48) is not None for at, t in RECORD[1]):
                        return p.e.fresh_val(ty)
                    return p.e.read(rst, a.obj, offb, ty)
                return Content(ent, "fn", (i0, ctx.of(h), f))
            out.append(cf)
        return out
    p.e.mem_inv = [minv]


def storage(fn):
    def job(mod):
        p = Proof(mod, fn, budget=150)
        kind, op = fn.split("_")
        mx = lambda a, b: ite(a.ge(b), a, b)
        if kind == "zpk":
            gain = p.real("gain")

            s, (nr, nc, qr, qc), objs = zpk_system(p, "a", gain)
            if op == "order":
                return p.run([s], lambda p, st, v: p.ensure(st, v.eq(mx(nr + 2 * nc, qr + 2 * qc)), "the larger number of roots"))
            r = p.struct("r", [], 120) if op in ("copy", "move") else zpk_system(p, "b", p.real("old"))[0]
            Z, Q = root("az", nr), root("ap", qr)

            def same(st, o, what, un):
                p.ensure(st, p.e.read(st, o.obj, I(0), F64).eq(gain), what + ": gain")
                is_factored(p, st, Ptr(o.obj, I(8)), nr, nc, *Z, what + ": zeros", un[0])
                is_factored(p, st, Ptr(o.obj, I(64)), qr, qc, *Q, what + ": poles", un[1])

            def post(p, st, v):
                move = op in ("move", "massign")
                same(st, r, "system of the source", (None, None) if move else objs)
                if not move:
                    same(st, s, "source unchanged", (None, None))
            return p.run([r, s], post)
        if kind == "tf":
            n, m = p.size("n"), p.size("m")
            C = [lambda j, nm=nm: app(nm, (j,), "R") for nm in ("num", "den")]

            def make(nm, n, m):
                a, f = vec(p, nm + "num" if nm else "num", n)
                b, g = vec(p, nm + "den" if nm else "den", m)
                return f + [(o + 24, t, v) for o, t, v in g], (a.obj, b.obj), g
            f, objs, g = make("", n, m)
            less = lambda n: ite(n.ge(1), n - 1, I(0))
            if op == "polys":
                r, x, y = p.struct("r", [], 48), p.struct("x", f[:3], 24), p.struct("y", g, 24)

                def post(p, st, v):
                    is_vector(p, st, r, 0, n, C[0], "numerator", objs[0])
                    is_vector(p, st, r, 24, m, C[1], "denominator", objs[1])
                return p.run([r, x, y], post)
            s = p.struct("s", f, 48)
            if op == "order":
                return p.run([s], lambda p, st, v: p.ensure(st, v.eq(mx(less(n), less(m))), "the larger order"))
            r = p.struct("r", make("old", p.size("on"), p.size("om"))[0] if op in ("assign", "massign") else [], 48)

            def post(p, st, v):
                move = op in ("move", "massign")
                is_vector(p, st, r, 0, n, C[0], "numerator", None if move else objs[0])
                is_vector(p, st, r, 24, m, C[1], "denominator", None if move else objs[1])
                if not move:
                    is_vector(p, st, s, 0, n, C[0], "numerator of the source")
                    is_vector(p, st, s, 24, m, C[1], "denominator of the source")
            return p.run([r, s], post)
        n = p.size("n")
        s, a = sections(p, "a", n)
        byte = lambda i, o: app("a_i1", (48 * i + 40 + o,), "I")
        if op == "order":
            seq = []
            for q, nm in enumerate(("N", "D")):
                def facts(t, q=q, nm=nm):
                    k = t.args[1]
                    c = int(k.const())
                    S = lambda k: app(nm, (k,), "I")
                    out = [Implies(k.eq(0), S(k).eq(0)), S(k).ge(0), Implies(k.ge(0), S(k).le(255 * k))]
                    if 0 < c <= 8:
                        i = k - 1
                        out.append(Implies(i.ge(0), S(k).eq(S(i) + byte(i, q))))
                    return out
                p.pv.fact_gens[nm] = facts
                seq.append(lambda k, nm=nm: app(nm, (k,), "I"))
            p.pv.fact_gens["a_i1"] = lambda t: [poly_of(t).ge(0), poly_of(t).le(255)]

            def cands(li):
                return [v.eq(f(li.k)) for v in li.hdr.values() if isinstance(v, Poly) and v.sort == "I" for f in seq]
            p.e.loop_cands = [cands]
            return p.run([s], lambda p, st, v: p.ensure(st, v.eq(mx(seq[0](n), seq[1](n))), "the larger sum of the orders of the sections"))
        copied(p, a)
        r = p.struct("r", [], 24) if op in ("copy", "move") else sections(p, "b", p.size("m"))[0]

        def same(st, o, what, un):
            b, x = p.e.read(st, o.obj, I(0), PTR), p.e.read(st, o.obj, I(8), PTR)
            p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(48 * n)), what + ": number of sections")
            p.ensure(st, T.bconst(un is None or b.obj is not un), what + ": independent of the source")
            if b.obj is not None:
                for q in range(5):
                    p.ensure_all(st, Ptr(b.obj, b.off + 8 * q), n, 48, lambda j, s_: app("a", (6 * j + q,), "R"), what + ": coefficient %d" % q)
                for q in range(2):
                    p.ensure_all(st, Ptr(b.obj, b.off + 40 + q), n, 48, lambda j, s_: byte(j, q), what + ": order %d" % q, ("i", 8))

        def post(p, st, v):
            same(st, r, "sections of the source", None if op == "move" else a.obj)
            if op != "move":
                same(st, s, "source unchanged", None)
        return p.run([r, s], post)
    return job


def zpk_system(p, m, gain):
    nr, nc, qr, qc = [p.size(m + k) for k in ("nr", "nc", "qr", "qc")]
    z, a = factored(p, m + "z", nr, nc)
    w, b = factored(p, m + "p", qr, qc)
    s = p.struct(m + "sys", [(0, F64, gain)], 120)
    for off, f in ((8, z), (64, w)):
        for i in range(0, 56, 8):
            p.e.write(p.st, s.obj, I(off + i), PTR, p.e.read(p.st, f.obj, I(i), PTR))
    return s, (nr, nc, qr, qc), (a.obj, b.obj)


def expanded(fn):
    """numerator: gain times the expanded zeros; denominator: the expanded poles (ExpandPolynomial is under contract in C14)"""
    def job(mod):
        p = Proof(mod, fn, budget=100)
        gain = p.real("gain")
        s, (nr, nc, qr, qc), objs = zpk_system(p, "a", gain)
        parts = {8: ("zeros", nr + 2 * nc + 1), 64: ("poles", qr + 2 * qc + 1)}

        def handler(e, st, args, ins):
            ret, f = args
            part = parts.get(int(f.off.const())) if f.obj is s.obj and f.off.is_const() else None
            e.require(st, T.bconst(part is not None), "%s:pre(the zeros or the poles)" % e.cur)
            if part is None:
                return []
            o = new_array(e, st, ret, part[1], 8)
            fill_new(e, st, o, part[1], 1, lambda j, q: app(part[0], (j,), "R"))
            return [(st, "ret", None)]
        keep_contract(p, "16ExpandPolynomialI", handler)

        r = p.struct("r", [], 48)

        def post(p, st, v):
            is_vector(p, st, r, 0, parts[8][1], lambda j: gain * app("zeros", (j,), "R"), "numerator")
            is_vector(p, st, r, 24, parts[64][1], lambda j: app("poles", (j,), "R"), "denominator")
            p.ensure(st, p.e.read(st, s.obj, I(0), F64).eq(gain), "gain unchanged")
            is_factored(p, st, Ptr(s.obj, I(8)), nr, nc, *root("az", nr), "zeros unchanged")
            is_factored(p, st, Ptr(s.obj, I(64)), qr, qc, *root("ap", qr), "poles unchanged")
        return p.run([r, s], post)
    return job


PAIR = (32, [(0, I8)] + [(8 + 8 * q, F64) for q in range(3)])


def slot(record, off):
    """(element, slot) of an offset into an array of records"""
    for at, ty in record[1]:
        j = (off - at).divides_exact(record[0])
        if j is not None:
            return j, at
    return None, None


def records(p, record, val):
    """content function: val(j, slot)"""
    def f(rst, offb, ty):
        j, at = slot(record, offb)
        if j is None or dict(record[1])[at] != ty:
            return p.e.fresh_val(ty)
        return val(j, at)
    return f


def el(nm):
    """slot at of element j of the list of polynomials nm"""
    return lambda j, at: app("%s%d" % (nm, at), (j,), "R" if at else "I")


def assembling(mod):
    """sections: the sorted polynomials of the zeros over those of the poles, missing ones are 1, gain in the last section"""
    p = Proof(mod, "cb_make", budget=300)
    gain = p.real("gain")
    s, (nr, nc, qr, qc), objs = zpk_system(p, "a", gain)
    half = lambda n: idiv(n + 1, 2)
    size = {"rz": half(nr), "cz": nc, "rp": half(qr), "cp": qc}
    total = {"z": size["rz"] + size["cz"], "p": size["rp"] + size["cp"]}
    joined = lambda w: lambda j, at: ite(j.lt(size["r" + w]), el("r" + w)(j, at), el("c" + w)(j - size["r" + w], at))
    for q in "rz", "cz", "rp", "cp", "z", "p":
        p.pv.fact_gens[q + "0"] = lambda t: [poly_of(t).ge(0), poly_of(t).le(255)]

    def factors(kind):
        def handler(e, st, args, ins):
            ret, f, l = args
            w, n = None, I(0)
            if f.obj is not None:
                w = "z" if f.obj is objs[0] else "p" if f.obj is objs[1] else None
                e.require(st, T.bconst(w is not None and l.obj is f.obj), "%s:pre(roots of the system)" % e.cur)
                if w is None:
                    return []
                lo, hi = {"rz": (I(0), nr), "cz": (nr, nr + 2 * nc), "rp": (I(0), qr), "cp": (qr, qr + 2 * qc)}[kind + w]
                e.require(st, And(f.off.eq(8 * lo), l.off.eq(8 * hi)), "%s:pre(all the roots of this kind)" % e.cur)
                n = size[kind + w]
            else:
                e.require(st, T.bconst(l.obj is None), "%s:pre(no roots)" % e.cur)
                w = "none"
            o = e.new_obj(st, "factors%d" % len(st.mem), 32 * n, "heap")
            o.record = PAIR
            st.mem[o] = Content(st.mem[o], "fn", (I(0), 32 * n, records(p, PAIR, el(kind + w))))
            for k, x in enumerate((I(0), 32 * n, 32 * n)):
                e.store(st, Ptr(ret.obj, ret.off + 8 * k), PTR, Ptr(o, x))
            return [(st, "ret", None)]
        return handler
    keep_contract(p, "19RealRootPolynomialsI", factors("r"))
    keep_contract(p, "22ComplexPairPolynomialsI", factors("c"))

    def insert(e, st, args, ins):
        v, pos, f, l = args[:4]
        b, x = e.read(st, v.obj, v.off, PTR), e.read(st, v.obj, v.off + 8, PTR)
        e.require(st, And(T.bconst(pos.obj is x.obj and f.obj is l.obj), pos.off.eq(x.off)), "%s:pre(insertion at the end)" % e.cur)
        old, new = (x.off - b.off) if b.obj is not None else I(0), (l.off - f.off) if f.obj is not None else I(0)
        o = e.new_obj(st, "joined%d" % len(st.mem), old + new, "heap")
        o.record = PAIR
        if b.obj is not None:
            st.mem[o] = Content(st.mem[o], "fn", (I(0), old, lambda rst, off, ty, c=st.mem[b.obj]: e.read(rst, b.obj, b.off + off, ty, content=c)))
        if f.obj is not None:
            st.mem[o] = Content(st.mem[o], "fn", (old, old + new, lambda rst, off, ty, c=st.mem[f.obj]: e.read(rst, f.obj, f.off + off - old, ty, content=c)))
        for k, y in enumerate((I(0), old + new, old + new)):
            e.store(st, Ptr(v.obj, v.off + 8 * k), PTR, Ptr(o, y))
        return [(st, "ret", None)]
    keep_contract(p, "15_M_range_insertI", insert)

    def sort(e, st, args, ins):
        """std::sort: the same polynomials in another order"""
        b, x = args[:2]
        if b.obj is None:
            e.require(st, T.bconst(x.obj is None), "%s:pre(a range)" % e.cur)
            return [(st, "ret", None)]
        n = x.off - b.off
        if e.pv.prove(st.pc, n.eq(0)) == "proved":
            return [(st, "ret", None)]

        def goals(t, w):
            yield And(T.bconst(b.obj is x.obj), n.eq(32 * total[w]))
            j = fresh("j")
            t.assume(And(j.ge(0), j.lt(total[w])))
            for at, ty in PAIR[1]:
                v = e.read(t, b.obj, b.off + 32 * j + at, ty)
                yield v.eq(joined(w)(j, at)) if isinstance(v, Poly) else FALSE
        t = st.fork()
        w = "z" if all(e.pv.prove(t.pc, g) == "proved" for g in goals(t, "z")) else "p"
        t = st.fork()
        for g in goals(t, w):
            e.require(t, g, "%s:pre(all the polynomials of the zeros, or of the poles)" % e.cur)
        i0 = b.off
        f = records(p, PAIR, el(w))
        st.mem[b.obj] = Content(st.mem[b.obj], "fn", (i0, i0 + n, lambda rst, off, ty: f(rst, off - i0, ty)))
        return [(st, "ret", None)]
    keep_contract(p, "_ZSt4sortI", sort)
    default = lambda j, at: I(0) if at >= 40 else R(1 if at == 16 else 0)

    def minv(li, ob, ent):
        if ob.kind != "heap":
            return []
        out = []
        for nm, i0, h in li.ints():
            if not (isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob):
                continue
            for src in [o for o in li.st.mem if getattr(o, "record", None) is PAIR and o is not ob]:
                def cf(ctx, h=h, i0=i0, src=src):
                    f = records(p, PAIR, lambda j, at: p.e.read(li.st, src, 32 * j + at, dict(PAIR[1])[at]))
                    return Content(ent, "fn", (i0, ctx.of(h), f))
                cf.record = PAIR
                out.append(cf)

            def cf(ctx, h=h, i0=i0):
                return Content(ent, "fn", (i0, ctx.of(h), records(p, RECORD, default)))
            cf.record = RECORD
            out.append(cf)

        def over(w, moved):
            def cf(ctx):
                f = lambda rst, off, ty: with_slot(rst, off, ty, ctx.k)
                return Content(ent, "fn", (I(0), ob.size, f))

            def with_slot(rst, off, ty, k):
                j, at = slot(RECORD, off)
                if j is None or dict(RECORD[1])[at] != ty:
                    return p.e.fresh_val(ty)
                was = p.e.read(rst, ob, off, ty, content=ent)
                return ite(j.lt(k), el(w)(j, moved[at]), was) if at in moved else was
            cf.record = RECORD
            return cf
        out += [over("z", {0: 8, 8: 16, 16: 24, 40: 0}), over("p", {24: 8, 32: 16, 41: 0})]
        ob.record = getattr(ob, "record", None) or (RECORD if ob.size.divides_exact(48) is not None else PAIR)
        return [c for c in out if c.record is ob.record]
    p.e.mem_inv = [minv]
    r = p.struct("r", [], 24)

    def post(p, st, v):
        nz, np = total["z"], total["p"]
        n = ite(nz.ge(np), nz, np)
        b, x = p.e.read(st, r.obj, I(0), PTR), p.e.read(st, r.obj, I(8), PTR)
        p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(48 * n)), "as many sections as the longer list of polynomials")
        if b.obj is None:
            return
        for at, ty in RECORD[1]:
            w, m, from_ = ("z", nz, {0: 8, 8: 16, 16: 24, 40: 0}) if at < 24 or at == 40 else ("p", np, {24: 8, 32: 16, 41: 0})

            def want(j, s_):
                v = ite(j.lt(m), el(w)(j, from_[at]), default(j, at))
                return ite(j.eq(n - 1), gain * v, v) if at < 24 else v
            p.ensure_all(st, Ptr(b.obj, b.off + at), n, 48, want, "sections, slot %d" % at, ty)
    return p.run([r, s], post)


def growing(p, ret, spec):
    """std::vector::emplace_back appends an element (assumed): the list is kept in ghost memory, its elements so far are
    spec(0), spec(1), .."""
    ln = p.struct("len", [(0, I64, I(0))], 8)
    out = p.struct("list", [], 32 << 40)
    out.obj.record = PAIR
    ln.obj.hint = None

    def emplace(e, st, args, ins):
        v, k, c = args
        e.require(st, T.bconst(v.obj is ret.obj), "%s:pre(the returned list)" % e.cur)
        i = e.read(st, ln.obj, I(0), I64)
        e.require(st, And(i.ge(0), i.lt(1 << 38)), "%s:pre(length of the list)" % e.cur)
        kind = e.read(st, k.obj, k.off, ("i", 32))
        e.require(st, And(kind.ge(0), kind.lt(256)), "%s:pre(the order is a small number)" % e.cur)
        e.write(st, out.obj, 32 * i, I8, kind)
        for q in range(3):
            e.write(st, out.obj, 32 * i + 8 + 8 * q, F64, e.read(st, c.obj, c.off + 8 * q, F64))
        e.write(st, ln.obj, I(0), I64, i + 1)
        return [(st, "ret", Ptr(ret.obj, I(0)))]
    keep_contract(p, "12emplace_backI", emplace)

    def minv(li, ob, ent):
        n0 = p.e.read(li.st, ln.obj, I(0), I64)
        if ob is ln.obj:
            return [lambda ctx: Content(ent, "fn", (I(0), I(8), lambda rst, off, ty: n0 + ctx.k if ty == I64 else p.e.fresh_val(ty)))]
        if ob is out.obj:
            def cf(ctx):
                return Content(ent, "fn", (32 * n0, 32 * (n0 + ctx.k), records(p, PAIR, spec)))
            return [cf]
        return []
    p.e.mem_inv = [minv]

    def post(n):
        def f(p, st, v):
            p.ensure(st, p.e.read(st, ln.obj, I(0), I64).eq(n), "number of polynomials")
            for at, ty in PAIR[1]:
                p.ensure_all(st, Ptr(out.obj, I(at)), n, 32, lambda j, s_: spec(j, at), "polynomials, slot %d" % at, ty)
        return f
    return post


def mangled(mod, frag):
    return [f[1:].strip('"') for f in mod.funcs if f[1:].strip('"').startswith("_ZN5dspbb14CascadedBiquadIdE" + frag)][0]


def pairs_list(mod):
    """x^2 - 2 Re(r) x + |r|^2 for every pair"""
    p = Proof(mod, mangled(mod, "22ComplexPairPolynomialsI"), budget=100, label="ComplexPairPolynomials")
    n = p.size("n")
    a = p.array("a", 2 * n)
    a.obj.lanes = 2
    re, im = lambda j: app("a", (2 * j,), "R"), lambda j: app("a", (2 * j + 1,), "R")
    # |z|^2 = re^2 + im^2
    p.pv.fact_gens["cm_abs"] = lambda t: [(poly_of(t) * poly_of(t)).eq(t.args[1] * t.args[1] + t.args[2] * t.args[2])]
    r = p.struct("r", [], 24)
    spec = lambda j, at: {0: I(2), 8: re(j) * re(j) + im(j) * im(j), 16: -2 * re(j), 24: R(1)}[at]
    post = growing(p, r, spec)
    return p.run([r, a, Ptr(a.obj, 16 * n)], post(n))


def real_list(e, f):
    """S: the sorted roots (std::sort orders them), the first m = 2a + e of them negative (std::partition_point), the other
    2b + f not.  Pairs from the outside in, then the two that are left together, or one alone: every root once"""
    def job(mod):
        p = Proof(mod, mangled(mod, "19RealRootPolynomialsI"), budget=200, label="RealRootPolynomials[%d,%d]" % (e, f))
        a, b = p.size("a"), p.size("b")
        m, n = 2 * a + e, 2 * a + e + 2 * b + f
        x = p.array("x", n)
        S = lambda j: app("S", (j,), "R")
        r = p.struct("r", [], 24)
        place = {}

        def sort(en, st, args, ins):
            lo, hi = args[:2]
            if lo.obj is None:
                en.require(st, And(n.eq(0), T.bconst(hi.obj is None)), "%s:pre(all the roots)" % en.cur)
                return [(st, "ret", None)]
            en.require(st, And(T.bconst(lo.obj is hi.obj), lo.off.eq(0), hi.off.eq(8 * n)), "%s:pre(all the roots)" % en.cur)
            t = st.fork()
            j = fresh("j")
            t.assume(And(j.ge(0), j.lt(n)))
            en.require(t, en.read(t, lo.obj, 8 * j, F64).eq(app("x", (j,), "R")), "%s:pre(the roots)" % en.cur)
            st.mem[lo.obj] = Content(st.mem[lo.obj], "fn", (I(0), 8 * n, lambda rst, off, ty: S(off.divides_exact(8)) if ty == F64 and off.divides_exact(8) is not None else en.fresh_val(ty)))
            return [(st, "ret", None)]
        keep_contract(p, "_ZSt4sortI", sort)

        def partition_point(en, st, args, ins):
            lo, hi = args[:2]
            if lo.obj is None:
                return [(st, "ret", lo)]
            en.require(st, And(T.bconst(lo.obj is hi.obj), lo.off.eq(0), hi.off.eq(8 * n)), "%s:pre(all the sorted roots)" % en.cur)
            return [(st, "ret", Ptr(lo.obj, 8 * m))]
        keep_contract(p, "_ZSt15partition_pointI", partition_point)

        def spec(j, at):
            def two(p_, q_):
                return {0: I(2), 8: S(p_) * S(q_), 16: -S(p_) - S(q_), 24: R(1)}[at]

            def one(q_):
                return {0: I(1), 8: R(0), 16: -S(q_), 24: R(1)}[at]
            i = j - a
            last = two(m + b, a) if e and f else one(a) if e else one(m + b)
            out = two(m + i, n - 1 - i)
            if e or f:
                out = ite(j.lt(a + b), out, last)
            return ite(j.lt(a), two(j, m - 1 - j), out)
        post = growing(p, r, spec)
        return p.run([r, x, Ptr(x.obj, 8 * n)], post(a + b + (1 if e or f else 0)))
    return job


def factor_values(mod):
    """a section with the coefficients above is the product of its factors: order 2 (x - r1)(x - r2) or the pair's, order 1
    x - r1, order 0 one"""
    p = Proof(mod, "cb_make", budget=60, label="factor-values")
    x, y, a, b = [p.real(n) for n in "xyab"]
    num = lambda c, o: [[c[0] + c[2]], [c[0] + c[1], c[2]], [c[0], c[1], c[2]]][o]

    def ev(c):
        v = [R(0), R(0)]
        for k in reversed(c):
            v = cmul(v, [x, y])
            v[0] = v[0] + k
        return v
    lin = lambda r: [x - r, y]
    for what, c, o, want in (("two real roots", [a * b, -a - b, R(1)], 2, cmul(lin(a), lin(b))), ("one real root", [R(0), -a, R(1)], 1, lin(a)),
                             ("no root", [R(0), R(0), R(1)], 0, [R(1), R(0)]), ("pair", [a * a + b * b, -2 * a, R(1)], 2, cmul([x - a, y - b], [x - a, y + b]))):
        for q in range(2):
            p.e.require(p.st, ev(num(c, o))[q].eq(want[q]), "factor-values/lemma:%s, part %d" % (what, q))
    p.secs = time.time() - p.t0
    return p


def jobs(thorough):
    out = [Job(fn, "e", value(fn)) for fn in VALUE]
    out += [Job(fn, "v", cascade_value(fn)) for fn in ("cb_eval", "cb_evalc")]
    out += [Job("section[%s,%d/%d]" % ("complex" if cx else "real", n, d), "v", section(cx, n, d)) for cx in (0, 1) for n in range(3) for d in range(3)]
    out.append(Job("factor-values", "c", factor_values))
    out.append(Job("ComplexPairPolynomials", "r", pairs_list))
    out += [Job("RealRootPolynomials[%d,%d]" % (e, f), "r", real_list(e, f), budget=200) for e in (0, 1) for f in (0, 1)]
    out.append(Job("cb_make", "c", assembling, budget=300))
    out += [Job(fn, "m", expanded(fn)) for fn in ("tf_make", "ctf_make")]
    out += [Job(fn, "o", storage(fn)) for fn in STORE]
    return out
