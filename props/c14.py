"""C14: polynomials."""
from common import *
import time
from engine import Obligation
import sigops

EVAL = "poly_eval poly_evalc fac_eval fac_evalc".split()
STORE = "poly_order poly_size poly_resize poly_make poly_copy fac_copy fac_move fac_assign fac_massign fac_resize fac_regroup fac_counts".split()
UNITS = {"e": dict(cpp="poly.cpp", exports=EVAL),
         "m": dict(cpp="poly.cpp", exports=["mul1", "mul1c", "mul2"]),
         "x": dict(cpp="poly.cpp", exports=["expand"], keep=["28MultiplyPolynomialBy1stOrderI", "28MultiplyPolynomialBy2ndOrderI"]),
         "s": dict(cpp="poly.cpp", exports=STORE),
         "c": dict(cpp="poly.cpp", exports=["fac_make"], keep=["22AreRootsConjugatePairsI"]),
         "a": dict(cpp="poly.cpp", exports=["are_pairs"])}
REPLAY = ["c14.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["The sequences of partial Horner sums, partial products and partially expanded coefficients are the unique solutions of their defining recurrences."]
BOUNDED = "float coefficients; the constructor of a factored polynomial from a list of roots, its sorting into real roots and pairs and its rejection of unpaired roots; sequences of storage operations"


def vec(p, name, n, cap=None):
    a = p.array(name, n, readonly=False)
    return a, [(0, PTR, a), (8, PTR, Ptr(a.obj, 8 * n)), (16, PTR, Ptr(a.obj, 8 * n))]


def factored(p, name, nr, nc, m=None):
    m = m or name
    n = nr + 2 * nc
    a, f = vec(p, m, n)
    q = lambda i: Ptr(a.obj, 8 * i)
    s = p.struct(name + "_f", f + [(24, PTR, q(I(0))), (32, PTR, q(nr)), (40, PTR, q(nr)), (48, PTR, q(n))], 56)
    return s, a


def recurrence(p, name, first, step, parts=1):
    """the sequence with value first before the first step, and step(value, i) after step i; unfolded from the step's
    index without its constant.  Values are lists of parts"""
    def at(i, q=None):
        v = [app(name + (str(q) if parts > 1 else ""), (i,), "R") for q in range(parts)]
        return v if q is None else v[q]

    def facts(q):
        def g(a):
            i = a.args[1]
            c = i.const()
            v = at(i - c)
            out = []
            if c and c > 0 and c <= 8:
                w = first if i.is_const() else v
                for t in range(c):
                    w = step(w, i - c + t)
                out.append(Implies((i - c).ge(0), poly_of(a).eq(w[q])))
            else:
                out.append(Implies(i.eq(0), poly_of(a).eq(first[q])))
            return out
        return g
    for q in range(parts):
        p.pv.fact_gens[name + (str(q) if parts > 1 else "")] = facts(q)
    return at


def complex_parts(v):
    return v if isinstance(v, (list, tuple)) else [v]


def cmul(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def tracks(p, *index):
    """loop candidates: a number of the loop is a part of a ghost sequence at the index of the loop.  index: functions of
    the iteration and an offset in bytes"""
    def cands(li):
        out = []
        offs = [h for nm, i0, h in li.ints()]
        for v in li.hdr.values():
            if isinstance(v, Poly) and v.sort == "R":
                for f in index:
                    for o in offs:
                        i = f(li.k, o)
                        out += [v.eq(g) for g in i or ()]
        return out
    p.e.loop_cands = [cands]


def polynomial(fn):
    """Horner's scheme: h(0) = 0, h(k+1) = x h(k) + c[n-1-k]"""
    def job(mod):
        p = Proof(mod, fn, budget=60)
        n = p.size("n")
        a, f = vec(p, "c", n)
        s = p.struct("p", f, 24)
        cx = fn.endswith("c")
        x = p.array("x", 2 if cx else 1)
        X = [app("x", (I(q),), "R") for q in range(2 if cx else 1)]
        co = lambda i: app("c", (i,), "R")

        def step(v, i):
            w = cmul(X, v) if cx else [X[0] * v[0]]
            return [w[0] + co(n - 1 - i)] + w[1:]
        h = recurrence(p, "h", [R(0)] * len(X), step, len(X))
        tracks(p, lambda k, o: h(k))
        if not cx:
            return p.run([s, x], lambda p, st, r: p.ensure(st, r.eq(h(n, 0)), "value"))
        r = p.array("r", 2, readonly=False)
        return p.run([r, s, x], lambda p, st, v: [p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(h(n, q)), "value") for q in range(2)])
    return job


def factored_value(fn):
    def job(mod):
        p = Proof(mod, fn, budget=100)
        nr, nc = p.size("nr"), p.size("nc")
        s, a = factored(p, "r", nr, nc)
        cx = fn.endswith("c")
        d = 2 if cx else 1
        x = p.array("x", d)
        X = [app("x", (I(q),), "R") for q in range(d)]
        root = lambda i: app("r", (i,), "R")

        def real(v, i):
            f = [X[0] - root(i)] + X[1:]
            return cmul(v, f) if cx else [v[0] * f[0]]

        def pair(v, i):
            re, im = root(nr + 2 * i), root(nr + 2 * i + 1)
            f = cmul(X, X) if cx else [X[0] * X[0]]
            f = [f[0] - 2 * re * X[0] + re * re + im * im] + [f[q] - 2 * re * X[q] for q in range(1, d)]
            return cmul(v, f) if cx else [v[0] * f[0]]
        one = [R(1)] + [R(0)] * (d - 1)
        Q, Z = recurrence(p, "Q", one, real, d), recurrence(p, "Z", one, pair, d)
        at = lambda g, i: g(i) if i is not None else None
        tracks(p, lambda k, o: at(Q, o.divides_exact(8)), lambda k, o: at(Z, (o - 8 * nr).divides_exact(16)))
        val = lambda: cmul(Q(nr), Z(nc)) if cx else [Q(nr)[0] * Z(nc)[0]]
        if not cx:
            return p.run([s, x], lambda p, st, r: p.ensure(st, r.eq(val()[0]), "product over the roots"))
        r = p.array("o", 2, readonly=False)
        return p.run([r, s, x], lambda p, st, v: [p.ensure(st, p.e.read(st, r.obj, I(8 * q), F64).eq(val()[q]), "product over the roots") for q in range(2)])
    return job


def times(old, j, c, d=1):
    """coefficient j of a polynomial times c[0] + c[1] x + .. + x^n"""
    w = [complex_parts(x) for x in c]

    def prod(k):
        v = complex_parts(old(j - k))
        return v if k == len(c) else cmul(v, w[k]) if d == 2 else [v[0] * w[k][0]]
    out = prod(0)
    for k in range(1, len(c) + 1):
        out = [o + ite(j.ge(k), v, R(0)) for o, v in zip(out, prod(k))]
    return out


def multiply(fn):
    def job(mod):
        p = Proof(mod, fn, budget=60)
        n = p.size("n")
        d = 2 if fn == "mul1c" else 1
        a = p.array("a", n * d, readonly=False)
        a.obj.lanes = d
        el = lambda j: [app("a", (d * j + q,), "R") for q in range(d)]
        if d == 2:
            c = p.array("c", 2)
            args, cs = [c], [[app("c", (I(q),), "R") for q in range(2)]]
        else:
            cs = args = [p.real("c%d" % i) for i in range(1 if fn == "mul1" else 2)]
        val = lambda j: times(el, j, cs, d)

        def minv(li, ob, ent):
            if ob is not a.obj:
                return []

            def cf(ctx):
                def f(rst, offb, ty):
                    j = offb.divides_exact(8)
                    if j is None or ty != F64:
                        return p.e.fresh_val(ty)
                    old = p.e.read(rst, ob, offb, ty, content=ent)
                    for q in range(d):
                        i = j if d == 1 else (j - q).divides_exact(d)
                        if i is not None:
                            return ite((i + ctx.k).ge(n), val(i)[q], old)
                    i = idiv(j, d)
                    return ite((i + ctx.k).ge(n), ite(imod(j, d).eq(0), val(i)[0], val(i)[1]), old)
                return Content(ent, "fn", (I(0), ob.size, f))
            return [cf]
        p.e.mem_inv = [minv]

        def post(p, st, r):
            for q in range(d):
                p.ensure_all(st, Ptr(a.obj, 8 * q), n, 8 * d, lambda j, s: val(j)[q], "coefficients of the product, part %d" % q)
        return p.run([a, n] + args, post)
    return job


def times_contract(e, st, args, ins):
    """MultiplyPolynomialBy1stOrder, 2ndOrder (proved as mul1, mul2)"""
    b, x, c = args[0], args[1], args[2:]
    if b.obj is None:
        return [(st, "ret", None)]
    e.require(st, And(T.bconst(b.obj is x.obj), b.off.ge(0), x.off.le(b.obj.size)), "%s:pre(the coefficients lie inside their array)" % e.cur)
    n = idiv(x.off - b.off, 8)

    def val(j, q, old):
        at = lambda i: old(b, i) if not (i - j).is_const() or i == j else guarded(old, b, i)
        return times(at, j, c)[0]
    sigops.overwrite(e, st, b, n, 8, 1, val)
    return [(st, "ret", None)]


def guarded(old, b, i):
    return old(b, ite(i.ge(0), i, I(0)))


def expand(mod):
    """E(k, j): coefficient j after multiplying 1 by x - root(0), .., x - root(k-1); G(k, j) likewise after k pairs"""
    p = Proof(mod, "expand", budget=100)
    for fn in p.mod.funcs:
        nm = fn[1:].strip('"')
        if "MultiplyPolynomialBy" in nm:
            p.e.contracts[nm] = times_contract
    nr, nc = p.size("nr"), p.size("nc")
    s, a = factored(p, "r", nr, nc)
    root = lambda i: app("r", (i,), "R")
    one = lambda j: ite(j.eq(0), R(1), R(0))
    E_ = lambda k, j: ite(k.le(0), one(j), app("E", (k, j), "R"))
    G = lambda k, j: ite(k.le(0), E_(nr, j), app("G", (k, j), "R"))

    def pair(k):
        re, im = root(nr + 2 * k), root(nr + 2 * k + 1)
        return [re * re + im * im, -2 * re]
    nextE = lambda k, j: times(lambda i: E_(k, i), j, [-root(k)])[0]
    nextG = lambda k, j: times(lambda i: G(k, i), j, pair(k))[0]
    n = nr + 2 * nc + 1

    def minv(li, ob, ent):
        if ob.kind == "arg":
            return []
        out = []
        for now, then in ((E_, nextE), (G, nextG)):
            def cf(ctx, now=now, then=then):
                def f(rst, offb, ty):
                    j = offb.divides_exact(8)
                    if j is None or ty != F64:
                        return p.e.fresh_val(ty)
                    step = ctx.vals is not None and ctx.k == ctx.run.k + 1
                    return then(ctx.run.k, j) if step else now(ctx.k, j)
                return Content(ent, "fn", (I(0), 8 * n, f))
            out.append(cf)
        return out
    p.e.mem_inv = [minv]
    r = p.struct("o", [], 24)

    def post(p, st, v):
        b, x = p.e.read(st, r.obj, I(0), PTR), p.e.read(st, r.obj, I(8), PTR)
        p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(8 * n)), "one coefficient more than roots")
        p.ensure_all(st, b, n, 8, lambda j, s_: G(nc, j), "the coefficients after all roots and pairs")
    return p.run([r, s], post)


def is_vector(p, st, s, off, n, val, what, unless=None):
    b, x = p.e.read(st, s.obj, I(off), PTR), p.e.read(st, s.obj, I(off + 8), PTR)
    p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(8 * n)), what + ": size")
    if b.obj is not None:
        p.ensure_all(st, b, n, 8, lambda j, s_: val(j), what)
    p.ensure(st, T.bconst(b.obj is not unless or unless is None), what + ": independent of the source")
    return b


def is_factored(p, st, s, nr, nc, real, pair, what, unless=None):
    """the roots seen through real_roots and complex_pairs"""
    b, x = p.e.read(st, s.obj, s.off, PTR), p.e.read(st, s.obj, s.off + 8, PTR)
    p.ensure(st, And(T.bconst(b.obj is x.obj), (x.off - b.off).eq(8 * (nr + 2 * nc))), what + ": size of the storage")
    p.ensure(st, T.bconst(unless is None or b.obj is not unless), what + ": independent of the source")
    for off, at, n in ((24, I(0), nr), (40, nr, 2 * nc)):
        f, l = p.e.read(st, s.obj, s.off + off, PTR), p.e.read(st, s.obj, s.off + off + 8, PTR)
        p.ensure(st, And(T.bconst(f.obj is l.obj), (l.off - f.off).eq(8 * n)), what + ": number of roots")
        p.ensure(st, Or(n.eq(0), And(T.bconst(f.obj is b.obj), f.off.eq(b.off + 8 * at))), what + ": the roots are in the storage")
    if b.obj is not None:
        p.ensure_all(st, b, nr, 8, lambda j, s_: real(j), what + ": real roots")
        for q in range(2):
            p.ensure_all(st, Ptr(b.obj, b.off + 8 * nr + 8 * q), nc, 16, lambda j, s_: pair(j, q), what + ": pairs, part %d" % q)


def root(name, nr):
    return (lambda j: app(name, (j,), "R")), (lambda j, q: app(name, (nr + 2 * j + q,), "R"))


def storage(fn):
    def job(mod):
        p = Proof(mod, fn, budget=150)
        n, m = p.size("n"), p.size("m")
        co = lambda j: app("c", (j,), "R")
        if fn == "poly_make":
            a, r = p.array("c", n), p.struct("r", [], 24)
            return p.run([r, a, n], lambda p, st, v: is_vector(p, st, r, 0, n, co, "the coefficients of the range"))
        if fn.startswith("poly"):
            a, f = vec(p, "c", n)
            s = p.struct("s", f, 24)
            if fn == "poly_order":
                return p.run([s], lambda p, st, v: p.ensure(st, v.eq(ite(n.ge(1), n - 1, I(0))), "one less than the number of coefficients"))
            if fn == "poly_size":
                return p.run([s], lambda p, st, v: p.ensure(st, v.eq(n), "number of coefficients"))
            if fn == "poly_resize":
                x = p.real("x")
                return p.run([s, m, x], lambda p, st, v: is_vector(p, st, s, 0, m, lambda j: ite(j.lt(n), co(j), x), "coefficients kept, new ones filled"))
            r = p.struct("r", [], 24)
            return p.run([r, s], lambda p, st, v: is_vector(p, st, r, 0, n, co, "copied coefficients", a.obj))
        nr, nc = p.size("nr"), p.size("nc")
        s, a = factored(p, "a", nr, nc)
        A = root("a", nr)
        if fn == "fac_counts":
            o = p.array("o", 4, readonly=False)

            def post(p, st, v):
                p.ensure(st, v.eq(nr + 2 * nc), "order")
                for i, x in enumerate((nr + 2 * nc, nr, 2 * nc, nc)):
                    p.ensure(st, p.e.read(st, o.obj, I(8 * i), I64).eq(x), "count %d" % i)
            return p.run([s, o], post)
        if fn in ("fac_copy", "fac_move"):
            r = p.struct("r", [], 56)
        elif fn in ("fac_assign", "fac_massign"):
            r, b = factored(p, "b", p.size("mr"), p.size("mc"))
        if fn in ("fac_copy", "fac_move", "fac_assign", "fac_massign"):
            def post(p, st, v):
                move = "m" in fn[4:]
                is_factored(p, st, r, nr, nc, *A, "roots of the source", None if move else a.obj)
                if move:
                    is_factored(p, st, s, I(0), I(0), *A, "moved from")
                else:
                    is_factored(p, st, s, nr, nc, *A, "source unchanged")
            return p.run([r, s], post)
        x, z = p.real("x"), p.array("z", 2)
        Z = lambda q: app("z", (I(q),), "R")
        mr = p.size("mr")
        if fn == "fac_resize":
            mc = p.size("mc")
            args = [s, mr, mc, x, z]
        else:
            h = nr + 2 * nc - mr
            p.requires(And(h.ge(0), imod(h, 2).eq(0)))
            mc = idiv(h, 2)
            args = [s, mr, x, z]
        filled(p, mr, x, Z)
        return p.run(args, lambda p, st, v: is_factored(p, st, s, mr, mc, lambda j: ite(j.lt(nr), A[0](j), x), lambda j, q: ite(j.lt(nc), A[1](j, q), Z(q)), "roots kept, new ones filled"))
    return job


def refused(which):
    """regroup with another parity of real roots, or more than there are roots, throws and changes nothing"""
    def job(mod):
        p = Proof(mod, "fac_regroup", budget=60, label="fac_regroup[%s]" % which)
        nr, nc, mr = p.size("nr"), p.size("nc"), p.size("mr")
        s, a = factored(p, "a", nr, nc)
        p.requires(imod(mr, 2).ne(imod(nr, 2)) if which == "parity" else mr.gt(nr + 2 * nc))
        p.throws_ok = lambda p, st, v: is_factored(p, st, s, nr, nc, *root("a", nr), "unchanged")
        return p.run([s, mr, p.real("x"), p.array("z", 2)], lambda p, st, v: p.ensure(st, FALSE, "the regrouping is refused"), want_return=False)
    return job


def filled(p, mr, x, Z):
    """loop candidates: std::fill of the new real roots, of the new pairs"""
    def minv(li, ob, ent):
        out = []
        for nm, i0, h in li.ints():
            if not (isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob):
                continue

            def real(ctx, h=h, i0=i0):
                return Content(ent, "fn", (i0, ctx.of(h), lambda rst, offb, ty: x if ty == F64 else p.e.fresh_val(ty)))

            def pair(ctx, h=h, i0=i0):
                def f(rst, offb, ty):
                    if ty != F64:
                        return p.e.fresh_val(ty)
                    j = (offb - i0).divides_exact(8)
                    if j is None:
                        return p.e.fresh_val(ty)
                    for q in range(2):
                        if (j - q).divides_exact(2) is not None:
                            return Z(q)
                    return ite(imod(j, 2).eq(0), Z(0), Z(1))
                return Content(ent, "fn", (i0, ctx.of(h), f))
            out += [real, pair]
        return out
    p.e.mem_inv = [minv]


def construct(mod):
    """from a list of roots.  R(k), P(k): how many of the first k roots are real, have a positive imaginary part;
    real(i), pos(i): the positions of the i-th of them"""
    p = Proof(mod, "fac_make", budget=200)
    paired = app("paired", (I(0),), "I").eq(1)
    keep_contract(p, "22AreRootsConjugatePairsI", pairs_contract(paired))
    n = p.size("n")
    a = p.array("a", 2 * n)
    a.obj.lanes = 2
    im = lambda i: app("a", (2 * i + 1,), "R")
    Rn, Pn = [lambda k, nm=nm: app(nm, (k,), "I") for nm in ("R", "P")]
    sel = {"R": lambda i: app("real", (i,), "I"), "P": lambda i: app("pos", (i,), "I")}
    hit = {"R": lambda i: im(i).eq(0), "P": lambda i: im(i).gt(0)}

    def facts(nm):
        def g(at):
            k = at.args[1]
            c = k.const()
            C = lambda k: app(nm, (k,), "I")
            out = [C(k).ge(0), Implies(k.ge(0), C(k).le(k)), Implies(k.eq(0), C(k).eq(0))]
            for i in [k - t for t in range(1, int(c) + 1)] if 0 < c <= 8 else []:
                out += [Implies(And(i.ge(0), hit[nm](i)), And(C(i + 1).eq(C(i) + 1), sel[nm](C(i)).eq(i))), Implies(And(i.ge(0), Not(hit[nm](i))), C(i + 1).eq(C(i)))]
            out += [Implies(And(k.ge(0), hit[nm](k)), sel[nm](C(k)).eq(k)), Implies(And(k.ge(0), k.lt(n), hit[nm](k)), C(k).lt(C(n)))]
            # counts do not decrease, and there are no more of them than other roots
            out.append(Implies(k.le(n), C(k).le(C(n))))
            if nm == "P":
                out.append(Implies(k.ge(0), (C(k) + Rn(k)).le(k)))
            elif nm == "R":
                out.append(Implies(k.ge(0), Rn(k).le(k)))
            return out
        return g
    for nm in "RP":
        p.pv.fact_gens[nm] = facts(nm)
    p.e.paired_counts = lambda: And((n - Rn(n)).eq(2 * Pn(n)))
    val = {"R": lambda j: app("a", (2 * sel["R"](j),), "R"), "P": lambda j, q: app("a", (2 * sel["P"](j) + q,), "R")}

    def cands(li):
        out = []
        idx = [h.divides_exact(16) for nm, i0, h in li.ints() if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is a.obj]
        for nm, i0, h in li.ints():
            v = li.hdr[nm]
            for i in idx:
                if i is None:
                    continue
                if isinstance(v, Ptr):
                    out += [h.eq(i0 + 8 * Rn(i)), h.eq(i0 + 16 * Pn(i))]
                else:
                    out.append(h.eq(Rn(i)))
        return out
    p.e.loop_cands = [cands]

    def minv(li, ob, ent):
        if ob is a.obj or ob.kind == "arg":
            return []
        out = []
        idx = [h.divides_exact(16) for nm, i0, h in li.ints() if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is a.obj]
        for nm, i0, h in li.ints():
            if not (isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob):
                continue

            def real(ctx, i0=i0, h=h):
                return Content(ent, "fn", (i0, ctx.of(h), lambda rst, offb, ty: val["R"]((offb - i0).divides_exact(8)) if ty == F64 and (offb - i0).divides_exact(8) is not None else p.e.fresh_val(ty)))

            def pair(ctx, i0=i0, h=h):
                def f(rst, offb, ty):
                    j = (offb - i0).divides_exact(8)
                    if j is None or ty != F64:
                        return p.e.fresh_val(ty)
                    for q in range(2):
                        if (j - q).divides_exact(2) is not None:
                            return val["P"]((j - q).divides_exact(2), q)
                    return ite(imod(j, 2).eq(0), val["P"](idiv(j, 2), 0), val["P"](idiv(j, 2), 1))
                c = Content(ent, "fn", (i0, ctx.of(h), f))
                c.grid = (i0, 2)
                return c
            out += [real, pair]
        zero = [lambda ctx, i0=i0, h=h: Content(ent, "fn", (i0, ctx.of(h), lambda rst, offb, ty: R(0) if ty == F64 else p.e.fresh_val(ty)))
                for nm, i0, h in li.ints() if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is ob]
        return out + zero
    p.e.mem_inv = [minv]
    r = p.struct("r", [], 56)
    p.throws_ok = lambda p, st, v: p.ensure(st, Or(Not(paired), imod(n - Rn(n), 2).eq(1)), "only unpaired roots are refused")

    def post(p, st, v):
        p.ensure(st, paired, "unpaired roots are refused")
        is_factored(p, st, r, Rn(n), Pn(n), val["R"], val["P"], "roots of the list")
    return p.run([r, a, n], post)


def are_pairs(mod):
    """true exactly when every root is in the list as often as its conjugate.  bad(k): how many of the first k are not"""
    p = Proof(mod, "are_pairs", budget=100)
    n = p.size("n")
    a = p.array("a", 2 * n)
    a.obj.lanes = 2
    z = lambda i, q: app("a", (2 * i + q,), "R")
    one = lambda b: ite(b, I(1), I(0))
    # how many of the first k roots are equal, conjugate to root i
    cnt = {"same": lambda i, k: app("same", (i, k), "I"), "conj": lambda i, k: app("conj", (i, k), "I")}
    sign = {"same": 1, "conj": -1}
    same, conj = [lambda i, f=f: cnt[f](i, n) for f in ("same", "conj")]

    def counts(f):
        def g(at):
            i, k = at.args[1], at.args[2]
            if k == n:
                return []
            out = [Implies(k.eq(0), cnt[f](i, k).eq(0)), Implies(k.eq(n), cnt[f](i, k).eq(cnt[f](i, n)))]
            if k.const() == 1:
                j = k - 1
                out.append(Implies(j.ge(0), cnt[f](i, k).eq(cnt[f](i, j) + one(And(z(j, 0).eq(z(i, 0)), z(j, 1).eq(z(i, 1) * sign[f]))))))
            return out
        return g
    for f in cnt:
        p.pv.fact_gens[f] = counts(f)
    bad = lambda k: app("bad", (k,), "I")

    def facts(at):
        k = at.args[1]
        c = k.const()
        out = [bad(k).ge(0), Implies(k.eq(0), bad(k).eq(0)), Implies(k.le(n), bad(k).le(bad(n)))]
        for i in [k - t for t in range(1, int(c) + 1)] if 0 < c <= 8 else [k]:
            w = same(i).ne(conj(i))
            out += [Implies(And(i.ge(0), i.lt(n)), bad(i + 1).eq(bad(i) + one(w)))] if c else [Implies(And(i.ge(0), i.lt(n), w), bad(i).lt(bad(n)))]
        if not c and k != n:
            for t in range(4):
                out.append(Implies(And(k.ge(0), (k + t).lt(n), same(k + t).ne(conj(k + t))), bad(n).ge(1)))
                b = bad(k)
                for q in range(t):
                    b = b + one(same(k + q).ne(conj(k + q)))
                out.append(Implies(And(k.ge(0), (k + t).eq(n)), bad(n).eq(b)))
        return out
    p.pv.fact_gens["bad"] = facts

    def cands(li):
        idx = [h.divides_exact(16) for nm, i0, h in li.ints() if isinstance(li.hdr[nm], Ptr) and li.hdr[nm].obj is a.obj]
        idx = [i for i in idx if i is not None]
        outer = {v.off.divides_exact(16) for v in li.st.env.values() if isinstance(v, Ptr) and v.obj is a.obj} - {None}
        return [bad(i).eq(0) for i in idx] + [li.hdr[nm].eq(f(i, j)) for nm, i0, h in li.ints() if isinstance(h, Poly) and not isinstance(li.hdr[nm], Ptr)
                                              for i in outer for j in idx for f in cnt.values()]
    p.e.loop_cands = [cands]
    return p.run([a, n], lambda p, st, v: p.ensure(st, T.Iff(v if not isinstance(v, Poly) else v.ne(0), bad(n).eq(0)), "true exactly when all roots are paired"))


def pairs_contract(paired):
    """AreRootsConjugatePairs: whether every root occurs as often as its conjugate; then there are as many roots with a
    positive imaginary part as with a negative one (assumed; bounded)"""
    def h(e, st, args, ins):
        s1, s2 = st.fork(), st.fork()
        s1.assume(And(paired, e.paired_counts()))
        s2.assume(Not(paired))
        return [(s, "ret", b) for s, b in ((s1, TRUE), (s2, FALSE)) if e.pv.feasible(s.pc)]
    return h


def lemma(mod):
    """What the recurrences of the contracts amount to, by induction.  The steps use ring identities only, so they hold for
    complex x as well
      Horner: h(n) = sum_j c(j) x^j
      expansion: P(k) = sum_j E(k,j) x^j satisfies P(0) = 1, P(k+1) = (x - r) P(k), or (x^2 + c1 x + c0) P(k) for a pair;
      the coefficient of the highest power stays one"""
    import z3
    p = Proof(mod, "poly_size", label="the coefficients of the expansion have the values of the product")
    Z, Rl = z3.IntSort(), z3.RealSort()
    c, h, w = [z3.Function(n, Z, Rl) for n in ("c", "h", "pw")]
    s, E, S = [z3.Function(n, Z, Z, Rl) for n in "sES"]
    n, k, m, j, d = z3.Ints("n k m j d")
    x, r, c0, c1 = z3.Reals("x r c0 c1")
    pw = lambda i: w(i + 1) == x * w(i)
    ss = lambda k, m: s(k, m + 1) == s(k, m) + c(n - k + m) * w(m)
    SS = lambda k, m: S(k, m + 1) == S(k, m) + E(k, m) * w(m)
    e1 = lambda k, j: E(k + 1, j) == z3.If(j >= 1, E(k, j - 1), 0) - r * E(k, j)
    e2 = lambda k, j: E(k + 1, j) == z3.If(j >= 2, E(k, j - 2), 0) + c1 * z3.If(j >= 1, E(k, j - 1), 0) + c0 * E(k, j)
    first = lambda k, m: S(k + 1, m + 1) == x * S(k, m) - r * S(k, m + 1)
    second = lambda k, m: S(k + 1, m + 2) == x * x * S(k, m) + c1 * x * S(k, m + 1) + c0 * S(k, m + 2)
    zero = [S(k, 0) == 0, S(k + 1, 0) == 0, w(0) == 1]
    # one more power: the definitions inserted.  A = S(k,m), B, C, D = E(k,m), E(k,m+1), E(k,m+2), W = x^m
    A, B, C, D, W = z3.Reals("A B C D W")
    sums = [A, A + B * W, A + B * W + C * x * W, A + B * W + C * x * W + D * x * x * W]
    add1 = (x * sums[0] - r * sums[1]) + (B - r * C) * (x * W) == x * sums[1] - r * sums[2]
    add2 = (x * x * sums[0] + c1 * x * sums[1] + c0 * sums[2]) + (B + c1 * C + c0 * D) * (x * x * W) == x * x * sums[1] + c1 * x * sums[2] + c0 * sums[3]
    steps = [("Horner: the sum of no powers", [s(k, 0) == 0, s(k + 1, 0) == 0, w(0) == 1, ss(k + 1, 0)], s(k + 1, 1) == c(n - k - 1) + x * s(k, 0)),
             ("Horner: one more power", [m >= 0, pw(m), ss(k + 1, m + 1), ss(k, m), s(k + 1, m + 1) == c(n - k - 1) + x * s(k, m)], s(k + 1, m + 2) == c(n - k - 1) + x * s(k, m + 1)),
             ("Horner: h(k) = s(k,k) steps to k+1", [h(k + 1) == x * h(k) + c(n - 1 - k), h(k) == s(k, k), s(k + 1, k + 1) == c(n - k - 1) + x * s(k, k)], h(k + 1) == s(k + 1, k + 1)),
             ("root: no power above the degree", [j > d + 1, e1(k, j), E(k, j - 1) == 0, E(k, j) == 0], E(k + 1, j) == 0),
             ("root: the highest coefficient", [d >= 0, e1(k, d + 1), E(k, d) == 1, E(k, d + 1) == 0], E(k + 1, d + 1) == 1),
             ("root: the sum of no powers", zero + [e1(k, I0(0)), SS(k + 1, 0), SS(k, 0)], first(k, 0)),
             ("root: one more power", [], add1),
             ("root: values multiply", [m > d, d >= 0, SS(k, m), E(k, m) == 0, first(k, m)], S(k + 1, m + 1) == (x - r) * S(k, m + 1)),
             ("pair: no power above the degree", [j > d + 2, e2(k, j), E(k, j - 2) == 0, E(k, j - 1) == 0, E(k, j) == 0], E(k + 1, j) == 0),
             ("pair: the highest coefficient", [d >= 0, e2(k, d + 2), E(k, d) == 1, E(k, d + 1) == 0, E(k, d + 2) == 0], E(k + 1, d + 2) == 1),
             ("pair: the sum of no powers", zero + [e2(k, I0(0)), e2(k, I0(1)), SS(k + 1, 0), SS(k + 1, 1), SS(k, 0), SS(k, 1), pw(0)], second(k, 0)),
             ("pair: one more power", [], add2),
             ("pair: values multiply", [m > d, d >= 0, SS(k, m), SS(k, m + 1), E(k, m) == 0, E(k, m + 1) == 0, second(k, m)], S(k + 1, m + 2) == (x * x + c1 * x + c0) * S(k, m + 2))]
    for name, hyp, goal in steps:
        t = time.time()
        v = z3.Solver()
        v.set("timeout", 20000)
        v.add(*hyp)
        ok = v.check() == z3.sat
        v.add(z3.Not(goal))
        p.e.obls.append(Obligation("lemma(polynomials)/" + name, "proved" if ok and v.check() == z3.unsat else "failed", "QF_UFNRA", time.time() - t))
    p.secs = time.time() - p.t0
    return p


def I0(i):
    import z3
    return z3.IntVal(i)


def jobs(thorough):
    out = []
    for fn in ("poly_eval", "poly_evalc"):
        out.append(Job(fn, "e", polynomial(fn)))
    for fn in ("fac_eval", "fac_evalc"):
        out.append(Job(fn, "e", factored_value(fn)))
    for fn in UNITS["m"]["exports"]:
        out.append(Job(fn, "m", multiply(fn)))
    out.append(Job("expand", "x", expand))
    out.append(Job("lemma", "s", lemma))
    out.append(Job("fac_make", "c", construct))
    out.append(Job("are_pairs", "a", are_pairs))
    for w in ("parity", "number"):
        out.append(Job("fac_regroup_" + w, "s", refused(w)))
    for fn in STORE:
        out.append(Job(fn, "s", storage(fn)))
    return out
