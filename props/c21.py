"""C21: signals as value containers."""
from common import *

ELT = {"d": 8, "c": 16}
ACC = "s_at s_cat s_begin s_bbegin s_cbegin s_end s_bend s_cend s_rbegin s_brbegin s_crbegin s_rend s_brend s_crend s_data s_cdata".split()
ATTR = "s_size s_capacity s_empty".split()
NEW = "s_default s_count s_value s_copy s_move s_ptr s_iter s_assign s_move_assign s_self_assign".split()
CONV = "s_conv s_conv_assign".split()
MUT = "s_reserve s_resize s_resize_v s_clear s_append s_prepend s_push_back s_front s_back s_insert s_insert_it s_insert_rg s_erase s_erase_rg".split()
EX = ACC + ATTR + NEW + MUT
UNITS = {"d": dict(cpp="containers.cpp", exports=EX + CONV, defines=["-DSIGNALS"]), "c": dict(cpp="containers.cpp", exports=EX, defines=["-DSIGNALS", "-DA_C"])}
REPLAY = ["c21.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["operator new never fails; a signal is not inserted into itself (the precondition of std::vector)"]
BOUNDED = "resize with a complex fill value, sequences of operations, initialiser lists, element types float, int and complex<float>"


def sig(p, nm, t, lo=0, readonly=False, elt=None):
    """a signal: capacity, size and elements arbitrary"""
    w = elt or ELT[t]
    cap, n = p.size("cap_" + nm), p.size("n_" + nm, lo)
    p.requires(n.le(cap))
    a = p.array(nm, cap * (w // 8) if not elt else cap, 8 if not elt else elt, readonly=readonly)
    a.obj.kind = "heap" if not readonly else a.obj.kind
    s = p.struct("s_" + nm, [(0, PTR, a), (8, PTR, Ptr(a.obj, n * w)), (16, PTR, Ptr(a.obj, cap * w))], 24)
    return s, a, n, cap, w


def el(nm, i, q, w):
    return app(nm, ((w // 8) * i + q,), "R") if w >= 8 else app(nm, (i,), "R")


def is_seq(p, st, s, n, w, spec, what):
    """the signal at s holds n elements spec(i, q)"""
    b, e, c = [p.e.read(st, s.obj, s.off + 8 * k, PTR) for k in range(3)]
    p.ensure(st, T.bconst(b.obj is e.obj and e.obj is c.obj), what + ": one storage")
    p.ensure(st, (e.off - b.off).eq(n * w), what + ": size")
    p.ensure(st, e.off.le(c.off), what + ": capacity")
    if b.obj is None:
        return None
    p.ensure(st, And(b.off.ge(0), c.off.le(b.obj.size)), what + ": storage")
    for q in range(w // 8):
        p.ensure_all(st, Ptr(b.obj, b.off + 8 * q), n, w, lambda j, s_, q=q: spec(j, q), what + ": elements")
    return b.obj


def access(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, t))
        s, a, n, cap, w = sig(p, "a", t, 1)
        i = p.size("i")
        p.requires(i.lt(n))
        args, k = [s, i], i
        if fn.endswith("data"):
            args, k = [s], I(0)
        elif fn in ("s_end", "s_bend", "s_cend", "s_rbegin", "s_brbegin", "s_crbegin"):
            k = n - 1 - i

        def post(p, st, v):
            p.ensure(st, T.bconst(v.obj is a.obj), "refers to the storage")
            p.ensure(st, v.off.eq(k * w), "refers to the element")
        return p.run(args, post)
    return job


def attr(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, t))
        s, a, n, cap, w = sig(p, "a", t)

        def post(p, st, v):
            if fn == "s_empty":
                p.ensure(st, T.Iff(v if not isinstance(v, Poly) else v.ne(0), n.eq(0)), "empty exactly when without elements")
            else:
                p.ensure(st, v.eq(n if fn == "s_size" else cap), fn)
        return p.run([s], post)
    return job


def make(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=120, label="%s<%s>" % (fn, t))
        w = ELT[t]
        zero = lambda i, q: R(0)
        if fn in ("s_default", "s_count", "s_value", "s_ptr", "s_iter"):
            r = p.struct("r", [], 24)
            n = p.size("n")
            if fn == "s_default":
                return p.run([r], lambda p, st, v: is_seq(p, st, r, I(0), w, zero, "no elements"))
            if fn == "s_count":
                return p.run([r, n], lambda p, st, v: is_seq(p, st, r, n, w, zero, "zeros"))
            if fn == "s_value":
                x = p.array("x", w // 8)
                return p.run([r, n, x], lambda p, st, v: is_seq(p, st, r, n, w, lambda i, q: app("x", (I(q),), "R"), "copies of the value"))
            x = p.array("x", n * (w // 8))
            return p.run([r, x, n], lambda p, st, v: is_seq(p, st, r, n, w, lambda i, q: el("x", i, q, w), "copy of the range"))
        if fn == "s_self_assign":
            s, a, n, cap, w = sig(p, "a", t)
            return p.run([s], lambda p, st, v: is_seq(p, st, s, n, w, lambda i, q: el("a", i, q, w), "unchanged"))
        conv = "conv" in fn
        src, b, nb, cb, wb = sig(p, "b", t, elt=4 if conv else None)
        if "assign" in fn:
            r, a, na, ca, _ = sig(p, "a", t)
        else:
            r = p.struct("r", [], 24)

        def post(p, st, v):
            o = is_seq(p, st, r, nb, w, lambda i, q: el("b", i, q, wb), "elements of the source")
            if "move" not in fn:
                p.ensure(st, T.bconst(o is not b.obj), "the copy is independent")
                if not conv:
                    is_seq(p, st, src, nb, w, lambda i, q: el("b", i, q, w), "source unchanged")
            else:
                is_seq(p, st, src, I(0), w, zero, "the moved-from signal is empty")
        return p.run([r, src], post)
    return job


def mutate(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=200, label="%s<%s>" % (fn, t))
        s, a, n, cap, w = sig(p, "a", t)
        A = lambda i, q: el("a", i, q, w)
        B = lambda i, q: el("b", i, q, w)
        X = lambda i, q: app("x", (I(q),), "R")
        k = p.size("k")
        if fn == "s_reserve":
            def post(p, st, v):
                is_seq(p, st, s, n, w, A, "elements unchanged")
                b, c = [p.e.read(st, s.obj, s.off + 8 * q, PTR) for q in (0, 2)]
                p.ensure(st, (c.off - b.off).ge(k * w), "room for the reserved elements")
            return p.run([s, k], post)
        if fn == "s_clear":
            return p.run([s], lambda p, st, v: is_seq(p, st, s, I(0), w, A, "no elements"))
        if fn in ("s_resize", "s_resize_v"):
            x = p.array("x", w // 8)
            return p.run([s, k] + ([x] if fn.endswith("v") else []),
                         lambda p, st, v: is_seq(p, st, s, k, w, lambda i, q: ite(i.lt(n), A(i, q), X(i, q) if fn.endswith("v") else R(0)), "kept or filled"))
        if fn == "s_push_back":
            x = p.array("x", w // 8)
            return p.run([s, x], lambda p, st, v: is_seq(p, st, s, n + 1, w, lambda i, q: ite(i.lt(n), A(i, q), X(i, q)), "one element more"))
        if fn in ("s_erase", "s_erase_rg"):
            j = p.size("j")
            p.requires(And(k.le(j), j.le(n)))
            if fn == "s_erase":
                p.requires(j.eq(k + 1))
            return p.run([s, k] + ([j] if fn == "s_erase_rg" else []),
                         lambda p, st, v: is_seq(p, st, s, n - (j - k), w, lambda i, q: ite(i.lt(k), A(i, q), A(i + (j - k), q)), "the others in order"))
        if fn in ("s_front", "s_back"):
            p.requires(k.le(n))
            r = p.struct("r", [], 24)

            def post(p, st, v):
                f = k if fn == "s_front" else I(0)
                g = I(0) if fn == "s_front" else n - k
                o = is_seq(p, st, r, k, w, lambda i, q: A(i + g, q), "the extracted part")
                is_seq(p, st, s, n - k, w, lambda i, q: A(i + f, q), "the rest")
                p.ensure(st, T.bconst(o is not a.obj), "independent")
            return p.run([r, s, k], post)
        # insertion of m elements b before position k
        if fn == "s_insert_rg":
            m = p.size("m")
            b = p.array("b", m * (w // 8))
            extra, src = [b, m], None
        else:
            src, b, m, cb, _ = sig(p, "b", t, readonly=True)
            extra = [src]
        if fn == "s_append":
            pos, args = n, [s] + extra
        elif fn == "s_prepend":
            pos, args = I(0), [s] + extra
        else:
            pos, args = k, [s, k] + extra
            p.requires(k.le(n))

        def post(p, st, v):
            is_seq(p, st, s, n + m, w, lambda i, q: ite(i.lt(pos), A(i, q), ite(i.lt(pos + m), B(i - pos, q), A(i - m, q))), "inserted in order")
            if src is not None:
                is_seq(p, st, src, m, w, B, "inserted signal unchanged")
        return p.run(args, post)
    return job


# the optimiser splits the copied element at byte 1: bounded only
SKIP = {("s_resize_v", "c")}


def jobs(thorough):
    J = []
    for t in "dc":
        J += [Job("%s<%s>" % (f, t), t, access(f, t)) for f in ACC] + [Job("%s<%s>" % (f, t), t, attr(f, t)) for f in ATTR]
        J += [Job("%s<%s>" % (f, t), t, make(f, t)) for f in NEW + (CONV if t == "d" else [])] + [Job("%s<%s>" % (f, t), t, mutate(f, t)) for f in MUT if (f, t) not in SKIP]
    return J
